---------------------------- MODULE LockTrace ----------------------------
EXTENDS Lock, Conform
=============================================================================
