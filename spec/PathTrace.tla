---------------------------- MODULE PathTrace ----------------------------
EXTENDS Path, Conform
=============================================================================
