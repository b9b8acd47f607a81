---------------------------- MODULE RandomTrace ----------------------------
EXTENDS Random, Conform
=============================================================================
