---------------------------- MODULE StreamTrace ----------------------------
EXTENDS Stream, Conform
=============================================================================
