---------------------------- MODULE TextTrace ----------------------------
EXTENDS Text, Conform
=============================================================================
