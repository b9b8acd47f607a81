---------------------------- MODULE SharedTrace ----------------------------
EXTENDS Shared, Conform
=============================================================================
