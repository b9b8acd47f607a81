---------------------------- MODULE ResourceTrace ----------------------------
EXTENDS Resource, Conform
=============================================================================
