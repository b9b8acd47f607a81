---------------------------- MODULE LogTrace ----------------------------
EXTENDS Log, Conform
=============================================================================
