---------------------------- MODULE TempFileTrace ----------------------------
EXTENDS TempFile, Conform
=============================================================================
