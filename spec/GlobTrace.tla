---------------------------- MODULE GlobTrace ----------------------------
EXTENDS Glob, Conform
=============================================================================
