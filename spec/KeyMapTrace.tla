---------------------------- MODULE KeyMapTrace ----------------------------
EXTENDS KeyMap, Conform
=============================================================================
