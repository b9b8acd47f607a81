---------------------------- MODULE KeyringFileTrace ----------------------------
EXTENDS KeyringFile, Conform
=============================================================================
