---------------------------- MODULE SecretTrace ----------------------------
EXTENDS Secret, Conform
=============================================================================
