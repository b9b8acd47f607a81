---------------------------- MODULE TransferTrace ----------------------------
EXTENDS Transfer, Conform
=============================================================================
