---------------------------- MODULE BalanceTrace ----------------------------
EXTENDS Balance, Conform
=============================================================================
