---------------------------- MODULE KeyringTrace ----------------------------
EXTENDS Keyring, Conform
=============================================================================
