---------------------------- MODULE EntropyTrace ----------------------------
EXTENDS Entropy, Conform
=============================================================================
