---------------------------- MODULE ReservoirTrace ----------------------------
EXTENDS Reservoir, Conform
=============================================================================
