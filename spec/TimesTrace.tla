---------------------------- MODULE TimesTrace ----------------------------
EXTENDS Times, Conform
=============================================================================
