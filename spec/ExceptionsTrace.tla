---------------------------- MODULE ExceptionsTrace ----------------------------
EXTENDS Exceptions, Conform
=============================================================================
