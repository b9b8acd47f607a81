------------------------- MODULE SplayTrace -------------------------
EXTENDS Splay, Conform
OK == SplayTypeOK(s)
=============================================================================
