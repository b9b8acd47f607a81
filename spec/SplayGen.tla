------------------------- MODULE SplayGen -------------------------
EXTENDS Splay, Gen
OK == SplayTypeOK(s)
=============================================================================
