--------------------------- MODULE HashmapTrace ---------------------------
EXTENDS Hashmap, Conform
OK == HashmapTypeOK(s)
=============================================================================
