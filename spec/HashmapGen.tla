---------------------------- MODULE HashmapGen ----------------------------
EXTENDS Hashmap, Gen
OK == HashmapTypeOK(s)
=============================================================================
