------------------------------ MODULE ListGen ------------------------------
EXTENDS List, Gen
OK == ListTypeOK(s)
=============================================================================
