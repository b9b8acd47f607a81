----------------------------- MODULE ListTrace -----------------------------
EXTENDS List, Conform
OK == ListTypeOK(s)
=============================================================================
