----------------------------- MODULE KeyMapGen -----------------------------
EXTENDS KeyMap, Gen
=============================================================================
