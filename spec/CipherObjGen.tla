---------------------------- MODULE CipherObjGen ----------------------------
EXTENDS CipherObj, Gen
=============================================================================
