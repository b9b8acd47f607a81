---------------------------- MODULE CipherObjTrace ----------------------------
EXTENDS CipherObj, Conform
=============================================================================
