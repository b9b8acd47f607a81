---------------------------- MODULE BytesTrace ----------------------------
EXTENDS Bytes, Conform
OK == BytesTypeOK(s)
=============================================================================
