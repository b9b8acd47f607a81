---------------------------- MODULE CodecTrace ----------------------------
EXTENDS Codec, Conform
=============================================================================
