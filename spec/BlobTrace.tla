---------------------------- MODULE BlobTrace ----------------------------
EXTENDS Blob, Conform
=============================================================================
