---------------------------- MODULE MimeTrace ----------------------------
EXTENDS Mime, Conform
=============================================================================
