---------------------------- MODULE XmlTrace ----------------------------
EXTENDS Xml, Conform
=============================================================================
