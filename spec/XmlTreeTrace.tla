---------------------------- MODULE XmlTreeTrace ----------------------------
EXTENDS XmlTree, Conform
=============================================================================
