---------------------------- MODULE ManifestTrace ----------------------------
EXTENDS Manifest, Conform
=============================================================================
