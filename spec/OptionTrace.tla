---------------------------- MODULE OptionTrace ----------------------------
EXTENDS Option, Conform
=============================================================================
