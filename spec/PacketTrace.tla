---------------------------- MODULE PacketTrace ----------------------------
EXTENDS Packet, Conform
=============================================================================
