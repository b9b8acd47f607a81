---------------------------- MODULE ReservoirGen ----------------------------
EXTENDS Reservoir, Gen
R(S) == RandomElement(S)
O(op, a) == [op |-> op, a |-> a]
Use(z) == O("use", <<R(1..7), R({0, 0, 1}), R({0, 0, 1, 2, 3})>>)
SOps(st) ==
  <<Use(0), Use(0), Use(0), Use(0), O("damage", <<R({"missing", "empty", "directory", "nohome", "dangling", "link", "long"}), 0, 0>>)>>
  \o <<O("damage", <<"cut", R(0..110), 0>>), O("damage", <<"cut", R(0..110), 0>>), O("damage", <<"byte", R(0..110), R(1..255)>>),
       O("damage", <<"byte", R(0..110), R({1, 128, 255})>>), O("damage", <<"byte", R(0..60), R(1..255)>>), O("damage", <<"append", R(1..100), 0>>)>>
  \o <<O("damage", <<"keep", 0, 0>>), O("damage", <<"back", 0, 0>>), O("damage", <<"back", 0, 0>>)>>
SInit(z) == ReservoirInit(0)
=============================================================================
