--------------------------- MODULE KeyringFileEnum ---------------------------
(* Key rings cut at every length, altered at every byte, with every length field *)
(* replaced by extreme values, and with rubbish at the end.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Kind, K
VARIABLE case
A == <<1, 2, 3>>
B == <<1, 2, 4>>
C == <<255>>
D == <<0, 0, 0, 0, 0>>
Key(k) == CASE k = 1 -> <<11, 12, 13, 14, 15, 16, 17, 18>> [] k = 2 -> <<>> [] k = 3 -> <<0, 171, 173, 172, 171, 0, 0, 0, 0>> [] k = 4 -> <<9>>
Imp(id, k) == [op |-> "imp", a |-> <<1, 0, id, Key(k), Key(5 - k)>>]
Exp(id) == [op |-> "exp", a |-> <<1, 0, id>>]
Dump == [op |-> "dump", a |-> <<>>]
List == [op |-> "list", a |-> <<1, 0>>]
Lay == [op |-> "layout", a |-> <<1>>]
Poke(o, v) == [op |-> "poke", a |-> <<o, v>>]
Cut(n) == [op |-> "cut", a |-> <<n>>]
Glue(b) == [op |-> "glue", a |-> <<b>>]
Ring(n) == <<Lay, Imp(A, 1), Dump>> \o
           CASE n = 1 -> <<>> [] n = 2 -> <<Imp(B, 2), Dump>> [] n = 3 -> <<Imp(B, 2), Dump, Imp(C, 3), Dump>>
                [] n = 4 -> <<Imp(A, 2), Dump, Imp(D, 4), Dump>>
After == <<Exp(A), Exp(B), Exp(C), Exp(D), List, Imp(D, 3), Dump, Exp(D), Exp(A), Exp(B), List, Imp(C, 2), Dump, Exp(C), Exp(D), Exp(A), Imp(A, 2), Dump, Exp(A), Dump>>
\* the header is 64 bytes, a record 32 and its three strings
H == 64
Words == {<<0, 0, 0, 0>>, <<255, 255, 255, 255>>, <<255, 255, 255, 127>>, <<0, 0, 0, 128>>, <<0, 0, 1, 0>>, <<64, 0, 0, 0>>, <<1, 0, 0, 0>>, <<9, 0, 0, 0>>, <<120, 0, 0, 0>>, <<250, 255, 255, 255>>}
\* positions of the length fields: of records A (3, 8, 1), B (3, 0, 9) and C (1, 9, 0)
Fields == {H + 20, H + 27, H + 39, H + 64, H + 71, H + 75, H + 108, H + 113, H + 126, H, H + 4, H + 8, H + 44, H + 48, H + 52}
Cases(x) ==
  CASE Kind = "cut" -> {Ring(n) \o <<Cut(o)>> \o After : n \in 1..4, o \in 0..K}
    [] Kind = "poke" -> {Ring(n) \o <<Poke(o, v)>> \o After : n \in {2, 3}, o \in 0..K, v \in {0, 1, 127, 128, 255, 3}}
    [] Kind = "word" -> {Ring(3) \o <<Poke(o, w[1]), Poke(o + 1, w[2]), Poke(o + 2, w[3]), Poke(o + 3, w[4])>> \o After : o \in Fields, w \in Words}
    [] Kind = "glue" -> {Ring(n) \o <<Glue(g)>> \o After : n \in 1..3,
         g \in {<<0>>, <<1>>, <<171>>, <<171, 173, 172>>, <<171, 173, 172, 171>>, <<0, 0, 0, 0>>, <<0, 0, 0, 0, 1>>, <<171, 173, 172, 171, 0, 0, 0, 0, 1, 0, 0, 0, 3, 0, 0, 0>>,
                <<171, 173, 172, 171, 0, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0, 255, 1, 0, 0, 0, 9, 1, 0, 0, 0, 7>>,
                <<171, 173, 172, 171, 0, 0, 0, 0, 1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 255, 1, 0, 0, 0, 9, 1, 0, 0, 0>>,
                <<171, 173, 172, 171, 0, 0, 0, 0, 1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 255, 1, 0, 0, 0, 9, 1, 0, 0, 0, 7>>}}
    [] Kind = "two" -> {Ring(3) \o <<Poke(o, v), Cut(p)>> \o After : o \in H..K, v \in {0, 255, 4}, p \in {H + 60, H + 90, H + 120}}
EInit == case \in Cases(0)
ENext == UNCHANGED case
Emit == PrintT("@@" \o ToJson(case))
=============================================================================
