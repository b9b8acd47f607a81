----------------------------- MODULE KeyringEnum -----------------------------
(* Schedules of imports and exports: crashes at every system call, races of two *)
(* importers with few preemptions, failing writes.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Kind, K
VARIABLE case
A == <<1, 2, 3>>
B == <<1, 2, 4>>
C == <<255>>
D == <<0, 0, 0, 0, 0>>
Key(k) == CASE k = 1 -> <<11, 12, 13, 14, 15, 16, 17, 18>> [] k = 2 -> <<>> [] k = 3 -> <<0, 171, 173, 172, 171, 0, 0, 0, 0>> [] k = 4 -> <<9>>
Imp(w, n, id, k) == [op |-> "imp", a |-> <<w, n, id, Key(k), Key(5 - k)>>]
Exp(w, n, id) == [op |-> "exp", a |-> <<w, n, id>>]
Adv(w, n) == [op |-> "adv", a |-> <<w, n>>]
Lay(q) == [op |-> "layout", a |-> q]
Die(g) == [op |-> "kill", a |-> <<g>>]
Fault(w, n, k) == [op |-> "fault", a |-> <<w, n, k, 0>>]
Before(n) == CASE n = 0 -> <<>> [] n = 1 -> <<Imp(1, 0, A, 1)>> [] n = 2 -> <<Imp(1, 0, A, 1), Imp(1, 0, B, 2)>>
After(w) == <<Exp(w, 0, A), Exp(w, 0, B), Exp(w, 0, C), Imp(w, 0, C, 4), Exp(w, 0, C), Imp(w, 0, D, 3), Exp(w, 0, D), Exp(w, 0, A), Exp(w, 0, B), Imp(w, 0, A, 2), Exp(w, 0, A)>>
Cases(x) ==
  CASE Kind = "crash" -> {<<Lay(<<1, 2, 3>>)>> \o Before(b) \o <<Imp(2, n, C, k), Die(2)>> \o After(3) : b \in 0..2, n \in 1..K, k \in {1, 3}}
    [] Kind = "crash2" -> {<<Lay(<<1, 2, 3, 4>>)>> \o Before(b) \o <<Imp(2, n, C, 1), Die(2), Imp(3, m, id, 3), Die(3)>> \o After(4)
                           : b \in 0..1, n \in 1..K, m \in 1..K, id \in {C, D}}
    [] Kind = "crashexp" -> {<<Lay(<<1, 2, 3>>)>> \o Before(2) \o <<Exp(2, n, id), Die(2)>> \o After(3) : n \in 1..K, id \in {A, B, C}}
    [] Kind = "race" -> {<<Lay(l)>> \o Before(b) \o <<Imp(1, i, C, 1), Imp(2, j, id, 3), Adv(1, k), Adv(2, 0), Adv(1, 0)>> \o After(1)
                         : l \in {<<1, 2>>, <<1, 1>>}, b \in 0..1, i \in 1..K, j \in 1..K, k \in {0, 3, 9}, id \in {C, D}}
    [] Kind = "expimp" -> {<<Lay(<<1, 2>>)>> \o Before(b) \o <<Exp(1, i, id), Imp(2, j, C, 3), Adv(1, 0), Adv(2, 0)>> \o After(1)
                           : b \in {0, 2}, i \in 1..K, j \in 1..K, id \in {B, C}}
    [] Kind = "fault" -> {<<Lay(<<1, 2>>)>> \o Before(b) \o <<Fault(1, n, f), Imp(1, 0, C, k)>> \o After(2) : b \in 0..2, n \in 1..K, f \in 1..4, k \in {1, 3}}
EInit == case \in Cases(0)
ENext == UNCHANGED case
Emit == PrintT("@@" \o ToJson(case))
=============================================================================
