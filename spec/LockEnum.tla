------------------------------ MODULE LockEnum ------------------------------
(* Schedules with few preemptions: each is a list of operations.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Kind, K
VARIABLE case
Adv(w, n) == [op |-> "adv", a |-> <<w, n, 0>>]
Lay(q) == [op |-> "layout", a |-> q]
Die(g) == [op |-> "kill", a |-> <<g>>]
\* everybody comes to rest, then each in turn gets the file alone
Settle(W) == LET Rest(w) == <<Adv(w, 0)>> IN
             CASE W = <<1, 2>> -> <<Adv(1, 0), Adv(2, 0), Adv(1, 0), Adv(2, 0), Adv(1, 0), Adv(2, 0), Adv(1, 0), Adv(1, 0), Adv(2, 0), Adv(2, 0)>>
Lone(w) == <<Adv(w, 0), Adv(w, 0), Adv(w, 0), Adv(w, 0)>>
Ks == 0..K
Cases(x) ==
  CASE Kind = "pair" -> {<<Lay(l), Adv(1, i), Adv(2, j), Adv(1, k), Adv(2, m)>> \o Settle(<<1, 2>>) : l \in {<<1, 2>>, <<1, 1>>}, i \in 1..K, j \in Ks, k \in Ks, m \in {0, 3}}
    \* a holder, complete or not, dies; two find what it left
    [] Kind = "stale" -> {<<Lay(<<1, 2, 3>>), Adv(3, d), Die(3), Adv(1, i), Adv(2, j), Adv(1, k)>> \o Settle(<<1, 2>>)
                          : d \in Ks, i \in Ks, j \in Ks, k \in Ks}
    \* the holder dies while another is trying
    [] Kind = "dies" -> {<<Lay(<<1, 2, 3>>), Adv(3, d), Adv(1, i), Die(3), Adv(1, k), Adv(2, j)>> \o Settle(<<1, 2>>)
                         : d \in Ks, i \in 1..K, j \in Ks, k \in Ks}
    \* dies at every point of acquiring, holding and releasing; one comes after
    [] Kind = "lone" -> {<<Lay(<<1, 2>>), Adv(2, d), Adv(2, e), Die(2)>> \o Lone(1) : d \in Ks, e \in Ks}
    \* a failed attempt while the file is held, then a third one tries
    [] Kind = "third" -> {<<Lay(l), Adv(1, 0), Adv(2, 0), Adv(3, i), Adv(2, j), Adv(3, 0), Adv(2, 0), Adv(1, k), Adv(2, 0), Adv(1, 0), Adv(3, 0)>> \o <<Adv(2, 0), Adv(3, 0)>>
                          : l \in {<<1, 2, 3>>, <<1, 1, 1>>, <<1, 1, 2>>}, i \in Ks, j \in Ks, k \in {0, 1, 2}}
EInit == case \in Cases(0)
ENext == UNCHANGED case
Emit == PrintT("@@" \o ToJson(case))
=============================================================================
