------------------------------- MODULE KeyMap -------------------------------
(* Key maps: finite maps from identifiers to keys.  Identifiers and values of   *)
(* generated keys are the implementation's choice; they must be new.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT NObj
Fresh == [map |-> <<>>, gen |-> <<>>]      \* map: sequence of <<id, key>>; gen: sequence of <<id, key or <<-1>>>>
KeyMapInit(cfg) == [o |-> [i \in 1..NObj |-> Fresh], ids |-> {}, vals |-> {}]
Find(q, id) == LET S == {k \in 1..Len(q) : q[k][1] = id} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : j <= k
KeyMapStep(s, e) ==
  LET a == e.a  r == e.r  i == a[1]  b == s.o[i]
      Res(ok, t, w) == [ok |-> ok, s |-> t, want |-> w]
  IN
  CASE e.op = "set" -> Res(r = 1, [s EXCEPT !.o[i].map = Append(@, <<a[2], a[3]>>)], 1)
    [] e.op = "get" -> LET k == Find(b.map, a[2]) IN Res(r = b.map[k][2], s, b.map[k][2])
    [] e.op = "gen" -> Res(r \notin s.ids /\ Len(r) >= 8, [s EXCEPT !.ids = @ \cup {r}, !.o[i].gen = Append(@, <<r, <<-1>>>>)], "a new identifier")
    [] e.op = "getg" ->        \* the key of the k-th generated identifier of this object
         LET k == a[2] + 1  v == b.gen[k][2] IN
         IF v # <<-1>> THEN Res(r = v, s, v)
         ELSE Res(r \notin s.vals /\ Len(r) >= 8, [s EXCEPT !.vals = @ \cup {r}, !.o[i].gen[k] = <<b.gen[k][1], r>>], "a new key")
    [] e.op = "setg" ->        \* replace the key of a generated identifier
         Res(r = 1, [s EXCEPT !.o[i].gen[a[2] + 1] = <<b.gen[a[2] + 1][1], a[3]>>], 1)
    [] e.op = "del" -> Res(r = 0, [s EXCEPT !.o[i] = Fresh], 0)
KeyMapApply(s, o) ==
  LET a == o.a  i == a[1] IN
  CASE o.op = "set" -> [s EXCEPT !.o[i].map = Append(@, <<a[2], a[3]>>)]
    [] o.op = "gen" -> [s EXCEPT !.o[i].gen = Append(@, <<<<0>>, <<-1>>>>)]
    [] o.op = "del" -> [s EXCEPT !.o[i] = Fresh]
    [] OTHER -> s
Ids == {<<>>, <<0>>, <<1>>, <<1, 0>>, <<1, 2, 3>>, <<1, 2, 4>>, <<97, 98, 99, 100>>, [k \in 1..64 |-> 255], [k \in 1..64 |-> k], [k \in 1..65 |-> k]}
Rnd(n) == [k \in 1..n |-> RandomElement(0..255)] \o <<>>
Opt(c, q) == IF c THEN q ELSE <<>>
OpsAt(s, i, key) ==
  LET b == s.o[i]
      known == {b.map[k][1] : k \in 1..Len(b.map)}
  IN <<[op |-> "set", a |-> <<i, RandomElement(Ids), key>>]>>
     \o Opt(Len(b.gen) < 4, <<[op |-> "gen", a |-> <<i>>]>>)
     \o Opt(known # {}, <<[op |-> "get", a |-> <<i, RandomElement(known)>>]>>)
     \o Opt(b.gen # <<>>, <<[op |-> "getg", a |-> <<i, RandomElement(1..Len(b.gen)) - 1>>]>>)
     \o Opt(b.gen # <<>> /\ RandomElement(1..4) = 1, <<[op |-> "setg", a |-> <<i, RandomElement(1..Len(b.gen)) - 1, key>>]>>)
     \o Opt(RandomElement(1..12) = 1, <<[op |-> "del", a |-> <<i>>]>>)
KeyMapOps(s) ==
  CHOOSE q \in UNION {{OpsAt(s, i, key) : key \in {Rnd(RandomElement({0, 1, 8, 15, 16, 17, 32, 33, 64, 100, 300}))}} : i \in {RandomElement(1..NObj)}} : TRUE
=============================================================================
