-------------------------------- MODULE List --------------------------------
(* The linked list: a bounded sequence with an iterator.                    *)
(*   seq   the values, first to last                                        *)
(*   cap   the most elements it takes (0: unbounded)                        *)
(*   pos   elements already passed by the iterator; -1: undetermined until  *)
(*         the next reset                                                   *)
(* Every answer carries the call's result and the whole observable state.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL Key(v) == v % 10
ListInit(cfg) == [seq |-> <<>>, cap |-> -1, pos |-> 0]
LOCAL Full(s) == s.cap # 0 /\ Len(s.seq) = s.cap
LOCAL Ordered(q) == \A j \in 1..(Len(q) - 1) : Key(q[j]) <= Key(q[j + 1])
LOCAL InsAt(q, k, v) == SubSeq(q, 1, k) \o <<v>> \o SubSeq(q, k + 1, Len(q))
LOCAL DelAt(q, k) == SubSeq(q, 1, k) \o SubSeq(q, k + 2, Len(q))   \* k from 0
LOCAL Obs(s, r) == <<r, Len(s.seq), IF s.seq = <<>> THEN 1 ELSE 0, s.seq>>
LOCAL Ans(s, r) == [s |-> s, r |-> Obs(s, r)]
LOCAL Min(S) == CHOOSE x \in S : \A y \in S : x <= y
LOCAL PosAfterIns(p, k) == IF p = -1 THEN -1 ELSE IF p > k THEN p + 1 ELSE p
LOCAL PosAfterDel(p, k) == IF p = -1 THEN -1 ELSE IF p > k THEN p - 1 ELSE p
LOCAL Index(q, v) == LET S == {j \in 1..Len(q) : q[j] = v} IN IF S = {} THEN 0 ELSE Min(S)
LOCAL RemoveK(s, k) == [s EXCEPT !.seq = DelAt(@, k), !.pos = PosAfterDel(@, k)]

ListDo(s, o) ==
  CASE o.op = "new" -> Ans([s EXCEPT !.cap = o.a[1]], 0)
    [] o.op = "append" ->
         IF Full(s) THEN Ans(s, 0)
         ELSE Ans([s EXCEPT !.seq = Append(@, o.a[1])], 1)
    [] o.op = "insert" ->
         IF Full(s) \/ o.a[1] > Len(s.seq) THEN Ans(s, 0)
         ELSE Ans([s EXCEPT !.seq = InsAt(@, o.a[1], o.a[2]),
                            !.pos = PosAfterIns(@, o.a[1])], 1)
    [] o.op \in {"sorted", "replace"} ->
         IF Full(s) THEN Ans(s, 0)
         ELSE LET v == o.a[1]
                  same == {j \in 1..Len(s.seq) : Key(s.seq[j]) = Key(v)}
                  above == {j \in 1..Len(s.seq) : Key(s.seq[j]) > Key(v)}
                  at == IF above = {} THEN Len(s.seq) ELSE Min(above) - 1
              IN IF o.op = "replace" /\ same # {}
                 THEN LET j == Min(same) IN
                      Ans([s EXCEPT !.seq = [@ EXCEPT ![j] = v], !.pos = -1], 1000 + s.seq[j])
                 ELSE Ans([s EXCEPT !.seq = InsAt(@, at, v), !.pos = -1],
                          IF o.op = "replace" THEN 1000 ELSE 1)
    [] o.op = "get" -> Ans(s, IF o.a[1] < Len(s.seq) THEN s.seq[o.a[1] + 1] ELSE 0)
    [] o.op = "last" -> Ans(s, IF s.seq = <<>> THEN 0 ELSE s.seq[Len(s.seq)])
    [] o.op = "remove" ->
         IF o.a[1] >= Len(s.seq) THEN Ans(s, 0)
         ELSE Ans(RemoveK(s, o.a[1]), s.seq[o.a[1] + 1])
    [] o.op = "removeval" ->
         LET j == Index(s.seq, o.a[1]) IN
         IF j = 0 THEN Ans(s, 0) ELSE Ans(RemoveK(s, j - 1), o.a[1])
    [] o.op = "pop" ->
         IF s.seq = <<>> THEN Ans(s, 0)
         ELSE Ans(RemoveK(s, Len(s.seq) - 1), s.seq[Len(s.seq)])
    [] o.op = "next" ->
         IF s.pos >= Len(s.seq) THEN Ans(s, 0)
         ELSE Ans([s EXCEPT !.pos = @ + 1], s.seq[s.pos + 1])
    [] o.op = "reset" -> Ans([s EXCEPT !.pos = 0], 0)
    [] o.op = "clear" ->       \* every value released exactly once, in order
         [s |-> [s EXCEPT !.seq = <<>>, !.pos = 0], r |-> <<0, 0, 1, s.seq>>]
    [] o.op = "destroy" ->
         [s |-> [seq |-> <<>>, cap |-> -2, pos |-> 0], r |-> <<0, 0, 1, s.seq>>]

ListStep(s, e) == LET d == ListDo(s, e) IN [ok |-> d.r = e.r, s |-> d.s, want |-> d.r]
ListApply(s, o) == ListDo(s, o).s

(* operations offered in each state *)
CONSTANTS Values, Caps, MaxLen
ListOps(s) ==
  IF s.cap = -1 THEN {[op |-> "new", a |-> <<c>>] : c \in Caps}
  ELSE IF s.cap = -2 THEN {[op |-> "new", a |-> <<c>>] : c \in Caps}
  ELSE LET grow == Len(s.seq) < MaxLen IN
       (IF grow THEN {[op |-> "append", a |-> <<v>>] : v \in Values}
                     \cup {[op |-> "insert", a |-> <<k, v>>] : k \in 0..(Len(s.seq) + 1), v \in Values}
        ELSE {})
       \cup (IF grow /\ Ordered(s.seq)
             THEN {[op |-> x, a |-> <<v>>] : x \in {"sorted", "replace"}, v \in Values} ELSE {})
       \cup {[op |-> x, a |-> <<k>>] : x \in {"get", "remove"}, k \in 0..Len(s.seq)}
       \cup {[op |-> "removeval", a |-> <<v>>] : v \in Values}
       \cup {[op |-> x, a |-> <<>>] : x \in {"last", "pop", "reset", "clear", "destroy"}}
       \cup (IF s.pos >= 0 THEN {[op |-> "next", a |-> <<>>]} ELSE {})

(* what the property says of every reachable state *)
ListTypeOK(s) == /\ s.pos \in -1..Len(s.seq)
                 /\ (s.cap > 0 => Len(s.seq) <= s.cap)
=============================================================================
