------------------------------- MODULE Shared -------------------------------
(* A list, hash map or tree shared between threads.  A behaviour is one run:   *)
(* the programs of the threads, the schedule, and the history of calls and     *)
(* returns it led to; the history must be one of calls taking effect one at a  *)
(* time between call and return.                                               *)
(* list: [seq, cap, pos, rel]; map: [f, rel, left]                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Sub(q, i, j) == IF i > j THEN <<>> ELSE SubSeq(q, i, j)
InsAt(q, k, v) == Sub(q, 1, k) \o <<v>> \o Sub(q, k + 1, Len(q))
DelAt(q, k) == Sub(q, 1, k) \o Sub(q, k + 2, Len(q))
Full(m) == m.cap > 0 /\ Len(m.seq) = m.cap
Ins(m, k, v) == [m EXCEPT !.seq = InsAt(@, k, v), !.pos = IF @ > k THEN @ + 1 ELSE @]
Del(m, k) == [m EXCEPT !.seq = DelAt(@, k), !.pos = IF @ > k THEN @ - 1 ELSE @]
Index(q, v) == LET S == {j \in 1..Len(q) : q[j] = v} IN IF S = {} THEN 0 ELSE CHOOSE j \in S : \A i \in S : j <= i
ListEffect(m, o) ==
  CASE o[1] = 1 -> IF Full(m) THEN <<<<0>>, m>> ELSE <<<<1>>, Ins(m, Len(m.seq), o[3])>>
    [] o[1] = 2 -> IF Full(m) \/ o[2] > Len(m.seq) THEN <<<<0>>, m>> ELSE <<<<1>>, Ins(m, o[2], o[3])>>
    [] o[1] = 3 -> <<<<IF o[2] < Len(m.seq) THEN m.seq[o[2] + 1] ELSE 0>>, m>>
    [] o[1] = 4 -> <<<<IF m.seq = <<>> THEN 0 ELSE m.seq[Len(m.seq)]>>, m>>
    [] o[1] = 5 -> IF o[2] >= Len(m.seq) THEN <<<<0>>, m>> ELSE <<<<m.seq[o[2] + 1]>>, Del(m, o[2])>>
    [] o[1] = 6 -> LET j == Index(m.seq, o[3]) IN IF j = 0 THEN <<<<0>>, m>> ELSE <<<<o[3]>>, Del(m, j - 1)>>
    [] o[1] = 7 -> IF m.seq = <<>> THEN <<<<0>>, m>> ELSE <<<<m.seq[Len(m.seq)]>>, Del(m, Len(m.seq) - 1)>>
    [] o[1] = 8 -> IF m.pos >= Len(m.seq) THEN <<<<0>>, m>> ELSE <<<<m.seq[m.pos + 1]>>, [m EXCEPT !.pos = @ + 1]>>
    [] o[1] = 9 -> <<<<1>>, [m EXCEPT !.pos = 0]>>
    [] o[1] = 10 -> <<<<Len(m.seq)>>, m>>
    [] o[1] = 11 -> <<m.seq, m>>
    [] o[1] = 12 -> <<<<1>>, [m EXCEPT !.seq = <<>>, !.pos = 0, !.rel = @ \cup {m.seq[i] : i \in 1..Len(m.seq)}]>>
    [] o[1] = 14 -> LET same == {j \in 1..Len(m.seq) : m.seq[j] % 10 = o[3] % 10}
                        above == {j \in 1..Len(m.seq) : m.seq[j] % 10 > o[3] % 10}
                        Least(S) == CHOOSE x \in S : \A y \in S : x <= y IN
                    IF same # {} THEN <<<<1, m.seq[Least(same)]>>, [m EXCEPT !.seq[Least(same)] = o[3]]>>
                    ELSE <<<<1, 0>>, Ins(m, IF above = {} THEN Len(m.seq) ELSE Least(above) - 1, o[3])>>
    [] o[1] = 13 -> <<<<IF m.seq = <<>> THEN 1 ELSE 0>>, m>>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Cut(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Drop(m, k) == [m EXCEPT !.f = Cut(@, k), !.left = @ \ {k}]
KeyOf(f, v) == LET S == {k \in DOMAIN f : f[k] = v} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : TRUE
RECURSIVE Asc(_, _)
Asc(f, S) == IF S = {} THEN <<>> ELSE LET k == CHOOSE x \in S : \A y \in S : x <= y IN <<k, f[k]>> \o Asc(f, S \ {k})
MapEffects(m, o) ==
  LET k == o[2] IN
  CASE o[1] = 1 -> {<<<<1>>, [m EXCEPT !.f = Put(@, k, o[3]), !.rel = IF k \in DOMAIN m.f THEN @ \cup {m.f[k]} ELSE @]>>}
    [] o[1] = 2 -> {<<<<IF k \in DOMAIN m.f THEN m.f[k] ELSE 0>>, m>>}
    [] o[1] = 3 -> {IF k \in DOMAIN m.f THEN <<<<m.f[k]>>, Drop(m, k)>> ELSE <<<<0>>, m>>}
    [] o[1] = 4 -> {IF k \in DOMAIN m.f THEN <<<<1>>, [Drop(m, k) EXCEPT !.rel = @ \cup {m.f[k]}]>> ELSE <<<<0>>, m>>}
    [] o[1] = 5 -> {<<<<Cardinality(DOMAIN m.f)>>, m>>}
    [] o[1] = 6 -> IF m.left = {} THEN {<<<<0>>, m>>} ELSE {<<<<x>>, [m EXCEPT !.left = @ \ {x}]>> : x \in m.left}
    [] o[1] = 7 -> {<<Asc(m.f, DOMAIN m.f), m>>}
    [] o[1] = 8 -> LET x == KeyOf(m.f, o[3]) IN {IF x = 0 THEN <<<<0>>, m>> ELSE <<<<x>>, [Drop(m, x) EXCEPT !.rel = @ \cup {o[3]}]>>}
    [] o[1] = 9 -> LET x == KeyOf(m.f, o[3]) IN {IF x = 0 THEN <<<<0>>, m>> ELSE <<<<1>>, [Drop(m, x) EXCEPT !.rel = @ \cup {o[3]}]>>}
    [] o[1] = 10 -> {<<<<1>>, [m EXCEPT !.left = DOMAIN m.f]>>}
    [] o[1] = 11 -> {<<<<IF DOMAIN m.f = {} THEN 1 ELSE 0>>, m>>}
    [] o[1] = 12 -> {<<<<1>>, [m EXCEPT !.f = [x \in {} |-> 0], !.left = {}, !.rel = @ \cup {m.f[x] : x \in DOMAIN m.f}]>>}
IsList(m) == "seq" \in DOMAIN m
Is(r) == <<"is", r>>
Effects1(m, o, lax) == {<<Is(x[1]), x[2]>> : x \in IF IsList(m) THEN {ListEffect(m, o)} ELSE MapEffects(m, o)}
L == INSTANCE Linear WITH Effects <- Effects1
\* programs come as triples one after the other
Nth(q, i) == <<q[3 * i - 2], q[3 * i - 1], q[3 * i]>>
Fresh(kind) == IF kind \in {1, 2, 5} THEN [seq |-> <<>>, cap |-> IF kind = 2 THEN 3 ELSE 0, pos |-> 0, rel |-> {}]
               ELSE [f |-> [x \in {} |-> 0], rel |-> {}, left |-> {}]
RECURSIVE Fill(_, _, _)
Fill(m, q, i) == IF 3 * i > Len(q) THEN m ELSE Fill((CHOOSE x \in Effects1(m, Nth(q, i), FALSE) : TRUE)[2], q, i + 1)
RECURSIVE Follow(_, _, _, _)
Follow(s, progs, h, i) ==
  IF i > Len(h) \/ s.confs = {} THEN <<s, i>>
  ELSE LET e == h[i] IN
       Follow(IF e[1] = 0 THEN L!Call(s, e[2], Nth(progs[e[2]], e[3]), FALSE) ELSE L!Return(s, e[2], Is(e[3])), progs, h, i + 1)
Contents(m) == IF IsList(m) THEN m.seq ELSE Asc(m.f, DOMAIN m.f)
Count(m) == IF IsList(m) THEN Len(m.seq) ELSE Cardinality(DOMAIN m.f)
SharedInit(cfg) == 0
\* a = <<kind, seed, odds, before, prog 1, prog 2, prog 3>>
\* r = <<history, contents, count, values released>>
SharedStep(s, e) ==
  LET a == e.a  m0 == Fill(Fresh(a[1]), a[4], 1)
      progs == <<a[5], a[6], a[7]>>
      z == Follow(L!LInit(m0, 3), progs, e.r[1], 1)
      rel == {e.r[4][i] : i \in 1..Len(e.r[4])}
      calls == Len(a[5]) + Len(a[6]) + Len(a[7])
      good == {c \in z[1].confs : Contents(c.m) = e.r[2] /\ Count(c.m) = e.r[3] /\ c.m.rel = rel} IN
  [ok |-> 3 * Len(e.r[1]) = 2 * calls /\ Len(e.r[4]) = Cardinality(rel) /\ good # {}, s |-> s,
   want |-> IF z[2] <= Len(e.r[1]) THEN <<"no order explains return", z[2] - 1>> ELSE {<<Contents(c.m), Count(c.m), c.m.rel>> : c \in z[1].confs}]
=============================================================================
