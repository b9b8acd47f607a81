----------------------------- MODULE SharedGen -----------------------------
EXTENDS Shared, Gen
R(S) == RandomElement(S)
Pick(q) == q[R(1..Len(q))]
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Cat(Tail(q))
\* values are handed in once; those to look for may be anybody's
ListOp(w, i) == LET c == Pick(<<1, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 7, 7, 8, 8, 9, 10, 11, 12, 13>>) IN
  <<c, Pick(<<0, 0, 1, 1, 2, 3>>), IF c = 6 THEN R({1, 2, 3, 4} \cup {10 * x + y : x \in 1..3, y \in 1..3}) ELSE 10 * w + i>>
SortOp(w, i) == <<Pick(<<14, 14, 14, 3, 4, 5, 7, 10, 10, 11, 13>>), R(0..2), 10 * w + R(0..2)>>
MapOp(kind, w, i) == LET c == Pick(IF kind = 3 THEN <<1, 1, 1, 2, 2, 3, 3, 5, 5, 11>> ELSE <<1, 1, 1, 1, 2, 2, 3, 3, 4, 5, 7, 8, 9, 11, 12>>) IN
  <<c, R({1, 2, 3}), IF c \in {8, 9} THEN R({1, 2, 3, 4} \cup {10 * x + y : x \in 1..3, y \in 1..3}) ELSE 10 * w + i>>
\* threads that share an iteration and take away what was delivered or look things up
IterOp(kind, w, i) == LET c == Pick(<<6, 6, 6, 2, 5>>) IN <<c, R({1, 2, 3}), 0>>
Prog(kind, iter, w, n) == Cat([i \in 1..n |-> IF kind < 3 THEN ListOp(w, i) ELSE IF kind = 5 THEN SortOp(w, i) ELSE IF iter THEN IterOp(kind, w, i) ELSE MapOp(kind, w, i)])
Before(kind, iter) ==
  LET n == Pick(IF iter THEN <<1, 2, 3, 4>> ELSE <<0, 0, 1, 1, 2, 3, 4>>) IN
  Cat([i \in 1..n |-> <<IF kind = 5 THEN 14 ELSE 1, IF kind < 3 THEN 0 ELSE i, i>>]) \o (IF kind > 2 /\ iter THEN <<10, 0, 0>> ELSE <<>>)
Run(z) == LET kind == Pick(<<1, 1, 1, 2, 2, 3, 3, 4, 4, 4, 5>>)  iter == kind \in {3, 4} /\ R(1..5) = 1 IN
  <<kind, R(1..1000000), Pick(<<2, 4, 10, 40, 101, 101, 102, 103, 111, 111, 112, 113>>), Before(kind, iter), Prog(kind, iter, 1, Pick(<<1, 2, 2, 3>>)), Prog(kind, iter, 2, Pick(<<1, 2, 2, 3>>)), Prog(kind, iter, 3, Pick(<<0, 1, 1, 2>>))>>
SOps(st) == <<[op |-> "run", a |-> Run(0)]>>
Apply1(st, e) == st
SInit(z) == 0
=============================================================================
