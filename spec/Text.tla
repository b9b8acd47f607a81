-------------------------------- MODULE Text --------------------------------
(* Operations on zero-terminated texts: what each must answer.  Texts are     *)
(* sequences of bytes 1..255.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
MinI(a, b) == IF a < b THEN a ELSE b
Prefix(q, n) == SubSeq(q, 1, MinI(n, Len(q)))
Space == {9, 10, 11, 12, 13, 32}
Quote == {34, 39}
Lower(b) == IF b \in 65..90 THEN b + 32 ELSE b
RECURSIVE DropLead(_), DropTrail(_)
DropLead(q) == IF q # <<>> /\ q[1] \in Space THEN DropLead(Tail(q)) ELSE q
DropTrail(q) == IF q # <<>> /\ q[Len(q)] \in Space THEN DropTrail(SubSeq(q, 1, Len(q) - 1)) ELSE q

\* copying and appending into a buffer of n bytes: the longest prefix that
\* fits together with the terminator
Copy(src, n) == LET t == Prefix(src, n - 1) IN <<t, Len(t)>>
Cat(dst, src, n) == <<Prefix(dst \o src, n - 1), Len(dst) + Len(src)>>

\* occurrences are replaced from left to right, the replacement is not searched
StartsWith(q, p) == Len(q) >= Len(p) /\ SubSeq(q, 1, Len(p)) = p
RECURSIVE Subst(_, _, _)
Subst(q, find, put) ==
  IF q = <<>> THEN <<>>
  ELSE IF StartsWith(q, find) THEN put \o Subst(SubSeq(q, Len(find) + 1, Len(q)), find, put)
  ELSE <<q[1]>> \o Subst(Tail(q), find, put)
Occurs(q, find) == \E j \in 0..Len(q) : StartsWith(SubSeq(q, j + 1, Len(q)), find)

\* white space, then one quote, is taken off either end; line ends become blanks
Strip(q) ==
  LET a == DropLead(q)
      b == IF a # <<>> /\ a[1] \in Quote THEN Tail(a) ELSE a
      c == DropTrail(b)
      d == IF c # <<>> /\ c[Len(c)] \in Quote THEN SubSeq(c, 1, Len(c) - 1) ELSE c
  IN [j \in 1..Len(d) |-> IF d[j] = 10 THEN 32 ELSE d[j]]

\* arguments are separated by white space; one that starts with a quote runs to
\* the matching quote (or the end), and what is glued to that is left out
FirstOf(q, S) == LET D == {j \in 1..Len(q) : q[j] \in S} IN
                 IF D = {} THEN Len(q) + 1 ELSE CHOOSE x \in D : \A y \in D : x <= y
RECURSIVE Args(_)
Args(q0) ==
  LET q == DropLead(q0) IN
  IF q = <<>> THEN <<>>
  ELSE IF q[1] \in Quote
       THEN LET r == Tail(q)
                e == FirstOf(r, {q[1]})
                rest == SubSeq(r, e, Len(r))
            IN <<SubSeq(r, 1, e - 1)>> \o Args(SubSeq(rest, FirstOf(rest, Space), Len(rest)))
       ELSE LET e == FirstOf(q, Space) IN <<SubSeq(q, 1, e - 1)>> \o Args(SubSeq(q, e, Len(q)))

\* comparison without regard to case
CmpSeq(p, q) ==
  LET m == MinI(Len(p), Len(q))
      D == {j \in 1..m : Lower(p[j]) # Lower(q[j])}
  IN IF D = {} THEN (IF Len(p) = Len(q) THEN 0 ELSE IF Len(p) < Len(q) THEN -1 ELSE 1)
     ELSE LET j == CHOOSE x \in D : \A y \in D : x <= y IN IF Lower(p[j]) < Lower(q[j]) THEN -1 ELSE 1
Truth == {<<116, 114, 117, 101>>, <<111, 110>>, <<121, 101, 115>>, <<49>>}  \* true on yes 1
Fold(q) == [j \in 1..Len(q) |-> Lower(q[j])]

TextDo(o) ==
  CASE o.op = "copy" -> Copy(o.a[1], o.a[2])
    [] o.op = "cat" -> Cat(o.a[1], o.a[2], o.a[3])
    [] o.op = "append" -> o.a[1] \o o.a[2]
    [] o.op = "dup" -> <<o.a[1], o.a[1], o.a[1]>>
    [] o.op = "subst" -> <<Subst(o.a[1], o.a[2], o.a[3]), IF Occurs(o.a[1], o.a[2]) THEN 1 ELSE 0>>
    [] o.op = "strip" -> Strip(o.a[1])
    [] o.op = "args" -> Args(o.a[1])
    [] o.op = "cmp" -> CmpSeq(o.a[1], o.a[2])
    [] o.op = "ncmp" -> CmpSeq(Prefix(o.a[1], o.a[3]), Prefix(o.a[2], o.a[3]))
    [] o.op = "lower" -> Fold(o.a[1])
    [] o.op = "truth" -> IF Fold(o.a[1]) \in Truth THEN 1 ELSE 0
TextStep(s, e) == LET w == TextDo(e) IN [ok |-> e.r = w, s |-> s, want |-> w]
TextInit(cfg) == 0

(* laws the definitions themselves must obey; checked by TLC on all cases *)
TextLaw(o) ==
  LET w == TextDo(o) IN
  CASE o.op = "copy" -> Len(w[1]) < o.a[2] /\ w[1] = Prefix(o.a[1], w[2])
    [] o.op = "cat" -> Len(w[1]) < o.a[3]
    [] o.op = "subst" -> (w[2] = 0) => w[1] = o.a[1]
    [] o.op = "strip" -> w = <<>> \/ Len(w) <= Len(o.a[1])
    [] o.op = "cmp" -> w = -CmpSeq(o.a[2], o.a[1])
    [] OTHER -> TRUE
=============================================================================
