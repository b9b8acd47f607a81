-------------------------------- MODULE Path --------------------------------
(* Decomposition of path names.  A path is  [filesystem:]path[subnode]  where  *)
(* the filesystem counts only if it names an existing directory (and the whole *)
(* does not name a file).  Cases use the alphabet  a . / [ ] :  in an empty    *)
(* working directory, so what exists is decided by the text: sequences of      *)
(* ".", ".." and "/" exist, whatever contains a letter does not.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
DOT == 46  SL == 47  LB == 91  RB == 93  CO == 58  QM == 63
Last(S) == CHOOSE x \in S : \A y \in S : y <= x
First(S) == CHOOSE x \in S : \A y \in S : x <= y
Where(q, b) == {j \in 1..Len(q) : q[j] = b}
RECURSIVE Split(_)
Split(q) == LET W == Where(q, SL) IN
            IF W = {} THEN <<q>> ELSE <<SubSeq(q, 1, First(W) - 1)>> \o Split(SubSeq(q, First(W) + 1, Len(q)))
Exists(q) == q # <<>> /\ LET p == Split(q) IN \A k \in 1..Len(p) : p[k] \in {<<>>, <<DOT>>, <<DOT, DOT>>}

\* the three parts
FsLen(q) == LET W == Where(q, CO) IN
            IF W = {} \/ Exists(q) THEN 0
            ELSE IF First(W) = 1 \/ Exists(SubSeq(q, 1, First(W) - 1)) THEN First(W) ELSE 0
Filesystem(q) == IF FsLen(q) = 0 THEN <<>> ELSE SubSeq(q, 1, FsLen(q) - 1)
Rest(q) == SubSeq(q, FsLen(q) + 1, Len(q))
SubAt(r) == IF r # <<>> /\ r[Len(r)] = RB /\ Where(r, LB) # {} THEN Last(Where(r, LB)) ELSE 0
Subnode(q) == LET r == Rest(q) k == SubAt(r) IN IF k = 0 THEN <<>> ELSE SubSeq(r, k + 1, Len(r) - 1)
Plain(q) == LET r == Rest(q) k == SubAt(r) IN IF k = 0 THEN r ELSE SubSeq(r, 1, k - 1)

\* position of the last separator, 0 if there is none
Sep(p) == IF Where(p, SL) = {} THEN 0 ELSE Last(Where(p, SL))
HeadP(q) == LET p == Plain(q) IN IF Sep(p) = 0 THEN <<>> ELSE SubSeq(p, 1, Sep(p) - 1)
TailOf(p) == SubSeq(p, Sep(p) + 1, Len(p))
TailP(q) == TailOf(Plain(q))
\* the dot that starts the extension; a dot at the start of a name does not
DotAt(t) == LET D == {j \in Where(t, DOT) : j > 1} IN IF D = {} THEN 0 ELSE Last(D)
Root(q) == LET p == Plain(q) t == TailP(q) IN IF DotAt(t) = 0 THEN p ELSE SubSeq(p, 1, Sep(p) + DotAt(t) - 1)
Base(q) == LET t == TailP(q) IN IF DotAt(t) = 0 THEN t ELSE SubSeq(t, 1, DotAt(t) - 1)
Extension(q) == LET t == TailP(q)
                    e == IF DotAt(t) = 0 THEN <<>> ELSE SubSeq(t, DotAt(t) + 1, Len(t))
                IN IF Where(e, QM) = {} THEN e ELSE SubSeq(e, 1, First(Where(e, QM)) - 1)
RECURSIVE Chop(_, _)
Chop(q, n) == IF n = 0 THEN q ELSE Chop(HeadP(q), n - 1)

PathDo(o) ==
  LET q == o.a[1] IN
  CASE o.op = "parts" -> <<Filesystem(q), Root(q), HeadP(q), TailP(q), Base(q), Extension(q), Subnode(q)>>
    [] o.op = "list" -> Split(q)
    [] o.op = "chop" -> [n \in 1..4 |-> Chop(q, n - 1)]
    [] o.op = "append" -> IF q = <<>> \/ o.a[2] = <<>> THEN q ELSE Root(q) \o <<DOT>> \o o.a[2]
PathInit(cfg) == 0
PathStep(s, e) == LET w == PathDo(e) IN [ok |-> e.r = w, s |-> s, want |-> w]

(* recomposition *)
PathLaw(o) ==
  LET q == o.a[1] p == Plain(q) IN
  o.op = "parts" =>
    /\ (Sep(p) > 0 => HeadP(q) \o <<SL>> \o TailP(q) = p)
    /\ (Sep(p) = 0 => TailP(q) = p)
    /\ (Where(q, QM) = {} => IF DotAt(TailP(q)) # 0 THEN Root(q) \o <<DOT>> \o Extension(q) = p ELSE Root(q) = p)
    /\ Where(TailP(q), SL) = {}
=============================================================================
