------------------------------- MODULE Entropy -------------------------------
(* Entropy coders: the encoding is opaque, what counts is that restoring gives *)
(* the message back, and that damaged data is refused or still gives it.        *)
EXTENDS Integers, Sequences, TLC
LOCAL INSTANCE SequencesExt
\* messages by description: pattern p, or (p = -1) a pseudo-random one
Msg(n, p, c) ==
  IF p >= 0 THEN FoldLeft(LAMBDA acc, k : Append(acc, (k * p + (k \div 256) * 5 + c) % 256), <<>>, [k \in 1..n |-> k])
  ELSE FoldLeft(LAMBDA acc, k : LET x == (acc.x * 109 + 1021) % 30269 IN [x |-> x, m |-> Append(acc.m, x % 256)],
                [x |-> c, m |-> <<>>], [k \in 1..n |-> k]).m
Methods == {"zip", "bzip", "lzma"}
Levels(m) == IF m = "bzip" THEN 1..9 ELSE 0..9
CONSTANT NObj
None == [m |-> "none", msg |-> <<>>, full |-> FALSE]
EntropyInit(cfg) == [i \in 1..NObj |-> None]
Is(e, s, v) == [ok |-> e.r = v, s |-> s, want |-> v]
EntropyStep(s, e) ==
  LET a == e.a  r == e.r IN
  CASE e.op = "rt" ->      \* method, level, n, p, c, slack: encode, restore into n + slack
         Is(e, s, <<1, 1, Msg(a[3], a[4], a[5])>>)
    [] e.op = "rtl" ->     \* the same for long messages: status, status, length, bytes that differ
         Is(e, s, <<1, 1, a[3], 0>>)
    [] e.op = "bad" ->     \* method, level, n, p, c, position, mask, cut: damage before restoring
         LET m == Msg(a[3], a[4], a[5]) IN
         [ok |-> r = <<0, <<>>>> \/ r = <<1, m>>, s |-> s, want |-> <<"0, or 1 with", m>>]
    [] e.op = "new" -> Is(e, [s EXCEPT ![a[1]] = [m |-> a[2], msg |-> <<>>, full |-> FALSE]], 0)
    [] e.op = "inc" -> Is(e, [s EXCEPT ![a[1]] = [@ EXCEPT !.msg = Msg(a[2], a[3], a[4]), !.full = TRUE]], 1)
    [] e.op = "res" -> Is(e, s, <<1, s[a[1]].msg>>)     \* what object a[1] encoded last, restored by object a[1] or a[3]
    [] e.op = "del" -> Is(e, [s EXCEPT ![a[1]] = None], 0)
EntropyApply(s, o) ==
  LET a == o.a IN
  CASE o.op = "new" -> [s EXCEPT ![a[1]] = [m |-> a[2], msg |-> <<>>, full |-> FALSE]]
    [] o.op = "inc" -> [s EXCEPT ![a[1]].full = TRUE]
    [] o.op = "res" -> s
    [] o.op = "del" -> [s EXCEPT ![a[1]] = None]
EntropyOps(s) ==
  LET i == RandomElement(1..NObj)
      b == s[i]
      mates == {j \in 1..NObj : s[j].m = b.m}
      m == RandomElement(Methods)
  IN IF b.m = "none" THEN {[op |-> "new", a |-> <<i, m, RandomElement(1..9)>>]}
     ELSE {[op |-> "inc", a |-> <<i, RandomElement({0, 1, 2, 5, 50, 100, 500}), RandomElement({-1, 0, 1, 7}), RandomElement(0..200)>>]}
          \cup (IF b.full THEN {[op |-> "res", a |-> <<i, RandomElement({0, 1, 100}), RandomElement(mates)>>],
                                [op |-> "res", a |-> <<i, 0, i>>]} ELSE {})
          \cup (IF RandomElement(1..10) = 1 THEN {[op |-> "del", a |-> <<i>>]} ELSE {})
=============================================================================
