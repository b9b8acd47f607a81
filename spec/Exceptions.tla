----------------------------- MODULE Exceptions -----------------------------
(* Error reports: what is recorded, merged, cleared and delivered to whom.     *)
(* A report is a sequence of entries <<severity, reason, description>>;        *)
(* texts are numbers: 0 is none, n > 0 the n-th text of the driver's table and *)
(* 1000 + n a formatted message of n letters followed by its place of origin.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Reports == 1..3
ExceptionsInit(cfg) == [rep |-> [x \in Reports |-> <<>>], hand |-> <<1, 1, 1>>]
Kind(sev) == IF sev < 300 THEN 0 ELSE IF sev < 400 THEN 1 ELSE IF sev < 700 THEN 2 ELSE 3
Put(q, en) == IF q # <<>> /\ q[Len(q)] = en THEN q ELSE Append(q, en)
RECURSIVE PutAll(_, _)
PutAll(q, z) == IF z = <<>> THEN q ELSE PutAll(Put(q, z[1]), SubSeq(z, 2, Len(z)))
\* who is told what: the handler in place for the kind of each entry, if any
RECURSIVE Told(_, _)
Told(q, hand) ==
  IF q = <<>> THEN <<>>
  ELSE (IF Kind(q[1][1]) = 0 \/ hand[Kind(q[1][1])] = 0 THEN <<>>
        ELSE <<<<Kind(q[1][1]), hand[Kind(q[1][1])]>> \o q[1]>>) \o Told(SubSeq(q, 2, Len(q)), hand)
\* what the handlers in place at the start do: each entry with a reason is a
\* line, the first fatal one ends the process
RECURSIVE Lines(_)
Lines(q) ==
  IF q = <<>> THEN [lines |-> <<>>, end |-> 0]
  ELSE LET k == Kind(q[1][1])  rest == Lines(SubSeq(q, 2, Len(q))) IN
       IF k = 0 \/ q[1][2] = 0 THEN rest
       ELSE IF k = 3 THEN [lines |-> <<<<q[1][2], q[1][3]>>>>, end |-> q[1][1] % 256]
       ELSE [lines |-> <<<<q[1][2], q[1][3]>>>> \o rest.lines, end |-> rest.end]
Apply1(st, e) ==
  LET a == e.a IN
  CASE e.op = "throw" -> [st EXCEPT !.rep[a[1]] = Put(@, <<a[2], a[3], a[4]>>)]
    [] e.op = "throwf" -> [st EXCEPT !.rep[a[1]] = Put(@, <<a[2], 1000 + a[3], 0>>)]
    [] e.op \in {"catch", "clear", "renew"} -> [st EXCEPT !.rep[a[1]] = <<>>]
    [] e.op = "inherit" -> [st EXCEPT !.rep[a[1]] = PutAll(@, st.rep[a[2]])]
    [] e.op = "handler" -> [st EXCEPT !.hand[a[1]] = a[2]]
    [] OTHER -> st
ExceptionsStep(st, e) ==
  LET a == e.a  nx == Apply1(st, e)
      q == st.rep[a[1]]
      is(v) == [ok |-> e.r = v, s |-> nx, want |-> v]
  IN
  CASE e.op = "catch" -> is(Told(q, st.hand))
    [] e.op = "handler" -> is(st.hand[a[1]])
    [] e.op = "severity" -> is(IF q = <<>> THEN 0 ELSE q[Len(q)][1])
    [] e.op = "default" -> LET l == Lines(q) IN is(<<l.lines, l.end>>)
    [] e.op = "threads" -> is(<<a[2] * a[3], 1>>)
    [] OTHER -> is(1)
=============================================================================
