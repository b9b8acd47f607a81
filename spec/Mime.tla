-------------------------------- MODULE Mime --------------------------------
(* Looking up the type of a file by name and content in a table.  An entry     *)
(* with a pattern decides by the name alone when there is one, otherwise by    *)
(* its magic.  Of the entries that match, the lowest priority number ranks     *)
(* highest, the later entry among equals.                                      *)
(* entry: <<type, pattern, kind, value, mask, endian, offset, extent,          *)
(* priority, stealth>>; kind 0 no magic, 1 text, 2 byte, 3 short, 4 long.      *)
EXTENDS Integers, Sequences, FiniteSets, Bitwise, TLC
LOCAL G == INSTANCE Glob
MimeInit(cfg) == [tab |-> <<>>, up |-> FALSE]
GlobMatch(p, t) == p = <<>> \/ G!Match(G!Parse0(p), t, 0)
\* the bytes of a number in the order of the file
Value(en) == IF en[3] > 2 /\ en[6] # 2 THEN [i \in 1..Len(en[4]) |-> en[4][Len(en[4]) + 1 - i]] ELSE en[4]
Mask(en) == IF en[5] = <<>> THEN [i \in 1..Len(en[4]) |-> 255]
            ELSE IF en[3] > 2 /\ en[6] # 2 THEN [i \in 1..Len(en[5]) |-> en[5][Len(en[5]) + 1 - i]] ELSE en[5]
At(c, o, v, m) == o + Len(v) <= Len(c) /\ \A i \in 1..Len(v) : (c[o + i] & m[i]) = v[i]
Magic(en, c) ==
  /\ en[3] > 0
  /\ IF en[3] = 1 THEN \E x \in 0..en[8] : At(c, en[7] + x, en[4], [i \in 1..Len(en[4]) |-> 255])
     ELSE At(c, en[7], Value(en), Mask(en))
Hits(en, has, name, c) == IF en[2] # <<>> /\ has = 1 THEN GlobMatch(en[2], name) ELSE Magic(en, c)
Find(tab, has, name, c) ==
  LET hit == {i \in 1..Len(tab) : Hits(tab[i], has, name, c)}
      best == {i \in hit : \A j \in hit : tab[i][9] < tab[j][9] \/ (tab[i][9] = tab[j][9] /\ i >= j)} IN
  IF hit = {} THEN 0 ELSE CHOOSE i \in best : TRUE
Name(t) == <<116, 47, 48 + t \div 10, 48 + (t % 10)>>       \* t/NN
RECURSIVE Sorted(_)
Sorted(q) == IF q = <<>> THEN <<>>
             ELSE LET m == CHOOSE i \in 1..Len(q) : \A j \in 1..Len(q) : q[i] <= q[j] IN
                  <<q[m]>> \o Sorted(SubSeq(q, 1, m - 1) \o SubSeq(q, m + 1, Len(q)))
Listed(tab, p) == Sorted(LET some == SelectSeq(tab, LAMBDA en : en[10] = 0 /\ GlobMatch(p, Name(en[1]))) IN [i \in 1..Len(some) |-> some[i][1]])
Apply1(st, e) ==
  CASE e.op = "entry" -> [st EXCEPT !.tab = Append(@, e.a)]
    [] e.op = "load" -> [st EXCEPT !.up = TRUE]
    [] OTHER -> st
MimeStep(st, e) ==
  LET a == e.a  nx == Apply1(st, e)
      is(v) == [ok |-> e.r = v, s |-> nx, want |-> v] IN
  CASE e.op = "look" -> is(Find(st.tab, a[1], a[2], a[3]))
    [] e.op = "race" -> is(<<Find(st.tab, a[1], a[2], a[3]), 1>>)
    [] e.op = "list" -> LET l == Listed(st.tab, a[1]) IN is(<<l, l>>)
    \* the extension, in lower case, is the end of a name; the content is a blank
    [] e.op = "tomime" -> LET i == Find(st.tab, 1, <<102, 105, 108, 101, 46>> \o a[1], <<32>>) IN is(IF i = 0 THEN 0 ELSE st.tab[i][1])
    [] OTHER -> is(1)
=============================================================================
