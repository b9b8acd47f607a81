------------------------------ MODULE MimeGen ------------------------------
EXTENDS Mime, Gen
R(S) == RandomElement(S)
O(op, a) == [op |-> op, a |-> a]
\* *.ab  *.a?  r*  *  x  *.{ab,c}
Pats == {<<42, 46, 97, 98>>, <<42, 46, 97, 63>>, <<114, 42>>, <<42>>, <<120>>, <<42, 46, 123, 97, 98, 44, 99, 125>>}
Names == {<<120>>, <<120, 46, 97, 98>>, <<114, 46, 97, 99>>, <<114, 46, 99>>, <<88, 46, 65, 66>>, <<120, 46, 97, 98, 99>>, <<114>>, <<122>>, <<102, 105, 108, 101, 46, 97, 98>>}
Al == {0, 1, 65, 66, 200, 255}
Bytes(n) == [i \in 1..n |-> R(Al)]
Entry(z) ==
  LET k == R({0, 1, 1, 1, 2, 3, 3, 4})  n == IF k = 0 THEN 0 ELSE IF k = 1 THEN R({1, 1, 2, 3}) ELSE IF k = 2 THEN 1 ELSE IF k = 3 THEN 2 ELSE 4
      m == IF k < 2 \/ R(1..2) = 1 THEN <<>> ELSE [i \in 1..n |-> R({255, 255, 128, 15, 1, 254})]
      v == Bytes(n)  w == IF m = <<>> THEN v ELSE [i \in 1..n |-> v[i] & m[i]]
  IN <<R(1..12), IF k = 0 \/ R(1..3) = 1 THEN R(Pats) ELSE <<>>, k, w,
       \* no mask at all is a mask of zero
       IF m # <<>> /\ \A i \in 1..n : m[i] = 0 THEN <<>> ELSE m, IF k > 2 THEN R(0..2) ELSE 0, IF k = 0 THEN 0 ELSE R({0, 0, 0, 1, 2, 4}), IF k = 1 THEN R({0, 0, 1, 3}) ELSE 0, R({0, 50, 50, 50, 80}), R({0, 0, 0, 1})>>
\* content: anything, or made to fit an entry
Content(st) ==
  LET en == R({st.tab[i] : i \in 1..Len(st.tab)})  c == Bytes(R(1..7)) IN
  IF en[3] = 0 \/ R(1..3) = 1 THEN c
  ELSE Bytes(en[7] + R(0..en[8])) \o Value(en) \o Bytes(R({0, 0, 0, 1, 3}))
Prob(st) == <<R({0, 1, 1}), R(Names), Content(st)>>
SOps(st) ==
  IF ~st.up
  THEN <<O("entry", Entry(0))>> \o (IF Len(st.tab) > 3 THEN <<O("load", <<>>)>> ELSE <<O("entry", Entry(0))>>)
  ELSE <<O("look", Prob(st)), O("look", Prob(st)), O("look", Prob(st)), O("look", Prob(st)), O("look", Prob(st)),
         O("list", <<R({<<42>>, <<116, 47, 49, 42>>, <<42, 50>>, <<116, 47, 48, 51>>})>>), O("tomime", <<R({<<97, 98>>, <<99>>, <<97, 99>>, <<122>>})>>)>>
       \o (IF R(1..4) = 1 THEN <<O("race", Prob(st))>> ELSE <<>>)
SInit(z) == MimeInit(0)
=============================================================================
