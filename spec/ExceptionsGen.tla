--------------------------- MODULE ExceptionsGen ---------------------------
EXTENDS Exceptions, Gen
R(S) == RandomElement(S)
O(op, a) == [op |-> op, a |-> a]
Opt(c, q) == IF c THEN q ELSE <<>>
Sevs == {0, 1, 299, 300, 305, 310, 399, 400, 405, 410, 435, 499, 550, 699, 700, 705, 710, 790}
SOps(st) ==
  LET x == R(Reports)  y == R(Reports \ {x})  q == st.rep[x]
      same == IF q = <<>> THEN <<300, 1, 0>> ELSE q[Len(q)]
  IN <<O("throw", <<x, R(Sevs), R(0..5), R(0..5)>>), O("throw", <<x, R({305, 405, 705}), R(1..2), R(0..1)>>), O("throw", <<x, R(Sevs), R(0..5), R(0..5)>>)>>
     \o Opt(same[2] < 1000, <<O("throw", <<x>> \o same)>>)
     \o Opt(q # <<>> /\ same[2] < 1000, <<O("throw", <<x, same[1], same[2], R(0..5)>>), O("throw", <<x, same[1], R(0..5), same[3]>>), O("throw", <<x, R({300, 400, 700}), same[2], same[3]>>)>>)
     \o <<O("throwf", <<x, R(Sevs), R({0, 1, 5, 5, 4000, 4070})>>)>>
     \o Opt(Len(q) + Len(st.rep[y]) < 30, <<O("inherit", <<x, y>>), O("inherit", <<x, y>>)>>)
     \o <<O("catch", <<x>>), O("catch", <<x>>), O("handler", <<R(1..3), R(0..2)>>)>>
     \o <<O("severity", <<x>>)>>
     \o Opt(R(1..3) = 1, <<O("clear", <<x>>), O("renew", <<x>>), O("default", <<x>>)>>)
     \o Opt(q = <<>> /\ R(1..4) = 1, <<O("threads", <<x, R({2, 4}), R({5, 50})>>)>>)
SInit(z) == ExceptionsInit(0)
=============================================================================
