---------------------------- MODULE TempFileGen ----------------------------
EXTENDS TempFile, Gen
R(S) == RandomElement(S)
O(op, a) == [op |-> op, a |-> a]
Opt(c, q) == IF c THEN q ELSE <<>>
SOps(st) ==
  LET free == In(st, {"none"})  held == In(st, {"held"})  known == In(st, {"held", "gone", "kept"}) IN
  IF ~st.up THEN <<O("look", <<>>)>> ELSE
  Opt(free # {}, <<O("file", <<R(free), R(0..2)>>), O("file", <<R(free), R(0..2)>>), O("name", <<R(free), 0>>)>>)
  \o Opt(known # {}, <<O("give", <<R(known), R(0..1)>>), O("give", <<R(known), R(0..1)>>)>>)
  \o Opt(held # {}, <<O("unlink", <<R(held)>>)>>)
  \o <<O("env", <<R(0..1)>>)>>
  \o Opt(R(1..3) = 1, <<O("flimit", <<R({-1, -1, 0, 1, 2, 4, 6})>>)>>)
  \o Opt(R(1..5) = 1, <<O("other", <<R(0..2)>>)>>)
  \o Opt(st.lim = -1 /\ R(1..4) = 1, <<O("threads", <<R({2, 4, 8}), R({1, 5, 20})>>), O("forks", <<R({2, 4}), R({1, 5, 10})>>)>>)
  \o Opt(Used(st) = 0 /\ R(1..2) = 1, <<O("child", <<R(0..3), R({0, 1, 2, 15}), R({0, 1})>>)>>)
  \o Opt(R(1..8) = 1, <<O("stop", <<>>)>>)
SInit(z) == TempFileInit(0)
=============================================================================
