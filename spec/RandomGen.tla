----------------------------- MODULE RandomGen -----------------------------
EXTENDS Random, Gen
R(S) == RandomElement(S)
O(op, a) == [op |-> op, a |-> a]
Opt(c, q) == IF c THEN q ELSE <<>>
Lens == {0, 1, 1, 2, 3, 7, 8, 8, 9, 15, 16, 17, 19, 20, 21, 27, 28, 31, 32, 33, 47, 48, 63, 64, 65, 96, 100, 130}
SOps(st) ==
  LET off == {g \in Gens : ~st.gen[g].on}  on == Gens \ off
      own == {g \in on : st.ids[st.gen[g].id][1] = 0}  g == IF on = {} THEN 1 ELSE R(on)
      \* a generator seeded from its own stream starts further along it
      src == IF st.key = -1 THEN {0, 1, 2} ELSE {0, 3}
  IN Opt(off # {}, <<O("new", <<R(off), R(1..7), R(src)>>), O("new", <<R(off), R({2, 4}), R(src)>>)>>)
     \o Opt(on # {}, <<O("key", <<g, R(Lens)>>), O("key", <<R(on), R(Lens)>>), O("key", <<g, R(Lens)>>), O("key", <<R(on), R(Lens)>>), O("key", <<g, R({5, 11, 13})>>),
                       O("value", <<R(on)>>), O("pseudo", <<R(on)>>), O("pseudo", <<R(on)>>)>>
            \o Opt(R(1..3) = 1, <<O("destroy", <<R(on)>>), O("getsecret", <<R(on)>>), O("vary", <<R(on), R({1, 8, 33})>>)>>))
     \o Opt(own # {} /\ R(1..3) = 1, <<O("threads", <<R(own), R({2, 4}), R({3, 25}), R({8, 8, 40})>>)>>)
     \o Opt(R(1..6) = 1, <<O("procs", <<R(1..3)>>), O("pchild", <<R(0..2)>>)>>)
     \o Opt(R(1..4) = 1, <<O("secret", <<R({-1, 0, 1, 2})>>)>>)
SInit(z) == RandomInit(0)
=============================================================================
