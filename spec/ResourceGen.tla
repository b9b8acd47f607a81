---------------------------- MODULE ResourceGen ----------------------------
EXTENDS Resource, Gen
R(S) == RandomElement(S)
O(op, a) == [op |-> op, a |-> a]
Opt(c, q) == IF c THEN q ELSE <<>>
Big == 4194304   \* 2^62
Lims == {<<0, 0>>, <<0, 1>>, <<0, 2>>, <<0, 100>>, <<0, 4096>>, <<0, 100000>>, <<0, 1000000>>, <<1, 0>>, <<Big, 7>>, <<2 * Big, 5>>, <<3 * Big, 0>>, None, None}
Sizes == {<<0, 0>>, <<0, 1>>, <<0, 1>>, <<0, 49>>, <<0, 50>>, <<0, 51>>, <<0, 99>>, <<0, 100>>, <<0, 4095>>, <<0, 4096>>, <<0, 99999>>, <<0, 100000>>, <<1, 0>>, <<Big, 0>>, <<Big, 6>>, <<2 * Big - 1, 9>>, <<2 * Big, 0>>, <<4 * Big - 1, 1000>>}
SOps(st) ==
  LET k == R(1..4)  x == R(Sizes)  near == IF st.lim[k] = None \/ Less(st.lim[k], st.use[k]) THEN <<0, 5>> ELSE LET d == Minus(st.lim[k], st.use[k]) IN <<d[1], d[2] + R({-1, 0, 1})>>
      h1 == R(1..4)  hd == IF st.held = <<>> THEN <<1, <<0, 0>>>> ELSE R({st.held[i] : i \in 1..Len(st.held)})
      l == R(Lims)
  IN <<O("limit", <<k, l[1], l[2]>>), O("limit", <<R({1, 2}), 0, R({1, 1000, 5000})>>)>>
     \o <<O("acquire", <<k, x[1], x[2]>>), O("acquire", <<k, x[1], x[2]>>)>>
     \o Opt(near[2] >= 0, <<O("acquire", <<k, near[1], near[2]>>), O("acquire", <<k, near[1], near[2]>>)>>)
     \o Opt(st.held # <<>>, <<O("release", <<hd[1], hd[2][1], hd[2][2]>>), O("release", <<hd[1], hd[2][1], hd[2][2]>>), O("release", <<hd[1], hd[2][1], hd[2][2]>>)>>)
     \o Opt(st.vm[h1] = <<>>, <<O("vmem", <<h1, R({1, 1, 2, 3, 64, 100, 1000}), R({1, 1, 7, 64, 100, 1000})>>), O("vmem", <<h1, R({0, 1, 100}), R({1, 5000, 200000})>>)>> \o Opt(R(1..3) = 1, <<O("vhuge", <<h1, R({1, 2, 3})>>)>>))
     \o Opt(st.vm[h1] # <<>>, <<O("vfree", <<h1>>)>>)
     \o Opt(R(1..6) = 1, <<O("limit", <<5, l[1], l[2]>>), O("acquire", <<5, x[1], x[2]>>)>>)
SInit(z) == ResourceInit(0)
=============================================================================
