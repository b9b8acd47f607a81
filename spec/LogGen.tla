------------------------------- MODULE LogGen -------------------------------
EXTENDS Log, Gen
R(S) == RandomElement(S)
O(op, a) == [op |-> op, a |-> a]
Opt(c, q) == IF c THEN q ELSE <<>>
Tok(z) == <<R({0, 0, 1}), R({1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 9, 10, 10, 11} \cup (IF R(1..12) = 1 THEN {12} ELSE {})), R(0..2)>>
Toks0(z) == LET n == R({1, 1, 1, 2, 3}) IN [i \in 1..n |-> IF i = 1 /\ R(1..2) = 1 THEN <<0, 1, R(0..2)>> ELSE Tok(0)]
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Cat(Tail(q))
Toks(z) == Cat(Toks0(z))
\* the toolkit logs events of its own as it starts
Sure(z) == Cat([i \in 1..R(1..3) |-> <<R({0, 0, 1}), R({3, 6, 7, 10, 10, 11}), R(0..2)>>])
\* a piece of a format
Piece(z) == R({<<37, 99>>, <<37, 100>>, <<37, 101>>, <<37, 101>>, <<37, 102>>, <<37, 103>>, <<37, 105>>, <<37, 108>>, <<37, 109>>, <<37, 110>>, <<37, 112>>, <<37, 114>>, <<37, 116>>, <<37, 117>>,
                <<37, 118>>, <<37, 37>>, <<37, 122>>, <<92, 110>>, <<92, 114>>, <<92, 116>>, <<120>>, <<91>>, <<32>>, <<58, 32>>, <<49>>, <<37, 37, 101>>})
Format(z) == IF R(1..7) = 1 THEN R({<<120, 109, 108>>, <<88, 109, 76>>, <<37, 101>>}) ELSE Cat([i \in 1..R(1..9) |-> Piece(i)]) \o (IF R(1..12) = 1 THEN <<37>> ELSE <<>>)
\* in the settings a format is a word
InFile(f) == f = SelectSeq(f, LAMBDA c : c # 34) /\ f # <<>>
Names == {<<108, 45, 37, 103>>, <<108, 37, 103, 46, 108, 111, 103>>, <<108, 111, 103>>, <<37, 99, 45, 37, 110, 45, 37, 103>>, <<37, 112, 37, 37, 37, 118>>, <<97, 37, 122, 37, 103, 37, 103>>, <<110, 111, 47, 37, 103>>}
Conf(z) == <<Sure(0), R({<<1>>, <<2>>, <<3>>, <<4>>, <<4>>, <<4>>, <<2, 4>>, <<4, 3>>, <<1, 3>>, <<1, 2, 3, 4>>, <<5>>, <<4, 5>>}), R(Names), R({-1, 0, 1, 2, 3}), R({-1, 0, 1, 1, 2}), R({<<37, 101>>, Format(0), Format(0), Format(0)})>>
Ids == {<<97>>, <<77, 97, 105, 110>>, <<67, 108, 105, 101, 110, 116, 32, 49>>}
Mods == {<<108, 111, 103, 46, 99>>, <<119, 47, 108, 111, 103, 46, 99>>, <<47, 97, 47, 98, 47, 99, 46, 99>>, <<120>>}
Word(z) == R({<<104, 105>>, <<60, 38, 62, 34>>, <<37, 115, 37, 100>>, <<>>, <<97, 32, 98, 10, 99>>, <<195, 169>>})
Fat(z) == LET n == R({63, 64, 127, 250, 255, 255}) IN [i \in 1..n |-> 97 + (i % 26)]
Event1(st) == LET big == R(1..14) = 1  w == IF big THEN Fat(0) ELSE Word(0) IN
  <<R({1, 2, 4, 8, 32, 64, 128, 256, 1024, 4096, 8192, 8192, 2147483646, 8196, 0, 16384}), R(Mods), R({<<102>>, <<76, 111, 103, 73, 116>>}), R({0, 1, 99, 12345, 1000000, 2147483647}),
    w, IF big THEN R({2, 15, 16, 4095 \div Len(w)}) ELSE 1>>
SOps(st) ==
  IF st.now[2] = 0 THEN <<O("clock", <<R({0, 1, 951782399, 1790000000, 2147483000}), R(100..100000), R(1..5000)>>)>>
  ELSE IF ~st.up THEN (IF st.file = <<>> THEN <<O("conf", Conf(0))>> ELSE <<O("up", <<R(Ids)>>)>>)
  ELSE [i \in 1..10 |-> O("event", Event1(st))]
       \o <<O("throw", LET q == Event1(st) IN <<R({300, 310, 399, 400, 410, 495})>> \o SubSeq(q, 2, 6)), O("throw", LET q == Event1(st) IN <<R({300, 310, 400, 410})>> \o SubSeq(q, 2, 6)), O("mkdir", <<>>)>>
       \o <<O("mask", <<Toks(0)>>), O("format", <<Format(0)>>), O("close", <<>>), O("client", <<R(Ids)>>), O("name", <<R(Ids \cup {<<>>})>>)>>
       \o [i \in 1..3 |-> O("clock", <<IF st.now[1] > 2147483000 THEN 0 ELSE R({0, 1, 59, 86399, 100000} \ (IF st.now[1] > 2147000000 THEN {86399, 100000} ELSE {})), R({0, 1, 7, 100, 300, 5900, 6000, 359900, 12345}), R({0, 1, 50, 100, 12345})>>)]
       \o Opt((st.mask & 1) = 0, <<O("list", <<>>)>>)
       \o Opt(st.open # <<>> /\ \A x \in st.sizes : x[2] < 2000000, <<O("grow", <<1>>), O("grow", <<1>>)>>)
       \o Opt(st.open = <<>> /\ st.mask # 0 /\ R(1..3) = 1, <<O("race", <<R(1..4)>>)>>)
SInit(z) == LogInit(0)
=============================================================================
