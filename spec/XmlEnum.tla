------------------------------ MODULE XmlEnum ------------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Kind, K
VARIABLE case
O(op, a) == [op |-> op, a |-> a]
T(t) == O("tag", <<t, <<60>> \o t>>)
GT == O("gt", <<<<62>>>>)
Empty == O("empty", <<<<47, 62>>>>)
Close(t) == O("close", <<<<60, 47>> \o t \o <<62>>>>)
Text(q) == O("text", <<q>>)
Att(n, v, q) == O("attr", <<n, v, <<32>> \o n \o <<61>> \o <<q>> \o v \o <<q>>>>)
Cdata(q) == O("cdata", <<q, <<60, 33, 91, 67, 68, 65, 84, 65, 91>> \o q \o <<93, 93, 62>>>>)
Com(q) == O("comment", <<<<60, 33, 45, 45>> \o q \o <<45, 45, 62>>>>)
Pi(t, d) == O("pi", <<t, d, <<60, 63>> \o t \o <<32>> \o d \o <<63, 62>>>>)
Bad(q) == O("bad", <<q>>)
Parse == O("parse", <<"a b">>)
DtdOpen == O("dtd", <<<<60, 33, 68, 79, 67, 84, 89, 80, 69, 32, 97, 32, 91>>>>)
DtdEnd == O("dtd", <<<<93, 62>>>>)
Entity(n, v) == O("entity", <<n, v, <<60, 33, 69, 78, 84, 73, 84, 89, 32>> \o n \o <<32, 34>> \o v \o <<34, 62>>>>)
A == <<97>>
B == <<98>>
Ref(n) == <<38>> \o n \o <<59>>
\* decimal and hexadecimal digits
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
RECURSIVE Hex(_, _)
Hex(n, up) == LET d == n % 16  b == IF d < 10 THEN 48 + d ELSE (IF up THEN 55 ELSE 87) + d IN IF n < 16 THEN <<b>> ELSE Hex(n \div 16, up) \o <<b>>
Points == {9, 10, 13, 32, 34, 38, 39, 60, 62, 65, 126, 127, 128, 129, 159, 160, 191, 192, 255, 256, 1023, 1024, 2046, 2047, 2048, 2049, 4095, 4096, 8364, 32767, 32768, 55295, 57344, 65533, 65536, 65537, 131071, 131072, 262143, 262144, 1048575, 1048576, 1114111}
Spelled(c) == {<<35>> \o Dec(c), <<35, 48>> \o Dec(c), <<35, 120>> \o Hex(c, TRUE), <<35, 120>> \o Hex(c, FALSE), <<35, 120, 48, 48>> \o Hex(c, FALSE)}
Atoms == {<<120>>, <<32>>, <<10>>, <<13>>, <<13, 10>>, <<9>>, <<38, 108, 116, 59>>, <<38, 97, 109, 112, 59>>, <<38, 35, 49, 51, 59>>, <<38, 35, 120, 97, 59>>, <<38, 97, 112, 111, 115, 59>>, <<38, 113, 117, 111, 116, 59>>, <<62>>, <<59>>, <<195, 169>>, <<37>>, <<93>>,
          <<38, 35, 51, 50, 59>>, <<38, 35, 120, 50, 48, 97, 99, 59>>, <<38, 103, 116, 59>>}
Rep(q, n) == [i \in 1..(n * Len(q)) |-> q[((i - 1) % Len(q)) + 1]]
Names3 == <<<<101>>, <<102>>, <<101, 49>>>>
\* documents whose every shortening is tried
Docs == <<
  <<T(A), GT, Text(<<120>>), Close(A)>>,
  <<T(A), Att(B, <<62, 47>>, 34), GT, Com(<<120>>), T(B), Empty, Cdata(<<60, 120>>), Pi(<<116>>, <<121>>), O("close", <<<<60, 47, 97, 32, 10, 62>>>>), O("ws", <<<<10>>>>)>>,
  <<DtdOpen, Entity(<<101>>, <<120>>), DtdEnd, T(A), Att(B, <<38, 101, 59>>, 39), Att(A, <<>>, 34), GT, Text(<<38, 101, 59>>), T(A), GT, Close(A), Close(A), Com(<<>>)>>,
  <<O("decl", <<<<60, 63, 120, 109, 108, 32, 118, 101, 114, 115, 105, 111, 110, 61, 34, 49, 46, 48, 34, 63, 62>>>>), T(A), Att(B, <<34>>, 39), O("empty", <<<<32, 47, 62>>>>)>>,
  <<T(A), GT, T(<<114, 100, 102, 58, 66, 97, 103>>), Att(A, <<47, 62>>, 34), GT, T(B), Att(A, <<60, 47>>, 39), O("empty", <<<<32, 47, 62>>>>), Text(<<120>>), Close(<<114, 100, 102, 58, 66, 97, 103>>), T(B), GT, Close(B), Close(A)>> >>
\* entities e1..e3 with values that refer to each other
Val(S) == IF S = 0 THEN <<120>> ELSE <<121>> \o Ref(Names3[S])
Cyclic(x, y, z) == LET f == <<x, y, z>> IN \E i \in 1..3 : LET j == f[i] IN j # 0 /\ (j = i \/ (f[j] # 0 /\ (f[j] = i \/ (f[f[j]] # 0 /\ f[f[j]] = i))))
Cases(dummy) ==
  CASE Kind = "points" -> {<<T(A), Att(B, Ref(r), 34), GT, Text(<<120>> \o Ref(r) \o Ref(r)), Close(A), Parse>> : r \in UNION {Spelled(c) : c \in Points}}
    [] Kind = "text" -> {<<T(A), GT, Text(x \o y \o z), T(B), Empty, Text(z \o x), Com(<<>>), Text(y), Close(A), Parse>> : x \in Atoms, y \in Atoms, z \in Atoms}
    [] Kind = "attr" -> {<<T(A), Att(B, x \o y \o z, 34), Att(A, z \o x, 39), GT, Close(A), Parse>> : x \in Atoms, y \in Atoms, z \in Atoms}
    [] Kind = "cuts" -> {Docs[d] \o <<Parse, O("cut", <<n>>)>> : d \in 1..Len(Docs), n \in 0..130}
    [] Kind = "circle" -> {<<DtdOpen, Entity(Names3[1], Val(x)), Entity(Names3[2], Val(y)), Entity(Names3[3], Val(z)), DtdEnd>> \o (IF Cyclic(x, y, z) THEN <<Bad(<<>>)>> ELSE <<>>)
                           \o <<T(A), Att(B, Ref(Names3[1]), 34), GT, Text(Ref(Names3[3]) \o Ref(Names3[2])), Close(A), Parse>> : x \in 0..3, y \in 0..3, z \in 0..3}
    [] Kind = "wide" -> {<<Bad(<<p[1], p[2]>> \o Rep(q, n)), Parse>> : p \in {<<254, 255>>, <<255, 254>>}, q \in {<<120>>, <<1, 60>>, <<216, 1>>, <<233, 233>>}, n \in {1, 2, 3, 100, 2045, 2046, 2047, 2048, 2049, 4090, 4094, 4095, 4096, 8190}}
    [] Kind = "long" -> {<<T(A), Att(B, Rep(x, n), 34), GT, Text(Rep(x, n)), T(B), GT, Text(Rep(x, n + 1)), Close(B), Text(x), Close(A), Parse>> : x \in {<<120>>, <<38, 108, 116, 59>>, <<120, 38, 97, 109, 112, 59>>, <<13, 10>>, <<38, 35, 120, 50, 48, 97, 99, 59>>}, n \in {10, 60, 150}}
    [] Kind = "plain" -> {<<T(A), Att(B, Rep(x, n), 34), GT, Text(Rep(x, n)), T(B), GT, Text(Rep(x, n + 1)), Close(B), Text(x), Close(A), Parse>> : x \in {<<120>>, <<121, 10>>}, n \in {2040, 4090, 4096}}
    \* elements next to and inside each other
    [] Kind = "nest" -> {<<T(A), GT>> \o (IF x = 1 THEN <<T(p), Empty>> ELSE <<T(p), GT, T(q), Empty, Close(p)>>) \o <<Text(<<120>>)>> \o (IF y = 1 THEN <<T(q), Empty>> ELSE <<T(q), GT, T(r), Empty, T(p), Empty, Close(q)>>) \o <<T(r), Empty, T(t), GT, Text(<<121>>), Close(t), Close(A), Parse>>
                          : x \in 1..2, y \in 1..2, p \in {A, B, <<97, 98>>}, q \in {A, B, <<97, 98>>}, r \in {A, B, <<65>>}, t \in {A, B, <<97, 98>>}}
EInit == case \in Cases(0)
ENext == UNCHANGED case
Emit == PrintT("@@" \o ToJson(case))
=============================================================================
