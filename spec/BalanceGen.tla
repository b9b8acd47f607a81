----------------------------- MODULE BalanceGen -----------------------------
EXTENDS Balance, Gen
R(S) == RandomElement(S)
Pick(q) == q[R(1..Len(q))]
O(op, a) == [op |-> op, a |-> a]
Size(z) == Pick(<<R(0..9), R(0..9), R(0..100), Pick(<<15, 16, 17, 63, 64, 65, 128, 144>>)>>)
\* a mark wherever one can be; objects live for a few calls
SOps(st) ==
  LET none == st.live = {}  some == IF none THEN 0 ELSE R(st.live)  free == Slots \ st.live IN
  (IF none THEN <<O("mark", <<>>), O("mark", <<>>), O("mark", <<>>), O("once", <<R(0..11), Size(0)>>)>>
   ELSE <<O("act", <<some, R(0..99), Size(0)>>), O("act", <<some, R(0..99), Size(0)>>), O("act", <<some, R(0..99), Size(0)>>),
          O("act", <<some, R(0..99), Size(0)>>), O("free", <<some>>), O("free", <<some>>)>>)
  \o (IF free = {} THEN <<>> ELSE <<O("new", <<R(free), R(1..15), R(0..19)>>)>>)
\* one object at a time, used a dozen times with few different arguments
Few(z) == Pick(<<R(0..3), R(0..3), R(0..3), Size(0)>>)
FOps(st) ==
  IF st.live = {} THEN <<O("mark", <<>>), O("new", <<0, R(1..15), R(0..19)>>)>>
  ELSE [i \in 1..12 |-> O("act", <<0, R(0..99), Few(0)>>)] \o <<O("free", <<0>>)>>
SInit(z) == BalanceInit(0)
=============================================================================
