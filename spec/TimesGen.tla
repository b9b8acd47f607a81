------------------------------ MODULE TimesGen ------------------------------
EXTENDS Times, Gen
LOCAL C == INSTANCE Dates
R(S) == RandomElement(S)
Pick(q) == q[R(1..Len(q))]
O(op, a) == [op |-> op, a |-> a]
Mins(z) == Pick(<<0, 60 * R(-12..14), 60 * R(-12..14), R(-720..840), Pick(<<330, 345, -210, 570, -30, 30, 825, -719, 840, -59>>)>>)
Rules == <<<<<<3, 2, 0, 120>>, <<11, 1, 0, 120>>>>, <<<<3, 5, 0, 60>>, <<10, 5, 0, 120>>>>, <<<<10, 1, 0, 120>>, <<4, 1, 0, 180>>>>, <<<<9, 5, 6, 0>>, <<4, 4, 3, 1439>>>>>>
Zone(z) ==
  LET m == Mins(0)  r == Rules[R(1..Len(Rules))]  k == IF R(1..2) = 1 THEN [std |-> m, dst |-> 0, on |-> <<>>, off |-> <<>>]
           ELSE [std |-> m, dst |-> m + Pick(<<60, 60, 30, 120>>), on |-> r[1], off |-> r[2]] IN
  <<ZoneName(k), k.std, k.dst, k.on, k.off>>
Year(st) == Pick(<<R(1972..2037), R(1972..2037), R(1972..2400), IF st.on = <<>> THEN R(1..9998) ELSE R(1972..9998), IF st.on = <<>> THEN R(1900..1970) ELSE 2000, Pick(<<1972, 2000, 2100, 2038>>)>>)
Day(y) == LET m == R(1..12) IN Pick(<<C!DayOf(y, m, R(1..C!Days(y, m))), C!DayOf(y, m, C!Days(y, m)), C!DayOf(y, m, 1), C!DayOf(y, 1, 1), C!DayOf(y, 12, 31), C!DayOf(y, 2, C!Days(y, 2))>>)
Secs(z) == Pick(<<R(0..86399), 0, 86399, 3600 * R(0..23), 60 * R(0..1439), 3600 * R(1..23) - 1>>)
\* near a change of the clocks
Near(st, y) == LET c == IF R(1..2) = 1 THEN Change(st.on, y, st.std) ELSE Change(st.off, y, st.dst) IN Norm(c[1], c[2] + Pick(<<-1, 0, 1, -3600, 3599, 3600, R(-90000..90000)>>))
When(st) == LET y == Year(st) IN IF st.on # <<>> /\ R(1..2) = 1 THEN Near(st, y) ELSE <<Day(y), Secs(0)>>
Text(st) == Stamp(When(st), IF R(1..3) = 1 THEN Offset(st, When(st)) ELSE Mins(0))
SOps(st) ==
  <<O("zone", Zone(0)), O("zone", Zone(0)), O("write", When(st)), O("write", When(st)), O("write", When(st)), O("read", <<Text(st)>>), O("read", <<Text(st)>>), O("read", <<Text(st)>>),
    O("back", When(st) \o <<ZoneName(LET q == Zone(0) IN [std |-> q[2], dst |-> q[3], on |-> q[4], off |-> q[5]])>>), O("more", <<Text(st) \o Pick(<<<<120>>, <<32>>, <<58, 48, 48>>, <<43, 49>>>>)>>)>>
SInit(z) == TimesInit(0)
=============================================================================
