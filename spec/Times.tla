------------------------------- MODULE Times -------------------------------
(* Instants and timestamps.  An instant is <<days, seconds>> since the epoch. *)
(* The state is the local time zone: minutes east of Greenwich, and for a     *)
(* zone with daylight saving its minutes and the rules when it begins and     *)
(* ends, <<month, week (5: last), weekday, minute of the day>>.               *)
EXTENDS Integers, Sequences
LOCAL D == INSTANCE Dates
TimesInit(cfg) == [std |-> 0, dst |-> 0, on |-> <<>>, off |-> <<>>]
Norm(d, x) == <<d + (x \div 86400), x % 86400>>
Less(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
Weekday(n) == (n + 4) % 7
\* the day of a rule in a year
RuleDay(r, y) ==
  LET first == D!DayOf(y, r[1], 1)
      one == first + ((r[3] - Weekday(first)) % 7)
      day == one + 7 * (r[2] - 1) IN
  IF day >= first + D!Days(y, r[1]) THEN day - 7 ELSE day
Change(r, y, off) == Norm(RuleDay(r, y), 60 * (r[4] - off))
\* minutes east at an instant
Offset(z, p) ==
  IF z.on = <<>> THEN z.std
  ELSE LET y == D!Civil(p[1])[1]  a == Change(z.on, y, z.std)  b == Change(z.off, y, z.dst) IN
       IF Less(a, b) THEN (IF ~Less(p, a) /\ Less(p, b) THEN z.dst ELSE z.std)
       ELSE (IF ~Less(p, a) \/ Less(p, b) THEN z.dst ELSE z.std)
Stamp(p, off) ==
  LET t == Norm(p[1], p[2] + 60 * off)  c == D!Civil(t[1])  r == t[2]  z == IF off < 0 THEN -off ELSE off IN
  D!Pad(c[1], 4) \o <<45>> \o D!Pad(c[2], 2) \o <<45>> \o D!Pad(c[3], 2) \o <<84>> \o D!Pad(r \div 3600, 2) \o <<58>> \o D!Pad((r \div 60) % 60, 2) \o <<58>> \o D!Pad(r % 60, 2)
  \o <<IF off < 0 THEN 45 ELSE 43>> \o D!Pad(z \div 60, 2) \o <<58>> \o D!Pad(z % 60, 2)
\* reading: fields at their places
Num(q) == LET RECURSIVE N(_, _)
              N(i, v) == IF i > Len(q) THEN v ELSE N(i + 1, 10 * v + q[i] - 48) IN N(1, 0)
Instant(q) ==
  LET f(i, j) == Num(SubSeq(q, i, j))
      off == (IF q[20] = 45 THEN -1 ELSE 1) * (60 * f(21, 22) + f(24, 25)) IN
  Norm(D!DayOf(f(1, 4), f(6, 7), f(9, 10)), 3600 * f(12, 13) + 60 * f(15, 16) + f(18, 19) - 60 * off)
\* a zone as the environment names it
HM(m) == LET z == IF m < 0 THEN -m ELSE m IN (IF m < 0 THEN <<45>> ELSE <<>>) \o D!Dec(z \div 60) \o <<58>> \o D!Pad(z % 60, 2)
Rule(r) == <<44, 77>> \o D!Dec(r[1]) \o <<46>> \o D!Dec(r[2]) \o <<46>> \o D!Dec(r[3]) \o <<47>> \o HM(r[4])
ZoneName(z) == <<65, 66, 67>> \o HM(-z.std) \o (IF z.on = <<>> THEN <<>> ELSE <<68, 69, 70>> \o HM(-z.dst) \o Rule(z.on) \o Rule(z.off))
Apply1(st, e) ==
  IF e.op # "zone" THEN st
  ELSE LET a == e.a IN [std |-> a[2], dst |-> a[3], on |-> a[4], off |-> a[5]]
TimesStep(st, e) ==
  LET a == e.a  is(v) == [ok |-> e.r = v, s |-> Apply1(st, e), want |-> v] IN
  CASE e.op = "zone" -> is(1)
    \* the text, and its length
    [] e.op = "write" -> LET q == Stamp(<<a[1], a[2]>>, Offset(st, <<a[1], a[2]>>)) IN is(<<q, Len(q)>>)
    \* the instant, and what is left unread
    [] e.op = "read" -> is(Instant(a[1]) \o <<0>>)
    \* written and read back, possibly in another zone
    [] e.op = "back" -> is(<<a[1], a[2], 0>>)
    \* something follows: not all of it is read
    [] e.op = "more" -> is(1)
=============================================================================
