------------------------------- MODULE Dates -------------------------------
(* Calendar dates of the Gregorian calendar and numbers as text.             *)
EXTENDS Integers, Sequences
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
Days(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
\* days from 1970-01-01 to the first day of a year
Before(y) == LET z == y - 1 IN 365 * (y - 1970) + (z \div 4 - 492) - (z \div 100 - 19) + (z \div 400 - 4)
RECURSIVE MonthDay(_, _, _)
MonthDay(y, m, d) == IF d < Days(y, m) THEN <<y, m, d + 1>> ELSE MonthDay(y, m + 1, d - Days(y, m))
\* the date so many days from 1970-01-01
Civil(n) == LET g == 1970 + (n \div 365)  y == CHOOSE k \in (g - 9)..(g + 9) : Before(k) <= n /\ n < Before(k + 1) IN MonthDay(y, 1, n - Before(y))
RECURSIVE Months(_, _)
Months(y, m) == IF m = 1 THEN 0 ELSE Days(y, m - 1) + Months(y, m - 1)
DayOf(y, m, d) == Before(y) + Months(y, m) + d - 1
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
Pad(n, w) == LET q == Dec(n) IN [i \in 1..(IF Len(q) < w THEN w - Len(q) ELSE 0) |-> 48] \o q
\* so many seconds from the epoch, in a zone so many minutes east
Stamp(secs, zone) ==
  LET t == secs + 60 * zone  c == Civil(t \div 86400)  r == t % 86400  z == IF zone < 0 THEN -zone ELSE zone IN
  Pad(c[1], 4) \o <<45>> \o Pad(c[2], 2) \o <<45>> \o Pad(c[3], 2) \o <<84>> \o Pad(r \div 3600, 2) \o <<58>> \o Pad((r \div 60) % 60, 2) \o <<58>> \o Pad(r % 60, 2)
  \o <<IF zone < 0 THEN 45 ELSE 43>> \o Pad(z \div 60, 2) \o <<58>> \o Pad(z % 60, 2)
=============================================================================
