-------------------------------- MODULE Glob --------------------------------
(* Glob patterns and the texts they denote.                                    *)
(*   pattern ::= item*                                                         *)
(*   item    ::= char | \char | ? | * | [ range+ ] | { literal , ... }         *)
(*   range   ::= c | c-d       (c, d possibly escaped)                         *)
(*   literal ::= (char | \char)*                                               *)
(* The empty pattern, like "*", matches everything.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
ST == 42  QM == 63  LB == 91  RB == 93  LC == 123  RC == 125  BS == 92  CM == 44  DA == 45
LOCAL Low(b) == IF b \in 65..90 THEN b + 32 ELSE b
LOCAL Up(b) == IF b \in 97..122 THEN b - 32 ELSE b
LOCAL From(q, k) == SubSeq(q, k, Len(q))

(* parsing: Parse(p) is <<items>> or <<>> when p is not in the grammar *)
RECURSIVE Ranges(_, _), Alts(_, _, _), Parse0(_)
\* ranges up to the closing bracket: [ok, set, rest]
Ranges(p, acc) ==
  IF p = <<>> THEN [ok |-> FALSE, set |-> {}, rest |-> <<>>]
  ELSE IF p[1] = RB THEN [ok |-> acc # {}, set |-> acc, rest |-> Tail(p)]
  ELSE LET e == p[1] = BS  IN
       IF e /\ Len(p) = 1 THEN [ok |-> FALSE, set |-> {}, rest |-> <<>>]
       ELSE LET lo == IF e THEN p[2] ELSE p[1]
                q == From(p, IF e THEN 3 ELSE 2)
            IN IF q = <<>> \/ q[1] # DA THEN Ranges(q, acc \cup {<<lo, lo>>})
               ELSE LET r == Tail(q) f == r # <<>> /\ r[1] = BS IN
                    IF r = <<>> \/ r[1] = RB \/ (f /\ Len(r) = 1) THEN [ok |-> FALSE, set |-> {}, rest |-> <<>>]
                    ELSE Ranges(From(r, IF f THEN 3 ELSE 2), acc \cup {<<lo, IF f THEN r[2] ELSE r[1]>>})
\* alternatives up to the closing brace
Alts(p, cur, acc) ==
  IF p = <<>> THEN [ok |-> FALSE, set |-> {}, rest |-> <<>>]
  ELSE IF p[1] = RC THEN [ok |-> TRUE, set |-> acc \cup {cur}, rest |-> Tail(p)]
  ELSE IF p[1] = CM THEN Alts(Tail(p), <<>>, acc \cup {cur})
  ELSE IF p[1] = BS THEN (IF Len(p) = 1 THEN [ok |-> FALSE, set |-> {}, rest |-> <<>>] ELSE Alts(From(p, 3), Append(cur, p[2]), acc))
  ELSE Alts(Tail(p), Append(cur, p[1]), acc)
Bad == <<[k |-> "bad"]>>
Parse0(p) ==
  IF p = <<>> THEN <<>>
  ELSE CASE p[1] = ST -> <<[k |-> "star"]>> \o Parse0(Tail(p))
         [] p[1] = QM -> <<[k |-> "any"]>> \o Parse0(Tail(p))
         [] p[1] = BS -> IF Len(p) = 1 THEN Bad ELSE <<[k |-> "lit", c |-> p[2]]>> \o Parse0(From(p, 3))
         [] p[1] = LB -> LET r == Ranges(Tail(p), {}) IN IF r.ok THEN <<[k |-> "set", set |-> r.set]>> \o Parse0(r.rest) ELSE Bad
         [] p[1] = LC -> LET r == Alts(Tail(p), <<>>, {}) IN IF r.ok THEN <<[k |-> "alt", set |-> r.set]>> \o Parse0(r.rest) ELSE Bad
         [] OTHER -> <<[k |-> "lit", c |-> p[1]]>> \o Parse0(Tail(p))
WellFormed(items) == \A k \in 1..Len(items) : items[k].k # "bad"

(* matching *)
Same(x, y, ci) == x = y \/ (ci = 1 /\ Low(x) = Low(y))
InSet(b, set, ci) == \E r \in set : \/ b \in r[1]..r[2]
                                    \/ ci = 1 /\ (Low(b) \in r[1]..r[2] \/ Up(b) \in r[1]..r[2])
Starts(t, x, ci) == Len(t) >= Len(x) /\ \A j \in 1..Len(x) : Same(t[j], x[j], ci)
RECURSIVE Match(_, _, _)
Match(m, t, ci) ==
  IF m = <<>> THEN t = <<>>
  ELSE LET h == m[1] IN
       CASE h.k = "star" -> \E j \in 1..(Len(t) + 1) : Match(Tail(m), From(t, j), ci)
         [] h.k = "alt" -> \E x \in h.set : Starts(t, x, ci) /\ Match(Tail(m), From(t, Len(x) + 1), ci)
         [] OTHER -> /\ t # <<>>
                     /\ CASE h.k = "lit" -> Same(t[1], h.c, ci)
                          [] h.k = "any" -> TRUE
                          [] h.k = "set" -> InSet(t[1], h.set, ci)
                     /\ Match(Tail(m), Tail(t), ci)

\* op "glob": a = <<pattern, ci, text, text, ...>>, answer: 1 for each text matched
GlobDo(o) ==
  LET p == o.a[1] m == Parse0(p) IN
  [j \in 1..(Len(o.a) - 2) |-> IF p = <<>> THEN 1 ELSE IF Match(m, o.a[j + 2], o.a[2]) THEN 1 ELSE 0]
GlobInit(cfg) == 0
GlobStep(s, e) ==
  IF ~WellFormed(Parse0(e.a[1])) THEN [ok |-> TRUE, s |-> s, want |-> <<>>]   \* not in the language: any answer
  ELSE LET w == GlobDo(e) IN [ok |-> e.r = w, s |-> s, want |-> w]
=============================================================================
