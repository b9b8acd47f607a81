------------------------------ MODULE PathEnum ------------------------------
EXTENDS Path, Enum
CONSTANTS Kind, N
Seqs(A, n) == UNION {[1..k -> A] : k \in 0..n}
Long(n) == [i \in 1..n |-> IF i % 9 = 0 THEN SL ELSE 97 + (i % 5)]
Name(n) == [i \in 1..n |-> 97 + (i % 7)]
PathCases(x) ==
  CASE Kind = "parts" -> {[op |-> "parts", a |-> <<q>>] : q \in Seqs({97, DOT, SL, LB, RB, CO}, N)}
    [] Kind = "partsq" -> {[op |-> "parts", a |-> <<q>>] : q \in Seqs({97, DOT, SL, QM, 32}, N)}
    [] Kind = "partslong" -> {[op |-> "parts", a |-> <<Long(n) \o t>>] : n \in {50, 1000, 4080}, t \in Seqs({97, DOT, SL}, 4)}
                            \cup {[op |-> "parts", a |-> <<h \o Name(n) \o t>>] : h \in {<<>>, <<SL>>, <<97, SL>>}, n \in {300, 1023, 1024, 2000, 4000}, t \in Seqs({97, DOT}, 3)}
    [] Kind = "list" -> {[op |-> "list", a |-> <<q>>] : q \in Seqs({97, SL, DOT}, N)}
    [] Kind = "chop" -> {[op |-> "chop", a |-> <<q>>] : q \in Seqs({97, SL, DOT}, N) \cup Seqs({97, SL, LB, RB}, 5)}
    [] Kind = "append" -> {[op |-> "append", a |-> <<q, e>>] : q \in Seqs({97, SL, DOT}, N), e \in {<<>>, <<98>>, <<98, 46, 99>>, <<120, 109, 108>>}}
Law == PathLaw(enumCase)
=============================================================================
