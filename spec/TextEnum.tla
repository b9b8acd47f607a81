------------------------------ MODULE TextEnum ------------------------------
EXTENDS Text, Enum
CONSTANTS N
Seqs(A, n) == UNION {[1..k -> A] : k \in 0..n}

Long(n) == [i \in 1..n |-> 33 + ((i * 7) % 90)]
\* kept apart by operation, so that arguments of different types never meet
CONSTANT Kind
TextCases(x) ==
  CASE Kind = "copy" -> {[op |-> "copy", a |-> <<t, n>>] : t \in {Long(k) : k \in 0..(4 * N)}, n \in 1..(4 * N + 2)}
    [] Kind = "cat" -> {[op |-> "cat", a |-> <<Long(i), Long(j), n>>] : i \in 0..N, j \in 0..(2 * N), n \in (N + 1)..(3 * N + 2)}
    [] Kind = "append" -> {[op |-> "append", a |-> <<Long(i), Long(j)>>] : i \in {0, 1, 7, 100, 255, 256, 257}, j \in {0, 1, 9, 250, 4090, 5000}}
    [] Kind = "dup" -> {[op |-> "dup", a |-> <<Long(i)>>] : i \in {0, 1, 7, 255, 4095, 4096, 5000}}
    [] Kind = "subst" -> {[op |-> "subst", a |-> <<q, f, p>>] : q \in Seqs({97, 98}, N), f \in {<<97>>, <<97, 98>>, <<97, 97>>, <<98, 97, 98>>},
                                                             p \in {<<>>, <<97>>, <<98, 98>>, <<97, 98, 97>>}}
    [] Kind = "substlong" -> {[op |-> "subst", a |-> <<[i \in 1..n |-> IF i % 3 = 0 THEN 97 ELSE 98], <<97>>, Long(m)>>] : n \in {30, 200}, m \in {0, 1, 2, 40, 300}}
    [] Kind = "strip" -> {[op |-> "strip", a |-> <<q>>] : q \in Seqs({97, 32, 39, 34, 10}, N)}
    [] Kind = "args" -> {[op |-> "args", a |-> <<q>>] : q \in Seqs({97, 98, 32, 39, 34}, N)}
    [] Kind = "cmp" -> {[op |-> "cmp", a |-> <<p, q>>] : p, q \in Seqs({97, 65, 91, 200}, 3)}
    [] Kind = "ncmp" -> {[op |-> "ncmp", a |-> <<p, q, n>>] : p, q \in Seqs({97, 65, 90}, 2), n \in 0..3}
    [] Kind = "lower" -> {[op |-> "lower", a |-> <<q>>] : q \in Seqs({64, 65, 90, 91, 97, 122, 48, 200}, 2)}
    [] Kind = "truth" -> {[op |-> "truth", a |-> <<q>>] :
          q \in Truth \cup {<<>>, <<48>>, <<84, 82, 85, 69>>, <<79, 110>>, <<89, 101, 115>>, <<111, 102, 102>>, <<116, 114, 117>>,
                            <<102, 97, 108, 115, 101>>, <<110, 111>>, <<49, 48>>, <<116, 114, 117, 101, 120>>}}
Law == TextLaw(enumCase)
=============================================================================
