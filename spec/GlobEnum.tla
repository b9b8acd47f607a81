------------------------------ MODULE GlobEnum ------------------------------
EXTENDS Glob, Enum
CONSTANTS Kind, N
Seqs(A, n) == UNION {[1..k -> A] : k \in 0..n}
a == 97  b == 98  A == 65
Tok == {<<a>>, <<b>>, <<A>>, <<QM>>, <<ST>>, <<LB, a, b, RB>>, <<LB, a, DA, b, RB>>, <<LB, b, DA, 99, A, RB>>,
        <<LC, a, CM, b, RC>>, <<LC, a, b, CM, b, RC>>, <<LC, a, CM, a, b, CM, RC>>, <<BS, ST>>}
TokB == {<<a>>, <<ST>>, <<BS, BS>>, <<BS, QM>>, <<LB, BS, RB, RB>>, <<LB, a, BS, RB, RB>>, <<LB, ST, a, BS, BS, RB>>, <<LC, a, BS, RC, CM, BS, BS, RC>>, <<LB, ST, DA, BS, RB, a, RB>>, <<LC, BS, CM, CM, BS, RC, RC>>, <<LC, RC>>}
Cat3(T, n) == UNION {{f : f \in [1..k -> T]} : k \in 0..n}
RECURSIVE Flat(_)
Flat(f) == IF f = <<>> THEN <<>> ELSE f[1] \o Flat(Tail(f))
SeqOf(S) == CHOOSE f \in [1..1 -> {S}] : TRUE
\* texts, listed once, in order of a numbering
Digit(n, k, B) == (n \div B^(k - 1)) % B
TextsOver(al, len) == [n \in 1..(Len(al)^len) |-> [k \in 1..len |-> al[Digit(n - 1, k, Len(al)) + 1]]]
T1 == <<<<>>>> \o TextsOver(<<a, b, A>>, 1) \o TextsOver(<<a, b, A>>, 2) \o TextsOver(<<a, b, A>>, 3) \o <<<<ST>>, <<a, ST>>, <<a, b, a, b>>, <<b, b, a, a>>, <<99>>, <<a, 99, b>>>>
T2 == <<<<>>>> \o TextsOver(<<a, ST, BS, RB, CM>>, 1) \o TextsOver(<<a, ST, BS, QM, RB, CM, RC>>, 2) \o TextsOver(<<a, BS, RB>>, 3)
GlobCases(x) ==
  CASE Kind = "tok" -> {[op |-> "glob", a |-> <<Flat(f), ci>> \o T1] : f \in Cat3(Tok, N), ci \in 0..1}
    [] Kind = "esc" -> {[op |-> "glob", a |-> <<Flat(f), ci>> \o T2] : f \in Cat3(TokB, N), ci \in {0}}
    [] Kind = "raw" -> {[op |-> "glob", a |-> <<f, 0>> \o T2] : f \in Seqs({a, ST, LB, RB, LC, RC, CM, BS, DA}, N)}
=============================================================================
