----------------------------- MODULE EntropyEnum -----------------------------
EXTENDS Entropy, Enum
CONSTANTS Kind, N
EntropyCases(x) ==
  CASE Kind = "rt" -> UNION {{[op |-> "rt", a |-> <<m, l, n, p, 7, w>>] : l \in Levels(m), n \in {0, 1, 2, 3, 10, 64, 255, 256, 257},
                               p \in {-1, 0, 7}, w \in {0, 5}} : m \in Methods}
    [] Kind = "rtl" -> UNION {{[op |-> "rtl", a |-> <<m, l, n, p, 3, 0>>] : l \in {1, 6, 9}, n \in {4096, 65536, 100003, 262144, N},
                               p \in {-2, -1, 0, 1}} : m \in Methods}   \* -2: bytes without pattern, left to the driver
    [] Kind = "flip" -> {[op |-> "bad", a |-> <<m, 6, n, p, 1, k, v, 0>>] : m \in Methods, n \in {1, 40, 200}, p \in {-1, 7},
                              k \in 0..N, v \in {1, 128, 85}}
    [] Kind = "cut" -> {[op |-> "bad", a |-> <<m, 6, n, p, 1, 0, 0, k>>] : m \in Methods, n \in {1, 40, 200}, p \in {-1, 7}, k \in 1..N}
    [] Kind = "flipcut" -> {[op |-> "bad", a |-> <<m, 6, n, -1, 1, k, 3, c>>] : m \in Methods, n \in {40, 200}, k \in {j \in 0..N : j % 3 = 0}, c \in {4, 12, 28, 36, 40}}
Law == Len(enumCase.a) > 0
=============================================================================
