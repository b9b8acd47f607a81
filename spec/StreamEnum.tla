---------------------------- MODULE StreamEnum ----------------------------
(* Messages of every length around the block edges, cut in many ways.          *)
EXTENDS Stream, Enum
CONSTANTS Kind, N
Real(alg) == CASE alg \in {"sha384", "sha512"} -> 128 [] alg = "sha3" -> 128 [] alg = "sha3224" -> 144 [] alg = "sha3256" -> 136
               [] alg = "sha3384" -> 104 [] alg = "sha3512" -> 72 [] alg = "crc64" -> 8 [] OTHER -> 64
\* 254 stands for all that is left, 0 for an empty piece; a pattern is repeated to the end
Pats(b) == <<254, 255, 1, 255, 0, 3, 0, 255, b - 1, 1, 255, b, 255, b - 1, 254, 255, 1, b, 255, b + 1, 255, 1, b - 1, 0, 255,
             7, 13, 0, 0, 29, 255, b \div 2, 254>>
Edge(b, n) == \E k \in 1..3 : n \in (k * b - 20)..(k * b + 2)
StreamCases(x) ==
  CASE Kind = "edge" -> UNION {{[op |-> "gen", a |-> <<g, n, p, 3, Pats(Real(g))>>] : n \in {m \in 0..(3 * Real(g) + 2) : Edge(Real(g), m) \/ m % N = 0},
                                p \in {7}} : g \in Algorithms}
    [] Kind = "bits" -> {[op |-> "gen", a |-> <<g, n, 0, v, <<254>>>>] : g \in Algorithms, n \in {1, 8, 130}, v \in {0, 1, 127, 128, 255}}
    [] Kind = "long" -> {[op |-> "gen", a |-> <<g, n, 11, 0, <<254, 255, 253, 255, 252, 251, 255, 100, 0, 253>>>>] : g \in Algorithms, n \in {4096, N}}
    [] Kind = "huge" -> {[op |-> "huge", a |-> <<g, HugeLen, p>>] : g \in DOMAIN Huge, p \in {2^20, HugeLen}}
    [] Kind = "vast" -> {[op |-> "vast", a |-> <<g, 4096, 3>>] : g \in DOMAIN Vast}
    [] Kind = "hmac" -> {[op |-> "hgen", a |-> <<g, k, m, 9, Pats(64)>>] : g \in Algorithms,
                          k \in {0, 1, 20, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200}, m \in {0, 1, 63, 64, 65, 130}}
    [] Kind = "hmacdeep" -> {[op |-> "hgen", a |-> <<g, k, m, 9, <<254, 255, 5>>>>] : g \in Algorithms, k \in 0..N, m \in {0, 55, 128}}
Law == enumCase.a[1] \in Algorithms
=============================================================================
