------------------------------ MODULE CodecEnum ------------------------------
EXTENDS Codec, Enum
CONSTANTS Kind, N
Seqs(A, n) == UNION {[1..k -> A] : k \in 0..n}
Edge == {0, 1, 15, 16, 63, 64, 65, 127, 128, 191, 192, 240, 255}
Mix(n, m) == [i \in 1..n |-> (i * i * 7 + i * m + m * 31) % 256]
CodecCases(x) ==
  CASE Kind = "enc1" -> {[op |-> "enc", a |-> <<<<b>>>>] : b \in 0..255}
    [] Kind = "enc" -> {[op |-> "enc", a |-> <<q>>] : q \in Seqs(Edge, N) \ {<<>>}}
    [] Kind = "encmix" -> {[op |-> "enc", a |-> <<Mix(n, m)>>] : n \in 1..70 \cup {255, 1000}, m \in 0..3}
    [] Kind = "dec" -> {[op |-> "dec", a |-> <<q>>] : q \in Seqs({65, 81, 47, 61, 32, 42}, N)}
    [] Kind = "dec4" -> {[op |-> "dec", a |-> <<[j \in 1..4 |-> IF j = k THEN b ELSE 65]>>] : k \in 1..4, b \in 1..255}
                        \cup {[op |-> "dec", a |-> <<<<65, b, 61, 61>>>>] : b \in 1..255}
                        \cup {[op |-> "dec", a |-> <<<<65, 65, b, 61>>>>] : b \in 1..255}
    [] Kind = "decws" -> {[op |-> "dec", a |-> <<SubSeq(t, 1, k) \o <<w>> \o SubSeq(t, k + 1, Len(t))>>] :
                            t \in {<<65, 81, 61, 61>>, <<65, 66, 103, 61>>, <<90, 109, 57, 118, 89, 109, 69, 61>>}, w \in {9, 10, 11, 12, 13, 32, 28, 160, 8, 14}, k \in 0..4}
    [] Kind = "hex" -> {[op |-> "hex", a |-> <<q>>] : q \in Seqs(Edge, 2) \cup {<<b>> : b \in 0..255} \cup {Mix(n, 3) : n \in {3, 50, 257, 2000}}}
    [] Kind = "unhex" -> {[op |-> "unhex", a |-> <<q>>] : q \in UNION {[1..k -> {48, 57, 97, 102, 65, 70}] : k \in {0, 2, 4}} \cup [1..2 -> (48..57) \cup (65..70) \cup (97..102)]}
Law == CodecLaw(enumCase)
=============================================================================
