----------------------------- MODULE SecretEnum -----------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Kind, K
VARIABLE case
New(h, g, x, b) == [op |-> "new", a |-> <<h, g, x, b>>]
Gen(h, p) == [op |-> "gen", a |-> <<h>> \o p]
Auth(h, k, m, p) == [op |-> "auth", a |-> <<h, k, m>> \o p]
Drop(h) == [op |-> "drop", a |-> <<h>>]
Flip(g, o, m) == [op |-> "flip", a |-> <<g, o, m>>]
P(n) == <<n, 1, 0, 0>>
\* passphrases next to one of n bytes
Near(n) == {<<n, 2, 0, 0>>, P(n + 1)} \cup (IF n > 0 THEN {P(n - 1)} ELSE {}) \cup {<<n, 1, at, 1>> : at \in {1, n, n \div 2 + 1, 16, 17, 32, 33, 64, 65, 128, 129} \ {k \in 1..130 : k > n}}
Hashes == {"MD5", "SHA1", "SHA2-224", "SHA2-256", "SHA2-384", "SHA2-512", "SHA3-224", "SHA3-256", "SHA3-384", "SHA3-512"}
Lens == (0..K) \cup {63, 64, 65, 71, 72, 73, 103, 104, 105, 127, 128, 129, 135, 136, 137, 143, 144, 145, 1000, 4096, 5000}
Cases(dummy) ==
  CASE Kind = "near" -> {<<New(1, 1, x, 256), Gen(1, P(n)), Drop(1), New(2, 1, x, 256), Auth(2, 1, 0, q), Auth(2, 1, 0, P(n))>> : n \in Lens, q \in UNION {Near(m) : m \in Lens}, x \in {"SHA2-256"}}
    [] Kind = "hash" -> {<<New(1, 1, x, b), Gen(1, P(n)), New(2, 1, y, 8), Auth(2, 1, 0, P(n)), Auth(1, 1, 0, P(n)), Drop(1)>> : n \in {1, 64, 65, 200}, x \in Hashes, y \in Hashes, b \in {64, 1024}}
    [] Kind = "length" -> {<<New(1, 1, "SHA2-256", b), Gen(1, P(9)), Gen(1, P(9)), Gen(1, P(10)), Drop(1), New(2, 1, "SHA2-256", 8), Auth(2, 2, 0, P(9)), Auth(2, 1, 0, P(10)), Auth(2, 3, 0, P(10)), Auth(2, 1, 0, P(9))>> : b \in {8 * k : k \in 1..140} \cup {64 + k : k \in 1..8} \cup {4096, 8192, 80000}}
    [] Kind = "none" -> {<<New(1, g, "SHA2-256", 256), Gen(1, P(9)), Auth(1, k, m, P(n))>> : g \in {1, 4}, k \in 0..1, m \in 0..3, n \in {9, 10}}
    [] Kind = "flip" -> {<<New(1, 1, "SHA2-256", 256), Gen(1, P(9)), Gen(1, P(12)), Flip(1, o, w), Auth(1, k, 0, P(n)), Auth(1, 2, 0, P(12)), Gen(1, P(4)), Auth(1, 3, 0, P(4))>> : o \in 0..600, w \in {1, 128}, k \in 1..2, n \in {9, 12}}
EInit == case \in Cases(0)
ENext == UNCHANGED case
\* only the neighbours of the passphrase itself are of interest
Wanted == Kind = "near" => \E n \in Lens : SubSeq(case[2].a, 2, 5) = P(n) /\ SubSeq(case[5].a, 4, 7) \in Near(n)
Emit == Wanted => PrintT("@@" \o ToJson(case))
=============================================================================
