------------------------------ MODULE BlobEnum ------------------------------
(* Each size around those of buffers, each kind of file and way to reach it,   *)
(* written in two pieces and read back in three.                               *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Kind, K
VARIABLE case
Sizes == {0, 1, 2, 3, 4, 5, 6, 8190, 8191, 8192, 8193, 8194, 16383, 16384, 16385, 65535, 65536, 65537, 200000}
O(op, a) == [op |-> op, a |-> a]
Min2(a, b) == IF a < b THEN a ELSE b
Ways == {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 0>>, <<3, 0>>, <<4, 0>>}
RoundTrip(n, w, cz, p, r, op) ==
  LET a == Min2(p, n) IN
  <<O("wopen", <<1, w[1], cz, w[2]>>), O("write", <<1, n % 256, 3, a>>), O(op, <<1, 7, 255, n - a>>), O("close", <<1>>), O("cat", <<w[1]>>),
    O("ropen", <<2, w[1], 1, IF cz = 1 /\ w[1] > 1 THEN 0 ELSE w[2], r>>), O("read", <<2, r>>), O("read", <<2, r>>), O("eof", <<2>>), O("rchunk", <<2, n - Min2(n, 2 * r)>>), O("eof", <<2>>),
    O("rbyte", <<2>>), O("eof", <<2>>), O("read", <<2, 5>>), O("close", <<2>>)>>
Outside(n, f, k, r, parts) ==
  <<O("put", <<f, k, n % 256, 1, n, parts>>), O("ropen", <<1, f, 1, 0, 0>>), O("rbyte", <<1>>), O("rchunk", <<1, r>>), O("read", <<1, r>>), O("rchunk", <<1, 300000>>), O("eof", <<1>>), O("close", <<1>>)>>
Harmed(n, f, k, at, what, r) ==
  <<O("put", <<f, k, n % 256, 3, n, 1>>), O("harm", <<f, at, what>>), O("ropen", <<1, f, 1, 0, 0>>), O("rchunk", <<1, r>>), O("rchunk", <<1, 300000>>), O("close", <<1>>)>>
Full(n, f, p) == <<O("wopen", <<1, f, 1, 4>>), O("write", <<1, 5, 3, p>>), O("wchunk", <<1, 9, 1, n>>), O("close", <<1>>)>>
Grown(n, p, m, q) == <<O("wopen", <<1, 1, 0, 0>>), O("write", <<1, 5, 3, n>>), O("extent", <<1, m>>), O("tell", <<1>>), O("write", <<1, 9, 1, q>>), O("extent", <<1, p>>), O("tell", <<1>>), O("wbyte", <<1, 65>>), O("close", <<1>>), O("cat", <<1>>)>>
Cases(x) == CASE Kind = "trip" -> {RoundTrip(n, w, cz, p, r, op) : n \in Sizes, w \in Ways, cz \in {0, 1}, p \in {0, 1, 4, 8192, 70000}, r \in {1, 2, 3, 4, 5, 8192, 8193, 20000}, op \in {"write", "wchunk"}}
              [] Kind = "outside" -> {Outside(n, 5, k, r, 1) : n \in Sizes, k \in 0..2, r \in {1, 2, 3, 4, 5, 8192, 8193, 20000}} \cup {Outside(n, 5, 1, r, parts) : n \in Sizes, r \in {4, 5, 8192}, parts \in 2..4}
              [] Kind = "harm" -> {Harmed(n, 5, k, at, what, r) : n \in {0, 1, 20, 300, 9000, 200000}, k \in 1..2, at \in {j * 37 : j \in 0..26} \cup {995, 999}, what \in 0..3, r \in {1, 4, 500, 300000}}
              [] Kind = "full" -> {Full(n, f, p) : n \in Sizes, f \in {1, 2, 4}, p \in {0, 1, 2, 4, 5, 8193}} \ {Full(0, f, 0) : f \in {1, 2, 4}}
              [] Kind = "grow" -> {Grown(n, p, m, q) : n \in {0, 1, 5, 8192, 20000}, p \in {0, 1, 4, 6, 8191, 20001, 30000}, m \in {0, 1, 5, 6, 8193, 25000}, q \in {0, 1, 10, 9000}}
              [] Kind = "bzparts" -> {Outside(n, 5, 2, 20000, parts) : n \in {7, 9000, 30000}, parts \in 2..3}
EInit == case \in Cases(0)
ENext == UNCHANGED case
Emit == PrintT("@@" \o ToJson(case))
=============================================================================
