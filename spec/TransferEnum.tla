---------------------------- MODULE TransferEnum ----------------------------
(* Sizes around those of buffers, limits around the sizes, and files reached   *)
(* by name (0), through a named pipe (1), as standard input (2) and as a pipe  *)
(* on standard input (3), fed in pieces.                                       *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Kind, K
VARIABLE case
Sizes == {0, 1, 2, 7, 4095, 4096, 4097, 8190, 8191, 8192, 8193, 8194, 16383, 16384, 16385, 24577, 65536, 65537, 200000}
O(op, a) == [op |-> op, a |-> a]
Limits(n) == {-1, 0, 1, n, n + 1, 8192} \cup (IF n > 0 THEN {n - 1} ELSE {}) \cup (IF n > 8200 THEN {8191, 8193, n - 4000} ELSE {})
Pieces == {1, 7, 100, 4096, 8192, 8193, 100000}
Some(n) == {q \in Pieces : n \div q < 3000}
Put(n) == O("put", <<1, 0, 5 + (n % 100), 3, n, 1>>)
Str(n) == O("put", <<1, 0, 5 + (n % 100), 0, n, 1>>)
Cases(x) ==
  CASE Kind = "files" -> UNION {{<<Put(n), O(op, <<1, 0, 0, m>>), O("cat", <<1>>)>> : m \in Limits(n), op \in {"whole", "info"}} : n \in Sizes}
                         \cup {<<Put(n), O("conf", <<1, 0, 0, -1>>)>> : n \in Sizes}
                         \cup {<<O(op, <<2, 0, 0, m>>)>> : op \in {"whole", "string", "info", "conf"}, m \in {-1, 5}}
                         \cup UNION {{<<Str(n), O("string", <<1, 0, 0, m>>)>> : m \in Limits(n)} : n \in {q \in Sizes : q <= 256}}
    [] Kind = "pipes" -> UNION {{<<Put(n), O(op, <<1, how, q, m>>)>> : how \in {1, 3}, m \in Limits(n), q \in Some(n), op \in {"whole", "info"}} : n \in Sizes}
    [] Kind = "stdin" -> UNION {{<<Put(n), O(op, <<1, 2, 0, m>>)>> : m \in Limits(n), op \in {"whole", "info"}} : n \in Sizes}
    [] Kind = "maps" -> UNION {{<<Put(n), O("map", <<1, mode, off, len>>), O("cat", <<1>>)>> : mode \in {0, 2}, off \in {q \in {0, 4096, 8192} : q < n}, len \in {1}} : n \in Sizes \ {0}}
                        \cup UNION {{<<Put(n), O("map", <<1, mode, off, n - off>>)>> : mode \in {0, 2}, off \in {q \in {0, 4096, 8192} : q < n}} : n \in Sizes \ {0}}
                        \cup UNION {{<<Put(n), O("mapw", <<1, off, n - off, n - off - 1, 77>>), O("mapw", <<1, 0, 1, 0, 99>>), O("cat", <<1>>)>> : off \in {q \in {0, 4096, 8192} : q < n}} : n \in Sizes \ {0}}
EInit == case \in Cases(0)
ENext == UNCHANGED case
Emit == PrintT("@@" \o ToJson(case))
=============================================================================
