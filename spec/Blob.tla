-------------------------------- MODULE Blob --------------------------------
(* Streams over files.  A file is an array of bytes, kept plain or compressed; *)
(* a stream is a position in it.  Files may also be written, read and damaged  *)
(* from outside.                                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Pat(p, d, n) == [k \in 1..n |-> (p + ((k - 1) * d) + (((k - 1) \div 256) * 97)) % 256]
Str(p, n) == [k \in 1..n |-> 33 + ((p + k) % 90)]
\* the driver answers bytes as runs <<first, difference, length>>
Run(q) == [k \in 1..q[3] |-> (q[1] + ((k - 1) * q[2])) % 256]
RECURSIVE Cat(_, _, _)
Cat(q, i, j) == IF i > j THEN <<>> ELSE IF i = j THEN Run(q[i]) ELSE LET m == (i + j) \div 2 IN Cat(q, i, m) \o Cat(q, m + 1, j)
Bytes(q) == Cat(q, 1, Len(q))
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
NoFile == [has |-> FALSE, k |-> 0, c |-> <<>>, bad |-> FALSE, parts |-> 1]
Shut == [f |-> 0, m |-> 0, pos |-> 0, short |-> FALSE, how |-> 0, got |-> <<>>, some |-> FALSE]
NF == 5
BlobInit(cfg) == [f |-> [i \in 1..NF |-> NoFile], h |-> [i \in 1..3 |-> Shut]]
\* kinds by name: 0 plain, 1 gzip, 2 bzip2
KindOf(f) == CASE f = 2 -> 1 [] f = 3 -> 2 [] f = 4 -> 1 [] OTHER -> 0
\* ways to reach a file: 0 by name, 1 an open descriptor, 2 a command, 3 a named pipe, 4 a full device
Over(c, pos, b) == IF b = <<>> THEN c
                   ELSE SubSeq(c, 1, Min2(pos, Len(c))) \o b \o SubSeq(c, pos + Len(b) + 1, Len(c))
Written(st, x, b) == LET w == st.h[x] IN
  IF w.how = 4 THEN [st EXCEPT !.h[x].some = @ \/ b # <<>>]
  ELSE [st EXCEPT !.f[w.f].c = Over(@, w.pos, b), !.h[x].pos = @ + Len(b)]
Data(e) == CASE e.op \in {"write", "wchunk"} -> Pat(e.a[2], e.a[3], e.a[4])
             [] e.op = "wbyte" -> <<e.a[2]>>
             [] e.op = "wstr" -> Str(e.a[2], e.a[3])
Left(st, x) == LET w == st.h[x] IN Len(st.f[w.f].c) - w.pos
Asked(e) == IF e.op = "rbyte" THEN 1 ELSE e.a[2]
Apply1(st, e) ==
  LET a == e.a IN
  CASE e.op = "put" -> [st EXCEPT !.f[a[1]] = [has |-> TRUE, k |-> a[2], c |-> Pat(a[3], a[4], a[5]), bad |-> FALSE, parts |-> a[6]]]
    [] e.op = "wopen" -> [st EXCEPT !.h[a[1]] = [Shut EXCEPT !.f = a[2], !.m = 2, !.how = a[4]],
                                    !.f[a[2]] = IF a[4] = 4 THEN @ ELSE [NoFile EXCEPT !.has = TRUE, !.k = IF a[3] = 1 /\ a[4] = 0 THEN KindOf(a[2]) ELSE 0]]
    [] e.op = "ropen" -> IF st.f[a[2]].has THEN [st EXCEPT !.h[a[1]] = [Shut EXCEPT !.f = a[2], !.m = 1, !.how = a[4]]] ELSE st
    [] e.op \in {"write", "wchunk", "wbyte", "wstr"} -> Written(st, a[1], Data(e))
    [] e.op \in {"read", "rchunk", "rbyte"} ->
         [st EXCEPT !.h[a[1]].pos = @ + Min2(Asked(e), Left(st, a[1])), !.h[a[1]].short = @ \/ Asked(e) > Left(st, a[1])]
    [] e.op = "extent" -> IF st.h[a[1]].m = 2
                          THEN [st EXCEPT !.f[st.h[a[1]].f].c = @ \o [i \in 1..(a[2] - Len(@)) |-> 0]]
                          ELSE [st EXCEPT !.h[a[1]].some = TRUE]
    [] e.op \in {"close", "drop"} -> [st EXCEPT !.h[a[1]] = Shut]
    [] e.op = "harm" -> [st EXCEPT !.f[a[1]].bad = TRUE]
    [] OTHER -> st
\* what came out of a damaged file is kept until the stream is closed
ReadBad(st, e) == LET x == e.a[1]
                      b == IF e.op = "rbyte" THEN (IF e.r < 0 THEN <<>> ELSE <<e.r>>) ELSE Bytes(e.r[2])
                  IN [st EXCEPT !.h[x].got = @ \o b, !.h[x].short = @ \/ Len(b) < Asked(e)]
BlobStep(st, e) ==
  LET a == e.a  nx == Apply1(st, e)  free == [ok |-> TRUE, s |-> nx, want |-> "-"]
      is(v) == [ok |-> e.r = v, s |-> nx, want |-> v]
  IN
  CASE e.op \in {"put", "harm"} -> free
    [] e.op = "wopen" -> is(1)
    [] e.op = "ropen" -> is(IF st.f[a[2]].has THEN 1 ELSE 0)
    [] e.op \in {"write", "wchunk", "wbyte", "wstr"} ->
         IF st.h[a[1]].how = 4 THEN [ok |-> e.r <= Len(Data(e)), s |-> nx, want |-> "at most what was asked"] ELSE is(Len(Data(e)))
    [] e.op \in {"read", "rchunk", "rbyte"} ->
         LET w == st.h[a[1]]
             want == SubSeq(st.f[w.f].c, w.pos + 1, w.pos + Min2(Asked(e), Left(st, a[1])))
         IN IF st.f[w.f].bad THEN [ok |-> TRUE, s |-> ReadBad(st, e), want |-> "-"]
            ELSE IF e.op = "rbyte" THEN is(IF want = <<>> THEN -1 ELSE want[1])
            ELSE [ok |-> e.r[1] = Len(want) /\ Bytes(e.r[2]) = want, s |-> nx, want |-> <<Len(want), SubSeq(want, 1, Min2(Len(want), 20))>>]
    [] e.op = "eof" -> IF st.f[st.h[a[1]].f].bad \/ st.h[a[1]].some THEN free ELSE is(IF st.h[a[1]].short THEN 1 ELSE 0)
    [] e.op = "tell" -> is(st.h[a[1]].pos)
    [] e.op = "size" -> is(Len(st.f[st.h[a[1]].f].c))
    [] e.op = "extent" -> IF st.h[a[1]].m = 2 THEN is(1) ELSE free
    [] e.op = "sync" -> IF st.h[a[1]].how = 4 \/ st.h[a[1]].m = 1 THEN free ELSE is(0)
    [] e.op = "close" ->
         LET w == st.h[a[1]] IN
         IF w.how = 4 THEN (IF w.some THEN is(0) ELSE free)
         ELSE IF w.m = 1 /\ st.f[w.f].bad THEN [ok |-> (e.r = 1 /\ w.short) => w.got = st.f[w.f].c, s |-> nx, want |-> "an error, or what was stored"]
         \* a command whose output is not read to its end may be cut off by the close
         ELSE IF w.m = 1 /\ w.some THEN free
         ELSE IF w.m = 1 /\ w.how = 2 /\ ~w.short THEN free
         ELSE is(1)
    [] e.op = "cat" -> IF ~st.f[a[1]].has THEN is(<<-1, <<>>>>)
                       ELSE [ok |-> e.r[1] = Len(st.f[a[1]].c) /\ Bytes(e.r[2]) = st.f[a[1]].c, s |-> nx, want |-> Len(st.f[a[1]].c)]
    [] OTHER -> free
=============================================================================
