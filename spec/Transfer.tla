------------------------------ MODULE Transfer ------------------------------
(* Reading a file as a whole, up to a limit (-1: none), and mapping a part.    *)
EXTENDS Blob
TransferInit(cfg) == BlobInit(cfg)
Limit(c, n) == SubSeq(c, 1, IF n < 0 THEN Len(c) ELSE Min2(n, Len(c)))
TransferApply(st, e) ==
  LET a == e.a IN
  CASE e.op = "mapw" -> [st EXCEPT !.f[a[1]].c = [@ EXCEPT ![a[2] + a[4] + 1] = a[5]]]
    [] OTHER -> Apply1(st, e)
TransferStep(st, e) ==
  LET a == e.a  nx == TransferApply(st, e) IN
  CASE e.op \in {"whole", "string", "info", "conf"} ->
         LET want == Limit(st.f[a[1]].c, a[4]) IN
         IF ~st.f[a[1]].has THEN [ok |-> e.r[1] = 0 /\ e.r[2] = 0 /\ (e.op # "conf" => e.r[4] = 1), s |-> nx, want |-> "nothing, and an error"]
         ELSE [ok |-> e.r[1] = 1 /\ e.r[2] = Len(want) /\ Bytes(e.r[3]) = want /\ e.r[4] = 0, s |-> nx, want |-> <<Len(want), SubSeq(want, 1, Min2(10, Len(want)))>>]
    [] e.op = "map" -> LET want == SubSeq(st.f[a[1]].c, a[3] + 1, a[3] + a[4]) IN
         [ok |-> e.r[1] = 1 /\ Bytes(e.r[2]) = want, s |-> nx, want |-> SubSeq(want, 1, Min2(10, Len(want)))]
    [] e.op = "mapw" -> [ok |-> e.r = 1, s |-> nx, want |-> 1]
    [] OTHER -> BlobStep(st, e)
=============================================================================
