------------------------------ MODULE TempFile ------------------------------
(* Temporary files of one process and its children.  f[h] is the state of the  *)
(* file in slot h: none, held, gone (held, but removed behind the toolkit's    *)
(* back), kept (given up and left in place).  Every answer ends with what the  *)
(* scratch directory then holds: files, directories, and files counted in use. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Slots == 1..6
TempFileInit(cfg) == [f |-> [x \in Slots |-> "none"], other |-> 0, lim |-> -1, up |-> TRUE]
In(st, what) == {x \in Slots : st.f[x] \in what}
Used(st) == Cardinality(In(st, {"held", "gone"}))
Files(st) == Cardinality(In(st, {"held", "kept"})) + st.other
Room(st, n) == st.lim = -1 \/ Used(st) + n < st.lim
Apply1(st, e) ==
  LET a == e.a IN
  CASE e.op \in {"file", "name"} -> IF Room(st, 1) THEN [st EXCEPT !.f[a[1]] = "held"] ELSE st
    [] e.op = "give" -> [st EXCEPT !.f[a[1]] = IF a[2] = 0 /\ st.f[a[1]] \in {"held", "kept"} THEN "kept" ELSE "none"]
    [] e.op = "unlink" -> [st EXCEPT !.f[a[1]] = "gone"]
    [] e.op = "flimit" -> [st EXCEPT !.lim = a[1]]
    [] e.op = "other" -> [st EXCEPT !.other = @ + 1]
    [] e.op = "stop" -> [st EXCEPT !.f = [x \in Slots |-> IF st.f[x] = "kept" THEN "kept" ELSE "none"], !.up = FALSE]
    \* a child that leaves one file in place
    [] e.op = "child" -> IF a[1] >= 1 /\ a[3] = 1 /\ Room(st, 1) THEN [st EXCEPT !.other = @ + 1] ELSE st
    [] OTHER -> st
Outcome(st, e) ==
  LET a == e.a IN
  CASE e.op \in {"file", "name"} -> IF Room(st, 1) THEN <<1, 1, 1, 1, 384, 1>> ELSE <<0>>
    [] e.op = "give" -> LET was == st.f[a[1]] IN
                        IF was = "gone" THEN <<IF a[2] = 1 THEN 0 ELSE 1, 1>> ELSE <<1, 1>>
    [] e.op = "threads" -> <<1, 1>>
    [] e.op = "forks" -> <<1, 1>>
    [] e.op = "child" -> <<IF Room(st, a[1]) THEN a[1] ELSE IF Room(st, 1) THEN st.lim - Used(st) - 1 ELSE 0>>
    [] OTHER -> <<1>>
TempFileStep(st, e) ==
  LET nx == Apply1(st, e)
      want == <<Outcome(st, e), Files(nx), 2>> \o (IF nx.up THEN <<Used(nx)>> ELSE <<>>)
  IN [ok |-> e.r = want, s |-> nx, want |-> want]
=============================================================================
