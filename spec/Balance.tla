------------------------------ MODULE Balance ------------------------------
(* What is in use: each live object holds some memory and descriptors, and a   *)
(* call that makes nothing to be kept holds none.  Whenever no object is live, *)
(* what is in use is what it was the last time none was.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Slots == 0..3
BalanceInit(cfg) == [live |-> {}, kind |-> [i \in Slots |-> 0], base |-> <<>>]
Apply1(st, e) ==
  CASE e.op = "new" -> [st EXCEPT !.live = @ \cup {e.a[1]}, !.kind[e.a[1]] = e.a[2]]
    [] e.op = "free" -> [st EXCEPT !.live = @ \ {e.a[1]}]
    [] OTHER -> st
BalanceStep(st, e) ==
  LET nx == Apply1(st, e) IN
  CASE e.op = "mark" ->
         [ok |-> st.live = {} /\ st.base \in {<<>>, e.r}, s |-> [nx EXCEPT !.base = e.r], want |-> st.base]
    [] OTHER -> [ok |-> e.r = 1, s |-> nx, want |-> 1]
=============================================================================
