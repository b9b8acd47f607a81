----------------------------- MODULE Reservoir -----------------------------
(* The entropy reservoir kept from one process to the next.  Whatever became   *)
(* of it, a generator can be made and its bytes are new; what is then stored   *)
(* is new as well.  Where nothing can be stored (blocked) making a generator   *)
(* may be refused, but the program goes on.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
ReservoirInit(cfg) == [blocked |-> FALSE, keys |-> {}, stored |-> {}]
Apply1(st, e) ==
  CASE e.op = "damage" -> [st EXCEPT !.blocked = e.a[1] \in {"directory", "nohome", "dangling"}]
    [] OTHER -> st
ReservoirStep(st, e) ==
  LET nx == Apply1(st, e) IN
  CASE e.op = "use" ->
         LET r == e.r IN
         IF r[1] = 1
         THEN [ok |-> Len(r[2]) = 8 /\ r[2] \notin st.keys /\ (st.blocked \/ (Len(r[3]) > 40 /\ r[3] \notin st.stored)),
               s |-> [nx EXCEPT !.keys = @ \cup {r[2]}, !.stored = @ \cup {r[3]}], want |-> "fresh bytes, fresh reservoir"]
         ELSE [ok |-> st.blocked /\ r[1] = 0, s |-> nx, want |-> "a generator"]
    [] OTHER -> [ok |-> e.r = 1, s |-> nx, want |-> 1]
=============================================================================
