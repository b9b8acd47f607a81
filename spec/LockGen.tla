------------------------------ MODULE LockGen ------------------------------
(* Random schedules of up to four workers in one to three processes.           *)
EXTENDS Integers, Sequences, TLC, Gen
LockGenInit(x) == [g |-> <<>>, dead |-> {}]
Layouts == {<<1, 2, 3>>, <<1, 2, 3, 4>>, <<1, 1, 2>>, <<1, 1, 2, 2>>, <<1, 1, 1>>, <<1, 2, 2, 3>>}
Opt(c, q) == IF c THEN q ELSE <<>>
LockGenOps(st) ==
  IF st.g = <<>> THEN <<[op |-> "layout", a |-> RandomElement(Layouts)]>>
  ELSE LET live == {w \in 1..Len(st.g) : st.g[w] \notin st.dead}
           A(w, n) == [op |-> "adv", a |-> <<w, n, IF RandomElement(1..6) = 1 THEN 1 ELSE 0>>]
       IN <<A(RandomElement(live), RandomElement(1..3)), A(RandomElement(live), RandomElement(1..12)), A(RandomElement(live), RandomElement({0, 8, 12, 16}))>>
          \o Opt(\E w \in live : \E v \in live : st.g[w] # st.g[v] /\ RandomElement(1..5) = 1, <<[op |-> "kill", a |-> <<st.g[RandomElement(live)]>>]>>)
LockGenApply(st, o) == CASE o.op = "layout" -> [st EXCEPT !.g = o.a]
                        [] o.op = "kill" -> IF \E w \in 1..Len(st.g) : st.g[w] \notin st.dead \cup {o.a[1]} THEN [st EXCEPT !.dead = @ \cup {o.a[1]}] ELSE st
                        [] OTHER -> st
=============================================================================
