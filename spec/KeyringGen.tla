----------------------------- MODULE KeyringGen -----------------------------
(* Random histories of two to four workers.                                    *)
EXTENDS Integers, Sequences, TLC, Gen
KInit(x) == [g |-> <<>>, busy |-> <<>>, dead |-> {}]
Opt(c, q) == IF c THEN q ELSE <<>>
Rnd(n) == [k \in 1..n |-> RandomElement(0..255)] \o <<>>
Ids == {<<>>, <<0>>, <<1>>, <<1, 0>>, <<1, 2, 3>>, [k \in 1..32 |-> 7 * k], [k \in 1..32 |-> 7 * k + 1], [k \in 1..64 |-> 3 * k], <<171, 173, 172, 171>>}
KOps(st) ==
  IF st.g = <<>> THEN <<[op |-> "layout", a |-> RandomElement({<<1>>, <<1, 2>>, <<1, 2, 3>>, <<1, 1>>})]>>
  ELSE LET idle == {w \in 1..Len(st.g) : ~st.busy[w]}
           busy == {w \in 1..Len(st.g) : st.busy[w]}
           n == RandomElement({0, 0, 0, 5, 20})
       IN Opt(idle # {}, <<[op |-> "imp", a |-> <<RandomElement(idle), n, RandomElement(Ids), Rnd(RandomElement({0, 1, 16, 32, 100})), Rnd(RandomElement({0, 8, 16}))>>],
                          [op |-> "exp", a |-> <<RandomElement(idle), n, RandomElement(Ids)>>], [op |-> "exp", a |-> <<RandomElement(idle), 0, RandomElement(Ids)>>]>>)
          \o Opt(busy # {}, <<[op |-> "adv", a |-> <<RandomElement(busy), RandomElement({0, 1, 2, 5, 10})>>], [op |-> "adv", a |-> <<RandomElement(busy), 0>>]>>)
\* a call that was given a bounded number of steps may still be under way
KApply(st, o) == CASE o.op = "layout" -> [st EXCEPT !.g = o.a, !.busy = [k \in 1..Len(o.a) |-> FALSE]]
                   [] o.op = "adv" -> IF o.a[2] = 0 THEN [st EXCEPT !.busy[o.a[1]] = FALSE] ELSE st
                   [] OTHER -> [st EXCEPT !.busy[o.a[1]] = o.a[2] # 0]
=============================================================================
