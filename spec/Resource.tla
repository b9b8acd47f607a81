------------------------------ MODULE Resource ------------------------------
(* Amounts in use of each kind of resource against their limits, and memory    *)
(* that is charged to one kind or another.  An amount is <<hi, lo>>, hi times  *)
(* 2^40 plus lo; a limit of <<-1, 0>> is none.  Kinds: 1 memory, 2 mapped      *)
(* memory, 3 disk, 4 files, 5 area (a bound on each request by itself).        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Kinds == 1..4
Less(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
Plus(x, y) == <<x[1] + y[1], x[2] + y[2]>>
Minus(x, y) == <<x[1] - y[1], x[2] - y[2]>>
None == <<-1, 0>>
\* amounts of 2^63 and more cannot be counted
Fits(st, k, x) ==
  /\ k = 5 \/ st.use[k][1] + x[1] < 8388608
  /\ st.lim[k] = None \/ Less(Plus(IF k = 5 THEN <<0, 0>> ELSE st.use[k], x), st.lim[k])
ResourceInit(cfg) == [use |-> [k \in Kinds |-> <<0, 0>>], lim |-> [k \in 1..5 |-> None], held |-> <<>>, vm |-> [i \in 1..4 |-> <<>>]]
\* what a block of memory may be charged to
Charges(st, n) ==
  LET x == <<0, n>>  zero == <<0, 0>> IN
  IF Fits(st, 1, x) THEN {<<x, zero, zero, zero>>}
  ELSE IF Fits(st, 2, x) THEN {<<zero, x, zero, zero>>}
                              \cup (IF Fits(st, 3, x) /\ Fits(st, 4, <<0, 1>>) THEN {<<zero, x, x, <<0, 1>>>>} ELSE {})
                              \cup {<<zero, zero, zero, zero>>}
  ELSE {<<zero, zero, zero, zero>>}
AddAll(use, c) == [k \in Kinds |-> Plus(use[k], c[k])]
SubAll(use, c) == [k \in Kinds |-> Minus(use[k], c[k])]
\* only what was granted is given back
Held(st, a) == \E j \in 1..Len(st.held) : st.held[j] = <<a[1], <<a[2], a[3]>>>>
Del(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Apply1(st, e) ==
  LET a == e.a IN
  CASE e.op = "limit" -> [st EXCEPT !.lim[a[1]] = <<a[2], a[3]>>]
    [] e.op = "acquire" -> IF a[1] < 5 /\ Fits(st, a[1], <<a[2], a[3]>>)
                           THEN [st EXCEPT !.use[a[1]] = Plus(@, <<a[2], a[3]>>), !.held = Append(@, <<a[1], <<a[2], a[3]>>>>)] ELSE st
    [] e.op = "release" /\ Held(st, a) -> LET i == CHOOSE j \in 1..Len(st.held) : st.held[j] = <<a[1], <<a[2], a[3]>>>> IN
                           [st EXCEPT !.use[a[1]] = Minus(@, <<a[2], a[3]>>), !.held = Del(@, i)]
    [] e.op = "vmem" -> IF a[2] = 0 \/ a[3] = 0 THEN st
                        ELSE LET c == CHOOSE x \in Charges(st, a[2] * a[3]) : TRUE IN [st EXCEPT !.use = AddAll(@, c), !.vm[a[1]] = c]
    [] e.op = "vfree" -> [st EXCEPT !.use = SubAll(@, st.vm[a[1]]), !.vm[a[1]] = <<>>]
    [] OTHER -> st
\* every answer is the outcome followed by the amounts in use
ResourceStep(st, e) ==
  LET a == e.a  nx == Apply1(st, e)
      is(v) == [ok |-> e.r = <<v, nx.use>>, s |-> nx, want |-> <<v, nx.use>>]
  IN
  CASE e.op = "acquire" -> is(IF Fits(st, a[1], <<a[2], a[3]>>) THEN 1 ELSE 0)
    [] e.op = "limit" -> [ok |-> e.r = <<<<a[2], a[3]>>, nx.use>>, s |-> nx, want |-> nx]
    [] e.op = "vmem" ->
         IF a[2] = 0 \/ a[3] = 0 THEN [ok |-> e.r[2] = st.use, s |-> st, want |-> st.use]
         ELSE LET fit == {c \in Charges(st, a[2] * a[3]) : e.r = <<1, AddAll(st.use, c)>>} IN
              IF fit = {} THEN [ok |-> FALSE, s |-> nx, want |-> {AddAll(st.use, c) : c \in Charges(st, a[2] * a[3])}]
              ELSE LET c == CHOOSE x \in fit : TRUE IN [ok |-> TRUE, s |-> [st EXCEPT !.use = AddAll(@, c), !.vm[a[1]] = c], want |-> "-"]
    [] e.op = "vhuge" -> is(0)
    [] e.op = "release" -> is(IF Held(st, a) THEN 1 ELSE 2)
    [] OTHER -> is(1)
=============================================================================
