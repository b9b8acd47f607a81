------------------------------- MODULE Random -------------------------------
(* Generators of random bytes.  Each generator hands out a stream of its own   *)
(* piece by piece; the stream does not depend on how the requests cut it.      *)
(* Generators started from the same (scripted) entropy share a stream, so what *)
(* one was seen to return binds the other; every other stretch of eight bytes  *)
(* ever returned, by any generator, thread or process, is a new one.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Gens == 1..3
RandomInit(cfg) == [gen |-> [g \in Gens |-> [on |-> FALSE, id |-> 0, pos |-> 0, key |-> -1, pid |-> 0, ppos |-> 0]],
                    ids |-> <<>>, know |-> <<>>, pids |-> <<>>, pknow |-> <<>>, seen |-> {}, key |-> -1, n |-> 0, far |-> {}]
Find(q, x) == IF \E i \in 1..Len(q) : q[i] = x THEN CHOOSE i \in 1..Len(q) : q[i] = x ELSE Len(q) + 1
Unknown(n) == [i \in 1..n |-> -1]
\* the windows of eight bytes of q that end after position p
Starts(q, p) == {i \in (IF p > 7 THEN p - 6 ELSE 1)..(Len(q) - 7) : \A j \in 0..7 : q[i + j] >= 0}
Windows(q, p) == {SubSeq(q, i, i + 7) : i \in Starts(q, p)}
Apply1(st, e) ==
  LET a == e.a IN
  CASE e.op = "new" ->
         LET id == IF a[3] = 0 THEN <<0, st.n>> ELSE <<a[3], a[2], IF st.key = -1 THEN 0 ELSE 1>>
             pid == IF st.key >= 0 THEN <<"key", st.key>> ELSE <<"own", id>>
             i == Find(st.ids, id)  k == Find(st.pids, pid) IN
         [st EXCEPT !.gen[a[1]] = [on |-> TRUE, id |-> i, pos |-> 0, key |-> st.key, pid |-> k, ppos |-> 0],
                    !.ids = IF i > Len(@) THEN Append(@, id) ELSE @, !.know = IF i > Len(@) THEN Append(@, <<>>) ELSE @,
                    !.pids = IF k > Len(@) THEN Append(@, pid) ELSE @, !.pknow = IF k > Len(@) THEN Append(@, <<>>) ELSE @, !.n = @ + 1]
    [] e.op = "destroy" -> [st EXCEPT !.gen[a[1]].on = FALSE]
    [] e.op = "secret" -> [st EXCEPT !.key = a[1]]
    [] e.op = "key" -> [st EXCEPT !.gen[a[1]].pos = @ + a[2]]
    [] e.op = "value" -> [st EXCEPT !.gen[a[1]].pos = @ + 8]
    [] e.op = "vary" -> [st EXCEPT !.gen[a[1]].pos = @ + 24 * a[2]]
    [] e.op = "threads" -> [st EXCEPT !.gen[a[1]].pos = @ + a[2] * a[3] * a[4]]
    [] e.op = "pseudo" -> [st EXCEPT !.gen[a[1]].ppos = @ + 1]
    [] OTHER -> st
\* the bytes r at position pos of what is known of a stream
Fits(kn, pos, r) == \A i \in 1..Len(r) : pos + i > Len(kn) \/ kn[pos + i] = -1 \/ r[i] = -1 \/ kn[pos + i] = r[i]
Learn(kn, pos, r) ==
  [i \in 1..(IF pos + Len(r) > Len(kn) THEN pos + Len(r) ELSE Len(kn)) |->
     IF i > pos /\ i <= pos + Len(r) /\ r[i - pos] >= 0 THEN r[i - pos] ELSE IF i <= Len(kn) THEN kn[i] ELSE -1]
New(kn, kn2) == {i \in 1..(Len(kn2) - 7) : (\A j \in 0..7 : kn2[i + j] >= 0) /\ (\E j \in 0..7 : i + j > Len(kn) \/ kn[i + j] = -1)}
RandomStep(st, e) ==
  LET a == e.a  nx == Apply1(st, e)
      took(r, ok) ==
        LET g == st.gen[a[1]]  kn == st.know[g.id]  k2 == Learn(kn, g.pos, r)
            new == New(kn, k2)  w == {SubSeq(k2, i, i + 7) : i \in new} IN
        IF ~ok THEN [ok |-> FALSE, s |-> nx, want |-> "a key of the length asked for"]
        ELSE IF ~Fits(kn, g.pos, r) THEN [ok |-> FALSE, s |-> nx, want |-> SubSeq(kn, g.pos + 1, Len(kn))]
        ELSE IF Cardinality(w) # Cardinality(new) \/ w \cap st.seen # {} THEN [ok |-> FALSE, s |-> nx, want |-> "fresh bytes"]
        ELSE [ok |-> TRUE, s |-> [nx EXCEPT !.know[g.id] = k2, !.seen = @ \cup w], want |-> "-"]
      fresh(pieces, s2) ==   \* pieces of exactly eight bytes
        LET w == {pieces[i] : i \in 1..Len(pieces)} IN
        IF (\A x \in w : Len(x) = 8) /\ Cardinality(w) = Len(pieces) /\ w \cap st.seen = {}
        THEN [ok |-> TRUE, s |-> [s2 EXCEPT !.seen = @ \cup w], want |-> "-"]
        ELSE [ok |-> FALSE, s |-> s2, want |-> "fresh bytes"]
      pseudo(k, p, v) ==     \* v is the p-th value of the k-th sequence
        LET kn == st.pknow[k] IN
        IF p <= Len(kn) THEN [ok |-> kn[p] = v, s |-> nx, want |-> kn[p]]
        ELSE IF v \in st.seen THEN [ok |-> FALSE, s |-> nx, want |-> "a fresh value"]
        ELSE [ok |-> TRUE, s |-> [nx EXCEPT !.pknow[k] = Append(@, v), !.seen = @ \cup {v}], want |-> "-"]
      is(v) == [ok |-> e.r = v, s |-> nx, want |-> v]
  IN
  CASE e.op = "key" -> took(e.r, Len(e.r) = a[2])
    [] e.op = "value" -> took(Unknown(8), e.r = 1)
    [] e.op = "vary" -> took(Unknown(24 * a[2]), e.r = 1)
    [] e.op = "threads" ->
         LET g == st.gen[a[1]] IN
         IF Len(e.r) # a[2] * a[3] \/ \E i \in 1..Len(e.r) : Len(e.r[i]) # 8 THEN [ok |-> FALSE, s |-> nx, want |-> "every piece"]
         ELSE fresh(e.r, [nx EXCEPT !.know[g.id] = Learn(@, g.pos, Unknown(a[2] * a[3] * a[4]))])
    [] e.op = "procs" -> IF Len(e.r) # a[1] * 2 THEN [ok |-> FALSE, s |-> nx, want |-> "every piece"] ELSE fresh(e.r, nx)
    [] e.op = "pseudo" ->
         IF Len(e.r) # 2 \/ e.r[1] # 1 THEN [ok |-> FALSE, s |-> nx, want |-> "a value in [0,1)"]
         ELSE pseudo(st.gen[a[1]].pid, st.gen[a[1]].ppos + 1, e.r[2])
    [] e.op = "pchild" ->    \* another process, same secret key
         LET k == Find(st.pids, <<"key", a[1]>>) IN
         [ok |-> k > Len(st.pids) \/ (Len(e.r) = 5 /\ \A i \in 1..5 : i > Len(st.pknow[k]) \/ e.r[i] = st.pknow[k][i]), s |-> nx,
          want |-> IF k > Len(st.pids) THEN "anything" ELSE st.pknow[k]]
    [] e.op = "far" ->       \* the first a[3] bytes of a stream, a[4] at a time
         IF Len(e.r) # 2 \/ e.r[1] # 1 THEN [ok |-> FALSE, s |-> nx, want |-> "fresh bytes"]
         ELSE LET old == {x \in st.far : SubSeq(x[1], 1, 3) = SubSeq(a, 1, 3)} IN
              [ok |-> \A x \in old : x[2] = e.r[2], s |-> [nx EXCEPT !.far = @ \cup {<<a, e.r[2]>>}], want |-> {x[2] : x \in old}]
    [] e.op = "getsecret" -> is(st.gen[a[1]].key)
    [] OTHER -> is(1)
=============================================================================
