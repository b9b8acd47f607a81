------------------------------- MODULE Hashmap -------------------------------
(* The hash map: a finite map from keys to values, owning its keys and        *)
(* values.                                                                    *)
(*   m     the map: key -> <<key object, value object>>                       *)
(*   left  the keys the running iteration has still to deliver                *)
(*   it    whether the iteration is determined (not after a put until the     *)
(*         next reset); look-ups and removals leave it intact                 *)
(* Keys are numbered; several key objects may be equal as keys.  An answer is *)
(* <<result, number of entries, emptiness, objects released by the call>>.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Keys, KeyObjs, ValObjs, Hashes, Caps
Empty == [k \in {} |-> <<0, 0>>]
HashmapInit(cfg) == [up |-> FALSE, m |-> Empty, left |-> {}, it |-> FALSE]
KObj(k, i) == k * 10 + i
VObj(k, i) == 1000000 + k * 10 + i
LOCAL Put(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
LOCAL Del(m, k) == [x \in DOMAIN m \ {k} |-> m[x]]
\* what the call must answer: result, contents afterwards, objects released
LOCAL Ans(s, r, rel) == [s |-> s, r |-> r, rel |-> rel]

HashmapDo(s, o) ==
  CASE o.op = "new" -> Ans([up |-> TRUE, m |-> Empty, left |-> {}, it |-> TRUE], 0, <<>>)
    [] o.op = "put" ->
         LET k == o.a[1]
             e == <<KObj(k, o.a[2]), VObj(k, o.a[3])>>
             s2 == [s EXCEPT !.m = Put(@, k, e), !.left = {}, !.it = FALSE]
         IN Ans(s2, 1, IF k \in DOMAIN s.m THEN s.m[k] ELSE <<>>)
    [] o.op \in {"putnokey", "putnoval"} -> Ans(s, 0, <<>>)
    [] o.op = "get" -> Ans(s, IF o.a[1] \in DOMAIN s.m THEN s.m[o.a[1]][2] ELSE 0, <<>>)
    [] o.op = "remove" ->
         IF o.a[1] \in DOMAIN s.m
         THEN Ans([s EXCEPT !.m = Del(@, o.a[1]), !.left = @ \ {o.a[1]}],
                  s.m[o.a[1]][2], <<s.m[o.a[1]][1]>>)
         ELSE Ans(s, 0, <<>>)
    [] o.op = "reset" -> Ans([s EXCEPT !.left = DOMAIN s.m, !.it = TRUE], 0, <<>>)
    [] o.op \in {"nextkey", "nextval"} ->
         \* any entry not delivered yet; the generator takes one of them
         IF s.left = {} THEN Ans(s, 0, <<>>)
         ELSE LET k == CHOOSE x \in s.left : TRUE IN Ans([s EXCEPT !.left = @ \ {k}], k, <<>>)
    [] o.op = "dump" -> Ans(s, [k \in 1..o.a[1] |-> IF k \in DOMAIN s.m THEN s.m[k][2] ELSE 0], <<>>)
    [] o.op = "destroy" -> Ans([s EXCEPT !.up = FALSE, !.m = Empty, !.left = {}, !.it = FALSE], 0, <<>>)

\* equal as bags
LOCAL Count(q, x) == Cardinality({j \in 1..Len(q) : q[j] = x})
LOCAL SameBag(p, q) == Len(p) = Len(q) /\ \A j \in 1..Len(p) : Count(p, p[j]) = Count(q, p[j])
RECURSIVE Flat(_, _)
Flat(m, D) == IF D = {} THEN <<>>
                    ELSE LET k == CHOOSE x \in D : TRUE IN m[k] \o Flat(m, D \ {k})

HashmapStep(s, e) ==
  LET d == HashmapDo(s, e)
      n == Cardinality(DOMAIN d.s.m)
      frame(r, s2, rel) == /\ e.r[2] = Cardinality(DOMAIN s2.m)
                           /\ e.r[3] = (IF DOMAIN s2.m = {} THEN 1 ELSE 0)
                           /\ SameBag(e.r[4], rel)
  IN CASE e.op = "nextkey" ->
            \* the answer is a key object of an entry not delivered yet
            LET C == {k \in s.left : s.m[k][1] = e.r[1]} IN
            [ok |-> (IF s.left = {} THEN e.r[1] = 0 ELSE C # {}) /\ frame(0, s, <<>>),
             s |-> [s EXCEPT !.left = @ \ C], want |-> <<"a key of", s.left, n>>]
       [] e.op = "nextval" ->
            LET C == {k \in s.left : s.m[k][2] = e.r[1]} IN
            [ok |-> (IF s.left = {} THEN e.r[1] = 0 ELSE C # {}) /\ frame(0, s, <<>>),
             s |-> [s EXCEPT !.left = @ \ C],
             want |-> <<"a value of", s.left, n>>]
       [] e.op = "destroy" ->
            LET rel == Flat(s.m, DOMAIN s.m) IN
            [ok |-> e.r[1] = 0 /\ SameBag(e.r[4], rel), s |-> d.s, want |-> <<0, 0, 1, rel>>]
       [] OTHER ->
            [ok |-> e.r[1] = d.r /\ frame(0, d.s, d.rel), s |-> d.s,
             want |-> <<d.r, n, IF n = 0 THEN 1 ELSE 0, d.rel>>]
HashmapApply(s, o) == HashmapDo(s, o).s

HashmapOps(s) ==
  IF ~s.up THEN {[op |-> "new", a |-> <<c, f>>] : c \in Caps, f \in Hashes}
  ELSE {[op |-> "put", a |-> <<k, i, v>>] : k \in Keys, i \in KeyObjs, v \in ValObjs}
       \cup {[op |-> x, a |-> <<k>>] : x \in {"get", "remove"}, k \in Keys}
       \cup {[op |-> x, a |-> <<>>] : x \in {"reset", "destroy", "putnokey", "putnoval"}}
       \cup (IF s.it THEN {[op |-> x, a |-> <<>>] : x \in {"nextkey", "nextval"}} ELSE {})
\* for the long walks: one candidate of each kind, with puts preferred
HashmapOpsW(s) ==
  IF ~s.up THEN {[op |-> "new", a |-> <<c, f>>] : c \in Caps, f \in Hashes}
  ELSE LET R(S) == RandomElement(S) IN
       {[op |-> "put", a |-> <<R(Keys), R(KeyObjs), R(ValObjs)>>],
        [op |-> "get", a |-> <<R(Keys)>>],
        [op |-> "remove", a |-> <<R(Keys)>>],
        [op |-> "reset", a |-> <<>>]}
       \cup (IF s.it THEN {[op |-> x, a |-> <<>>] : x \in {"nextkey", "nextval"}} ELSE {})
HashmapTypeOK(s) == s.left \subseteq DOMAIN s.m /\ (~s.up => s.m = Empty)
=============================================================================
