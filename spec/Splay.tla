-------------------------------- MODULE Splay --------------------------------
(* The splay tree: an ordered map owning its keys and values, with an         *)
(* iterator, and a second tree made by cloning.                               *)
(*   m    the map: key -> <<key object, value object>>                        *)
(*   nx   the key the iteration delivers next; 0: none left                   *)
(*   it   whether the iteration is determined: adding a key, or removing one  *)
(*        not delivered yet, leaves it undetermined until the next reset      *)
(*   b    the other tree, with the same fields, or <<>>                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Keys, KeyObjs, ValObjs, Kinds, Clones
Empty == [k \in {} |-> <<0, 0>>]
LOCAL Tree(m) == [m |-> m, nx |-> 0, it |-> TRUE]
SplayInit(cfg) == [up |-> FALSE, t |-> Tree(Empty), b |-> <<>>]
KObj(k, i) == k * 10 + i
VObj(k, i) == 1000000 + k * 10 + i
LOCAL Put(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
LOCAL Del(m, k) == [x \in DOMAIN m \ {k} |-> m[x]]
LOCAL MinOf(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : x <= y
LOCAL After(m, k) == MinOf({x \in DOMAIN m : x > k})
\* keys in ascending order
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE LET x == MinOf(S) IN <<x>> \o Asc(S \ {x})
RECURSIVE Flat(_, _)
Flat(m, D) == IF D = {} THEN <<>>
              ELSE LET k == CHOOSE x \in D : TRUE IN m[k] \o Flat(m, D \ {k})
LOCAL Ans(s, r, rel) == [s |-> s, r |-> r, rel |-> rel]
LOCAL Without(s, k) == [s EXCEPT !.t.m = Del(@, k),
                                 !.t.it = @ /\ (s.t.nx = 0 \/ k < s.t.nx)]
\* the key holding that value object, or 0
LOCAL KeyOf(m, v) == MinOf({k \in DOMAIN m : m[k][2] = v})

SplayDo(s, o) ==
  LET m == s.t.m IN
  CASE o.op = "new" -> Ans([up |-> TRUE, t |-> Tree(Empty), b |-> <<>>], 0, <<>>)
    [] o.op = "add" ->
         LET k == o.a[1] IN
         Ans([s EXCEPT !.t.m = Put(@, k, <<KObj(k, o.a[2]), VObj(k, o.a[3])>>), !.t.it = FALSE],
             1, IF k \in DOMAIN m THEN m[k] ELSE <<>>)
    [] o.op = "get" -> Ans(s, IF o.a[1] \in DOMAIN m THEN m[o.a[1]][2] ELSE 0, <<>>)
    [] o.op = "remove" ->      \* releases the key, returns the value
         IF o.a[1] \in DOMAIN m
         THEN Ans(Without(s, o.a[1]), m[o.a[1]][2], <<m[o.a[1]][1]>>) ELSE Ans(s, 0, <<>>)
    [] o.op = "delete" ->      \* releases both
         IF o.a[1] \in DOMAIN m
         THEN Ans(Without(s, o.a[1]), 1, m[o.a[1]]) ELSE Ans(s, 0, <<>>)
    [] o.op = "removeval" ->   \* releases the value, returns the key
         LET k == KeyOf(m, VObj(o.a[1], o.a[2])) IN
         IF k # 0 THEN Ans(Without(s, k), m[k][1], <<m[k][2]>>) ELSE Ans(s, 0, <<>>)
    [] o.op = "deleteval" ->
         LET k == KeyOf(m, VObj(o.a[1], o.a[2])) IN
         IF k # 0 THEN Ans(Without(s, k), 1, m[k]) ELSE Ans(s, 0, <<>>)
    [] o.op = "reset" -> Ans([s EXCEPT !.t.nx = MinOf(DOMAIN m), !.t.it = TRUE], 0, <<>>)
    [] o.op = "nextkey" ->
         IF s.t.nx = 0 THEN Ans(s, 0, <<>>)
         ELSE Ans([s EXCEPT !.t.nx = After(m, @)], m[s.t.nx][1], <<>>)
    [] o.op = "nextval" ->
         IF s.t.nx = 0 THEN Ans(s, 0, <<>>)
         ELSE Ans([s EXCEPT !.t.nx = After(m, @)], m[s.t.nx][2], <<>>)
    [] o.op = "walk" ->        \* a whole iteration over keys and one over values
         LET q == Asc(DOMAIN m) IN
         Ans([s EXCEPT !.t.nx = 0, !.t.it = TRUE],
             [j \in 1..Len(q) |-> m[q[j]]], <<>>)
    [] o.op = "clone" ->
         Ans([s EXCEPT !.b = <<Tree(m)>>], 0, IF s.b = <<>> THEN <<>> ELSE Flat(s.b[1].m, DOMAIN s.b[1].m))
    [] o.op = "swap" -> Ans([s EXCEPT !.t = s.b[1], !.b = <<s.t>>], 0, <<>>)
    [] o.op = "empty" -> Ans([s EXCEPT !.t = Tree(Empty)], 0, Flat(m, DOMAIN m))
    [] o.op = "destroy" -> Ans(SplayInit(0), 0, Flat(m, DOMAIN m) \o
                               (IF s.b = <<>> THEN <<>> ELSE Flat(s.b[1].m, DOMAIN s.b[1].m)))

LOCAL Count(q, x) == Cardinality({j \in 1..Len(q) : q[j] = x})
LOCAL SameBag(p, q) == Len(p) = Len(q) /\ \A j \in 1..Len(p) : Count(p, p[j]) = Count(q, p[j])
SplayStep(s, e) ==
  LET d == SplayDo(s, e)
      n == Cardinality(DOMAIN d.s.t.m)
  IN [ok |-> e.r[1] = d.r /\ e.r[2] = n /\ SameBag(e.r[3], d.rel), s |-> d.s, want |-> <<d.r, n, d.rel>>]
SplayApply(s, o) == SplayDo(s, o).s

SplayOps(s) ==
  IF ~s.up THEN {[op |-> "new", a |-> <<f>>] : f \in Kinds}
  ELSE {[op |-> "add", a |-> <<k, i, v>>] : k \in Keys, i \in KeyObjs, v \in ValObjs}
       \cup {[op |-> x, a |-> <<k>>] : x \in {"get", "remove", "delete"}, k \in Keys}
       \cup {[op |-> x, a |-> <<k, v>>] : x \in {"removeval", "deleteval"}, k \in Keys, v \in ValObjs}
       \cup {[op |-> x, a |-> <<>>] : x \in {"reset", "empty"} \cup (IF ~Clones THEN {} ELSE IF s.b = <<>> THEN {"clone"} ELSE {"clone", "swap"})}
       \cup (IF s.t.it THEN {[op |-> x, a |-> <<>>] : x \in {"nextkey", "nextval"}} ELSE {})
\* long walks: one candidate of each kind; the tree is rarely emptied
SplayOpsW(s) ==
  IF ~s.up THEN {[op |-> "new", a |-> <<f>>] : f \in Kinds}
  ELSE LET R(S) == RandomElement(S) IN
       {[op |-> "add", a |-> <<R(Keys), R(KeyObjs), R(ValObjs)>>],
        [op |-> "get", a |-> <<R(Keys)>>], [op |-> "walk", a |-> <<>>],
        [op |-> R({"remove", "delete"}), a |-> <<R(Keys)>>],
        [op |-> R({"removeval", "deleteval"}), a |-> <<R(Keys), R(ValObjs)>>],
        [op |-> "reset", a |-> <<>>]}
       \cup (IF R(1..4) = 1 THEN {[op |-> R(IF s.b = <<>> THEN {"clone"} ELSE {"clone", "swap"}), a |-> <<>>]} ELSE {})
       \cup (IF R(1..30) = 1 THEN {[op |-> "empty", a |-> <<>>]} ELSE {})
       \cup (IF s.t.it THEN {[op |-> x, a |-> <<>>] : x \in {"nextkey", "nextval"}} ELSE {})
SplayTypeOK(s) == s.t.it => (s.t.nx = 0 \/ s.t.nx \in DOMAIN s.t.m)
=============================================================================
