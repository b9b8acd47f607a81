-------------------------------- MODULE Lock --------------------------------
(* Files open for exclusive use.  Workers are threads; g[w] is the process of   *)
(* worker w.  A worker holds the file from the moment its acquisition answered  *)
(* until it begins to release.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
LockInit(cfg) == [g |-> <<>>, st |-> <<>>, depth |-> <<>>, seen |-> <<>>, dead |-> {}]
Live(s, v) == s.g[v] \notin s.dead
Holds(s, v) == Live(s, v) /\ s.depth[v] > 0
Active(s, v) == Live(s, v) /\ (s.st[v] # "idle" \/ s.depth[v] > 0)
Others(s, w) == 1..Len(s.g) \ {w}
\* whoever is trying now has seen another one at it
Mark(s) == [s EXCEPT !.seen = [v \in 1..Len(s.g) |-> s.seen[v] \/ \E u \in Others(s, v) : Active(s, u)]]
One(s, w, l) ==      \* [ok, s] after the label l of worker w
  CASE l = "acq?" -> [ok |-> s.st[w] = "idle", s |-> Mark([s EXCEPT !.st[w] = "acq", !.seen[w] = FALSE])]
    [] l = "rel?" -> [ok |-> s.st[w] = "idle" /\ s.depth[w] > 0, s |-> Mark([s EXCEPT !.st[w] = "rel", !.depth[w] = @ - 1])]
    [] l = "acq!" -> [ok |-> s.st[w] = "acq" /\ ~\E v \in Others(s, w) : Holds(s, v),
                      s |-> Mark([s EXCEPT !.st[w] = "idle", !.depth[w] = @ + 1])]
    \* refused only because of somebody alive
    [] l = "no!" -> [ok |-> s.st[w] = "acq" /\ (s.seen[w] \/ s.depth[w] > 0), s |-> [s EXCEPT !.st[w] = "idle"]]
    [] l = "rel!" -> [ok |-> s.st[w] = "rel", s |-> [s EXCEPT !.st[w] = "idle"]]
    [] OTHER -> [ok |-> FALSE, s |-> s]
LockStep(s, e) ==
  LET a == e.a
      Res(ok, t, want) == [ok |-> ok, s |-> t, want |-> want]
  IN
  CASE e.op = "layout" -> LET n == Len(a) IN
         Res(e.r = 0, [g |-> a, st |-> [k \in 1..n |-> "idle"], depth |-> [k \in 1..n |-> 0], seen |-> [k \in 1..n |-> FALSE], dead |-> {}], 0)
    [] e.op = "kill" -> Res(e.r = 0, [s EXCEPT !.dead = @ \cup {a[1]}], 0)
    [] e.op = "adv" ->
         LET w == a[1]  q == e.r
             one == One(s, w, q[1])
             two == One(one.s, w, q[2])
             want == <<"exclusive use", [holders |-> {v \in 1..Len(s.g) : Holds(s, v)}, state |-> s.st, dead |-> s.dead]>>
         IN IF q = <<>> THEN Res(TRUE, s, "")
            ELSE IF Len(q) = 1 THEN Res(one.ok, one.s, want)
            ELSE Res(one.ok /\ two.ok, two.s, want)
=============================================================================
