------------------------------- MODULE Linear -------------------------------
(* Concurrent histories of one shared object, checked by keeping every way its  *)
(* calls may have taken effect.  A configuration is [m, res]: the state of the   *)
(* object and, for each worker, the answer its pending call got when it took     *)
(* effect (or "?").  Effects(m, op, lax) gives the possible <<answer, m'>>; lax  *)
(* says the call had company or a fault, in which case it may be refused.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Effects(_, _, _)
NotYet == <<"?">>
NoOp == <<"none">>
LInit(m, n) == [pend |-> [w \in 1..n |-> NoOp], lax |-> [w \in 1..n |-> FALSE], gone |-> {}, confs |-> {[m |-> m, res |-> [w \in 1..n |-> NotYet]]}]
Workers(s) == DOMAIN s.pend
Busy(s) == {w \in Workers(s) : s.pend[w] # NoOp}
One(s, c) == UNION {{[m |-> x[2], res |-> [c.res EXCEPT ![w] = x[1]]] : x \in Effects(c.m, s.pend[w], s.lax[w])}
                    : w \in {v \in Busy(s) : c.res[v] = NotYet}}
RECURSIVE Close(_, _, _)
Close(s, done, new) == IF new = {} THEN done
                       ELSE LET more == UNION {One(s, c) : c \in new} \ done IN Close(s, done \cup more, more)
Closure(s) == Close(s, s.confs, s.confs)
\* company: whoever is under way when another one is, may be refused
Company(s) == IF Cardinality(Busy(s)) > 1 THEN [s EXCEPT !.lax = [w \in Workers(s) |-> s.lax[w] \/ w \in Busy(s)]] ELSE s
Call(s, w, op, faulty) == Company([s EXCEPT !.pend[w] = op, !.lax[w] = faulty])
Return(s, w, r) == LET good == {c \in Closure(s) : c.res[w] = r} IN
                   [s EXCEPT !.pend[w] = NoOp, !.lax[w] = FALSE, !.confs = {[c EXCEPT !.res[w] = NotYet] : c \in good}]
\* a worker that died: its pending call took effect or not, and never will again
Die(s, w) == IF s.pend[w] = NoOp THEN [s EXCEPT !.gone = @ \cup {w}]
             ELSE [s EXCEPT !.pend[w] = NoOp, !.lax[w] = FALSE, !.gone = @ \cup {w},
                            !.confs = {[c EXCEPT !.res[w] = NotYet] : c \in Closure(s)}]
=============================================================================
