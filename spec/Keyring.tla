------------------------------- MODULE Keyring -------------------------------
(* A key ring shared by processes: a persistent map from identifiers to a key    *)
(* and a nonce that only grows.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Find(m, id) == {x \in m : x[1] = id}
Effects(m, op, lax) ==
  (IF lax THEN {<<<<"no">>, m>>} ELSE {}) \cup
  CASE op[1] = "imp" -> IF Find(m, op[2]) = {} THEN {<<<<"yes">>, m \cup {<<op[2], op[3], op[4]>>}>>} ELSE {<<<<"no">>, m>>}
    [] op[1] = "exp" -> IF Find(m, op[2]) = {} THEN {<<<<"no">>, m>>} ELSE {<<<<"key", x[2], x[3]>>, m>> : x \in Find(m, op[2])}
L == INSTANCE Linear
KeyringInit(cfg) == [g |-> <<>>, l |-> L!LInit({}, 1), fault |-> 0]
KeyringStep(s, e) ==
  LET a == e.a  r == e.r
      Res(ok, t, want) == [ok |-> ok, s |-> t, want |-> want]
      w == a[1]
      Ret(l) ==   \* the call of w answered
        LET v == IF r[2] = 1 /\ l.pend[w][1] = "exp" THEN <<"key", r[3], r[4]>> ELSE IF r[2] = 1 THEN <<"yes">> ELSE <<"no">>
            t == L!Return(l, w, v)
        IN Res(t.confs # {}, [s EXCEPT !.l = t, !.fault = IF s.fault = w THEN 0 ELSE @],
               <<"one of", UNION {{c.res[w]} : c \in L!Closure(l)} \ {L!NotYet}>>)
      After(l) == IF r = <<>> THEN Res(TRUE, [s EXCEPT !.l = l], "")
                  ELSE IF r[1] = "ret" THEN Ret(l) ELSE Res(FALSE, s, "no death")
  IN
  CASE e.op = "layout" -> Res(r = 0, [s EXCEPT !.g = a, !.l = L!LInit({}, Len(a))], 0)
    \* the n-th write of the next call of w fails (kinds 1, 2), is short (3) or is interrupted (4)
    [] e.op = "fault" -> Res(r = 0, [s EXCEPT !.fault = IF a[3] <= 2 THEN w ELSE 0], 0)
    \* a worker still waiting for another one takes no new call
    [] e.op \in {"imp", "exp"} /\ r = <<"busy">> -> Res(s.l.pend[w] # L!NoOp, s, "an answer")
    [] e.op \in {"imp", "exp"} -> After(L!Call(s.l, w, IF e.op = "imp" THEN <<"imp", a[3], a[4], a[5]>> ELSE <<"exp", a[3]>>, s.fault = w))
    [] e.op = "adv" -> After(s.l)
    [] e.op = "kill" ->
         LET ws == {v \in 1..Len(s.g) : s.g[v] = a[1]}
             RECURSIVE K(_, _)
             K(l, v) == IF v > Len(s.g) THEN l ELSE K(IF v \in ws THEN L!Die(l, v) ELSE l, v + 1)
         IN Res(r = 0, [s EXCEPT !.l = K(s.l, 1)], 0)
=============================================================================
