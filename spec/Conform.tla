------------------------------ MODULE Conform ------------------------------
(* Trace validation for deterministic components.  Each recorded trace is   *)
(* one initial state; each event must be the specification's answer to the  *)
(* operation it records.  A trace that the specification refuses is printed *)
(* with the position and the answer the specification wanted.               *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS Init0(_),     \* initial state of the component, from the trace's cfg
          Step(_, _)    \* (state, event) -> [ok, s, want]
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, s
CInit == /\ t \in 1..Len(Traces)
         /\ i = 0
         /\ s = Init0(Traces[t].cfg)
CNext == /\ i >= 0
         /\ i < Len(Traces[t].ev)
         /\ LET e == Traces[t].ev[i + 1] IN
              IF e.x # 0
              THEN /\ PrintT("@R" \o ToJson(<<Traces[t].id, i + 1, "no answer">>))
                   /\ i' = -1 /\ s' = s
              ELSE LET r == Step(s, e) IN
                     IF r.ok
                     THEN i' = i + 1 /\ s' = r.s
                     ELSE /\ PrintT("@R" \o ToJson(<<Traces[t].id, i + 1, ToString(r.want)>>))
                          /\ i' = -1 /\ s' = s
         /\ t' = t
=============================================================================
