----------------------------- MODULE StreamGen -----------------------------
EXTENDS Stream, Gen
\* every step draws an object and then one of the operations it allows
Walk == IF Len(h) < Depth
        THEN \E all \in {StreamOps(s)} : \E o \in {RandomElement(all)} :
               h' = Append(h, o) /\ s' = StreamApply(s, o)
        ELSE Len(h) = Depth /\ h' = Append(h, 0) /\ s' = s
=============================================================================
