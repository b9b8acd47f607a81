----------------------------- MODULE EntropyGen -----------------------------
EXTENDS Entropy, Gen
Walk == IF Len(h) < Depth
        THEN \E all \in {EntropyOps(s)} : \E o \in {RandomElement(all)} :
               h' = Append(h, o) /\ s' = EntropyApply(s, o)
        ELSE Len(h) = Depth /\ h' = Append(h, 0) /\ s' = s
=============================================================================
