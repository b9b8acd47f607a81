-------------------------------- MODULE Gen --------------------------------
(* Generation of behaviours from a component specification: random walks    *)
(* (-simulate), all histories up to a depth, or one shortest history per    *)
(* (state, operation) pair.                                                 *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS Init0(_), Ops(_), Apply(_, _), Depth
VARIABLES s, h
GInit == /\ s = Init0(0) /\ h = <<>>
\* random walks: the kind of operation first, then its arguments, so that
\* operations with many arguments do not crowd out the others
GWalk == IF Len(h) < Depth
         THEN \E all \in {Ops(s)} :
              \E kind \in {RandomElement({o.op : o \in all})} :
              \E o \in {RandomElement({x \in all : x.op = kind})} :
                h' = Append(h, o) /\ s' = Apply(s, o)
         ELSE Len(h) = Depth /\ h' = Append(h, 0) /\ s' = s
\* random walks over operations of many shapes: Ops gives them as a sequence
GPick == IF Len(h) < Depth
         THEN \E q \in {Ops(s)} : \E k \in {RandomElement(1..Len(q))} : \E o \in {q[k]} :
                h' = Append(h, o) /\ s' = Apply(s, o)
         ELSE Len(h) = Depth /\ h' = Append(h, 0) /\ s' = s
GNext == IF Len(h) < Depth
         THEN \E o \in Ops(s) : h' = Append(h, o) /\ s' = Apply(s, o)
         ELSE Len(h) = Depth /\ h' = Append(h, 0) /\ s' = s
\* random walks and exhaustive histories: emit the history when it is full
\* (one step later, when TLC has committed to it)
EmitFull == Len(h) > Depth => PrintT("@@" \o ToJson(SubSeq(h, 1, Depth)))
\* transition coverage: with VIEW GView each state is reached by one history
GView == s
GNextEmit == \E o \in Ops(s) : /\ h' = Append(h, o) /\ s' = Apply(s, o)
                               /\ PrintT("@@" \o ToJson(h'))
=============================================================================
