-------------------------------- MODULE Enum --------------------------------
(* Enumeration of independent cases: every element of Cases is emitted.     *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Cases(_)
VARIABLE enumCase
EInit == enumCase \in Cases(0) /\ PrintT("@@" \o ToJson(enumCase))
ENext == FALSE /\ enumCase' = enumCase
=============================================================================
