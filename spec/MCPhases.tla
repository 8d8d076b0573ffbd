------------------------------ MODULE MCPhases ------------------------------
(* Phases over all placements of up to Most pauses of the lengths Lengths.  *)
EXTENDS Phases
CONSTANTS Lengths, Most
Init == PInit
Next == Enter \/ (now < Most /\ \E d \in Lengths : Pass(d))
===========================================================================
