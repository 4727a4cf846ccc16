------------------------------ MODULE TraceSky ------------------------------
(* Recorded use of sky coordinates, from Python and from C. *)
EXTENDS TraceBase, Sky
Init == TInit(S0)
Next == TNext(S0, StepWhy, StepTo)
Spec == Init /\ [][Next]_tvars
=============================================================================
