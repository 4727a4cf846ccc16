----------------------------- MODULE TracePyMem -----------------------------
(* Recorded use of numpy arrays and of the library's descriptors of them. *)
EXTENDS TraceBase, PyMem
Init == TInit(P0)
Next == TNext(P0, StepWhy, StepTo)
Spec == Init /\ [][Next]_tvars
=============================================================================
