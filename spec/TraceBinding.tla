---------------------------- MODULE TraceBinding ----------------------------
(* Recorded use of the Python package, with what the C side saw of it. *)
EXTENDS TraceBase, Binding
I0 == B0
Why(st, e) == StepWhy(st, e)
Apply(st, e) == StepTo(st, e)
Init == TInit(I0)
Next == TNext(I0, Why, Apply)
Spec == Init /\ [][Next]_tvars
=============================================================================
