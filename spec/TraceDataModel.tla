--------------------------- MODULE TraceDataModel ---------------------------
EXTENDS DataModel, TraceBase
Why(st, e) == CASE e.e = "Reset" -> "ok"
                [] e.e = "Call" -> Judge(st, e.o, e.err, e.out)
                [] OTHER -> "unknown event"
Step(st, e) == IF e.e = "Reset" THEN Init0 ELSE After(st, e.err)
Init == TInit(Init0)
Next == TNext(Init0, Why, Step)
Spec == Init /\ [][Next]_tvars
=============================================================================
