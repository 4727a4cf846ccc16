------------------------------ MODULE TraceLog ------------------------------
EXTENDS Log, TraceBase
Why(st, e) == CASE e.e = "Begin" -> "ok"
                [] e.e = "Send" -> "ok"
                [] e.e = "Line" -> Judge(st, e.q, e.t, e.n, e.name, e.time)
                [] e.e = "Broken" -> "not one whole line"
                [] e.e = "Done" -> IF Empty(st) THEN "ok" ELSE "a message was not written"
                [] OTHER -> "unknown event"
Step(st, e) == CASE e.e = "Begin" -> Begin(e.env)
                 [] e.e = "Send" -> Send(st, IF e.macro = 1 THEN MacroStream(e.lvl) ELSE 0, e.t,
                                         [n |-> e.n, lvl |-> e.lvl, from |-> e.from, to |-> e.to])
                 [] e.e = "Line" -> Seen(st, e.q, e.t)
                 [] OTHER -> st
Init == TInit(Init0)
Next == TNext(Init0, Why, Step)
Spec == Init /\ [][Next]_tvars
=============================================================================
