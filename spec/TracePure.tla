----------------------------- MODULE TracePure ------------------------------
EXTENDS Pure, TraceBase
Why(st, e) ==
    CASE e.e = "Ref" -> IF RefOf(st, e.f, e.p, e.v) # 0 THEN "a second reference" ELSE "ok"
      [] e.e = "Start" -> IF RefOf(st, e.f, e.p, e.v) = 0 THEN "no reference"
                          ELSE IF st.run[e.t] # 0 THEN "already running" ELSE "ok"
      [] e.e = "End" -> Judge(st, e.t, e.err, e.sk, e.inputs)
      [] e.e = "Done" -> IF Idle(st) THEN "ok" ELSE "a call did not return"
      [] OTHER -> "unknown event"
Step(st, e) ==
    CASE e.e = "Ref" -> Learn(st, e.f, e.p, e.v, e.err, e.sk)
      [] e.e = "Start" -> Begin(st, e.t, RefOf(st, e.f, e.p, e.v))
      [] e.e = "End" -> Finish(st, e.t)
      [] OTHER -> st
Init == TInit(Init0)
Next == TNext(Init0, Why, Step)
Spec == Init /\ [][Next]_tvars
=============================================================================
