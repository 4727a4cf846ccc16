---------------------------- MODULE TraceHeight -----------------------------
EXTENDS TraceBase, Height
Why(st, e) ==
    CASE e.e = "Height" ->
           IF e.pre # 0 THEN IF e.err = e.pre /\ e.ret = 0 THEN "ok" ELSE "called with an error"
           ELSE IF e.bad = 1 THEN IF e.err # 0 /\ e.ret = 0 THEN "ok" ELSE "invalid plan"
           ELSE IF e.err # 0 THEN "failed"
           ELSE LET R == Results(e.good, H0)
                IN IF -1 \in R THEN "ok"             \* undecided: not enough distances recorded
                   ELSE IF e.ret \in R THEN "ok" ELSE "height"
      [] e.e = "Worst" ->
           IF Fits(e.n, e.p)
           THEN IF e.err # 0 THEN "failed"
                ELSE IF {<<q[1], q[2], q[3]>> : q \in {e.src[k] : k \in 1..Len(e.src)}} = Sources(e.n, e.p)
                        /\ Len(e.src) = 4 /\ e.gaps = 1 THEN "ok" ELSE "sources"
           ELSE IF e.err = 2 /\ e.same = 1 THEN "ok" ELSE "sources that do not fit"
Apply(st, e) == st
Init == TInit(0)
Next == TNext(0, Why, Apply)
Spec == Init /\ [][Next]_tvars
=============================================================================
