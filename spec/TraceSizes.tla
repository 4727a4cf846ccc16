----------------------------- MODULE TraceSizes -----------------------------
EXTENDS TraceBase, Sizes
Why(st, e) ==
    IF e.e = "Padded"
    THEN IF SmallestSmooth(e.r, CeilDiv(e.n * e.f, 8), 2) THEN "ok" ELSE "padded size"
    ELSE IF e.r = e.n /\ Smooth(e.n) THEN "ok"
         ELSE IF SmallestSmooth(e.r, e.n, 1) THEN "ok" ELSE "good size"
Apply(st, e) == st
Init == TInit(0)
Next == TNext(0, Why, Apply)
Spec == Init /\ [][Next]_tvars
=============================================================================
