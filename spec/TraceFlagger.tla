---------------------------- MODULE TraceFlagger ----------------------------
EXTENDS TraceBase, Flagger
I0 == 0
Idx(e, t, b, c, p) == ((t * e.nb + b) * e.nch + c) * e.np + p + 1
SeriesOk(e, b, p) ==
    LET qs == [t \in 1..e.nt |-> [c \in 1..e.nch |-> e.mag[Idx(e, t - 1, b, c - 1, p)]]]
        f == FRun(F0, qs, e)
    IN \A t \in 1..e.nt : \A c \in 1..e.nch :
        LET k == Idx(e, t - 1, b, c - 1, p)
        IN IF <<t, c>> \in f.must THEN e.post[k] = 1
           ELSE IF <<t, c>> \in f.may THEN e.post[k] \in {1, e.pre[k]}
           ELSE e.post[k] = e.pre[k]
Why(st, e) ==
    CASE e.same # 1 -> "visibilities modified"
      [] e.step < 1 \/ e.step > e.nch \/ e.hist < 1 ->
            IF e.err = 2 /\ e.pre = e.post THEN "ok" ELSE "step or history out of range"
      [] e.err # 0 -> "failed"
      [] OTHER -> IF \A b \in 0..(e.nb - 1) : \A p \in 0..(e.np - 1) : SeriesOk(e, b, p)
                  THEN "ok" ELSE "flags"
Apply(st, e) == st
Init == TInit(I0)
Next == TNext(I0, Why, Apply)
Spec == Init /\ [][Next]_tvars
=============================================================================
