---------------------------- MODULE TraceTimers -----------------------------
EXTENDS Timers, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
N == Len(T)
VARIABLES l, s
RECURSIVE Skip(_, _)
Skip(k, c) == IF k > N THEN k ELSE IF T[k].c # c THEN k ELSE Skip(k + 1, c)
Reject(e, why) == PrintT(<<"REJECT", e.c, l, why>>) /\ l' = Skip(l, e.c) /\ s' = Init0
Why(e) == IF e.ret # Ret(s, e.op) THEN "result"
          ELSE IF e.op.op = "Report" /\ ~ReportOk(s, e.rep) THEN "report"
          ELSE "ok"
Init == l = 1 /\ s = Init0
Next ==
    /\ l <= N
    /\ LET e == T[l]
       IN CASE e.e = "Begin" -> s' = Init0 /\ l' = l + 1
            [] e.e = "Call" ->
                 \E w \in {Why(e)} : IF w = "ok" THEN s' = Apply(s, e.op) /\ l' = l + 1
                                     ELSE Reject(e, w)
            [] OTHER -> Reject(e, "crash")
    /\ (l' = N + 1 => PrintT(<<"DONE", N>>))
Spec == Init /\ [][Next]_<<l, s>>
=============================================================================
