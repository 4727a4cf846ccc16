----------------------------- MODULE TraceBase ------------------------------
(* Deciding whether a recorded trace is a behaviour of a specification.
   A trace is a sequence of events; events of one case share the field c.
   Why(st, e) is "ok" when event e is allowed in state st, else the reason it is
   not; Apply(st, e) is the next state. A rejected case is reported and skipped. *)
EXTENDS Util, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
N == Len(T)
VARIABLES l, s
tvars == <<l, s>>
RECURSIVE SkipCase(_, _)
SkipCase(k, c) == IF k > N THEN k ELSE IF T[k].c # c THEN k ELSE SkipCase(k + 1, c)
TInit(i0) == l = 1 /\ s = i0
TNext(i0, Why(_, _), Apply(_, _)) ==
    /\ l <= N
    /\ LET e == T[l]
           st == IF l = 1 THEN i0 ELSE IF T[l - 1].c # e.c THEN i0 ELSE s
       IN \E w \in {IF e.e = "Crash" THEN "crash" ELSE Why(st, e)} :
            IF w = "ok"
            THEN l' = l + 1 /\ s' = Apply(st, e)
            ELSE PrintT(<<"REJECT", e.c, l, w>>) /\ l' = SkipCase(l, e.c) /\ s' = i0
    /\ (l' = N + 1 => PrintT(<<"DONE", N>>))
=============================================================================
