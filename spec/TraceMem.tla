------------------------------ MODULE TraceMem ------------------------------
(* Accepts exactly the recorded runs that are behaviours of the Mem machine.*)
EXTENDS Mem, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)
N == Len(T)

VARIABLES l, s

\* Accessors of the null handle.
NullOk(e) ==
    e.null = [ty |-> "void", loc |-> 0, nd |-> 0, ne |-> 0, cc |-> 0, ro |-> 1,
              fp |-> 0, cx |-> 0, c4 |-> 0, db |-> 0, sh |-> 0, str |-> 0,
              data |-> 0, st |-> 0, inc |-> 0]

HandlesOk(t, e) ==
    /\ {x.i : x \in {e.hs[k] : k \in 1..Len(e.hs)}} = Usable(t)
    /\ \A k \in 1..Len(e.hs) :
         LET x == e.hs[k] IN x.o = Observe(t.hs[x.i])

\* Which handle structures and which buffers have been released.
FreedOk(t, e) ==
    /\ e.freed = [i \in 1..Len(t.hs) |-> IF t.hs[i].live THEN 0 ELSE 1]
    /\ Len(e.bufs) = Len(t.bufs)
    /\ \A b \in 1..Len(t.bufs) :
         (e.bufs[b].live = 1) <=> t.bufs[b].live

DataOk(t, e) ==
    \A b \in 1..Len(t.bufs) :
         t.bufs[b].live => e.bufs[b].data = t.bufs[b].data

Why(t, r, e) ==
    IF e.st # t.st THEN "status"
    ELSE IF e.ret # r THEN "result"
    ELSE IF ~FreedOk(t, e) THEN "lifetime"
    ELSE IF ~HandlesOk(t, e) THEN "metadata"
    ELSE IF ~DataOk(t, e) THEN "contents"
    ELSE "ok"

RECURSIVE Skip(_, _)
Skip(k, c) == IF k > N THEN k ELSE IF T[k].c # c THEN k ELSE Skip(k + 1, c)

Reject(e, why) ==
    /\ PrintT(<<"REJECT", e.c, l, why>>)
    /\ l' = Skip(l, e.c)
    /\ s' = Init0

Init == l = 1 /\ s = Init0

Next ==
    /\ l <= N
    /\ LET e == T[l]
       IN CASE e.e = "Begin" ->
                 IF NullOk(e) THEN s' = Init0 /\ l' = l + 1
                 ELSE Reject(e, "null")
            [] e.e = "Call" ->
                 \E r \in {Apply(s, e.op)} : \E w \in {Why(r.s, r.ret, e)} :
                    IF w = "ok" THEN s' = r.s /\ l' = l + 1
                    ELSE Reject(e, w)
            [] OTHER -> Reject(e, "crash")
    /\ (l' = N + 1 => PrintT(<<"DONE", N>>))

Spec == Init /\ [][Next]_<<l, s>>
=============================================================================
