----------------------------- MODULE TraceArgs ------------------------------
(* Recorded calls against Args: the state is the status that goes along the chain. *)
EXTENDS TraceBase, Args
I0 == 0
Why(st, e) ==
    IF e.e = "Clear" THEN "ok"
    ELSE IF ~Known(e.f, e.prec) THEN "unknown function"
    ELSE LET r == RowOf[<<e.f, e.prec>>] IN
         IF ~(Judged(r, e.a1, e.h1) /\ Judged(r, e.a2, e.h2)) THEN "unknown change"
         ELSE IF e.pre # st THEN "status in"
         ELSE IF e.err \notin Answers(st, e)
              THEN IF st # 0 THEN "status not kept"
                   ELSE IF Broken(r, e) = {} THEN "valid arguments refused"
                   ELSE IF e.err = 0 THEN "bad arguments accepted" ELSE "wrong error code"
         ELSE IF e.changed = 1 /\ ~MayWrite(st, e.err) THEN "output written by a call that failed"
         ELSE IF e.inputs # 1 THEN "input changed"
         ELSE "ok"
Apply(st, e) == IF e.e = "Clear" THEN 0 ELSE e.err
Init == TInit(I0)
Next == TNext(I0, Why, Apply)
Spec == Init /\ [][Next]_tvars
=============================================================================
