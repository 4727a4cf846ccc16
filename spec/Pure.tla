------------------------------- MODULE Pure ---------------------------------
(* Calls as functions of their arguments.
   A call is (function f, precision p, variant v of its arguments). Its outcome when it
   is made alone, first thing in a process, is its reference; whenever the same call is
   made again - after any other calls, with a plan that other calls have used, with some
   number of OpenMP threads, while other threads make calls of their own - it has the same
   outcome, and leaves the arrays it only reads as they were (others read them too).
   The state: the references seen so far, and what each thread is doing. An outcome is an
   error code and a sketch: for every array or number that came out, its size, how many of
   its elements are not finite, and projections of it, in units of 1e-9 of the reference's
   size. *)
EXTENDS Util
Threads == 1..4
Init0 == [ref |-> << >>, run |-> [t \in Threads |-> 0], todo |-> TRUE]

\* References: a sequence of [f, p, v, err, sk]; 0 when there is none.
RefOf(st, f, p, v) ==
    LET S == {k \in 1..Len(st.ref) : st.ref[k].f = f /\ st.ref[k].p = p /\ st.ref[k].v = v}
    IN IF S = {} THEN 0 ELSE CHOOSE k \in S : TRUE

\* How far a sketch may lie from the reference's: sums may be taken in another order.
Tol(p) == IF p = "s" THEN 3000 ELSE 5
Alike(p, a, b) ==
    /\ Len(a) = Len(b)
    /\ \A k \in 1..Len(a) : IF k % 6 = 2 THEN a[k] = b[k]
                            ELSE a[k] - b[k] <= Tol(p) /\ b[k] - a[k] <= Tol(p)

Learn(st, f, p, v, err, sk) ==
    [st EXCEPT !.ref = Append(@, [f |-> f, p |-> p, v |-> v, err |-> err, sk |-> sk])]
Begin(st, t, k) == [st EXCEPT !.run[t] = k]
Finish(st, t) == [st EXCEPT !.run[t] = 0]

\* Why the outcome of thread t's call is refused, or "ok".
Judge(st, t, err, sk, inputs) ==
    IF st.run[t] = 0 THEN "nothing was running"
    ELSE LET r == st.ref[st.run[t]]
         IN IF err # r.err THEN "another error code"
            ELSE IF inputs # 1 THEN "an input was changed"
            ELSE IF ~Alike(r.p, r.sk, sk) THEN "another result"
            ELSE "ok"
Idle(st) == \A t \in Threads : st.run[t] = 0
=============================================================================
