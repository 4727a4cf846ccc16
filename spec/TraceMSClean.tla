---------------------------- MODULE TraceMSClean ----------------------------
(* Runs of one problem with cycle limits 1, 2, ...; the state holds all the states
   the algorithm may be in after that many cycles. *)
EXTENDS TraceBase, MSClean
I0 == [n |-> 0]
Img(d) == TLCEval([k \in 0..(Len(d) - 1) |-> d[k + 1]])
Start(e) == TLCEval([A |-> e.A, B |-> e.B, C |-> e.C, tol |-> e.tol, gn |-> e.gn, gd |-> e.gd,
             thr |-> e.thr] @@ Prepare(e.n, e.m, Img(e.psf), Img(e.dirty), e.scales))
RECURSIVE After(_, _)
After(st, k) == IF k = 0 THEN st.S
                ELSE UNION {Step(st, x, st.gn, st.gd, st.thr, st.tol) : x \in After(st, k - 1)}
(* Possible states, given the outputs seen: those that agree with them. *)
Agree(st, e, x) == /\ \A q \in Sq(st.n) : Near(e.comp[q + 1], x.c[q], 2 * st.tol)
                   /\ \A q \in Sq(st.n) : Near(e.res[q + 1], x.r[1][q], 2 * st.tol)
WhyRun(st, e) ==
    LET S == After(st, e.limit - st.k)
    IN IF e.err # 0 THEN "failed"
       ELSE IF e.same # 1 THEN "an input was modified"
       ELSE IF ~\E x \in S : Agree(st, e, x) THEN "components and residual"
       ELSE IF \A q \in Sq(st.n) :
               Near(e.sky[q + 1], e.res[q + 1] +
                    RestoreAt(Img(e.comp), st.n, st.m, st.A, st.B, st.C, q), st.tol)
            THEN "ok" ELSE "restored image"
WhyCentre(e) == IF e.px = e.cx /\ e.py = e.cy /\ e.sx = e.cx /\ e.sy = e.cy THEN "ok"
                ELSE "component displaced"
Why(st, e) == IF e.e = "Problem" THEN "ok"
              ELSE IF e.e = "Run" THEN WhyRun(st, e) ELSE WhyCentre(e)
Apply(st, e) == IF e.e = "Problem" THEN Start(e)
                ELSE IF e.e = "Run" THEN [st EXCEPT !.S = After(st, e.limit - st.k), !.k = e.limit]
                ELSE st
Init == TInit(I0)
Next == TNext(I0, Why, Apply)
Spec == Init /\ [][Next]_tvars
=============================================================================
