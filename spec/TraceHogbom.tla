---------------------------- MODULE TraceHogbom -----------------------------
(* Runs of one problem with cycle limits 1, 2, ...; the state is the set of all
   (residual, components) the algorithm may have after that many cycles. *)
EXTENDS TraceBase, Hogbom
I0 == [n |-> 0]
Img(d) == [k \in 0..(Len(d) - 1) |-> d[k + 1]]
Start(e) == [n |-> e.n, psf |-> Img(e.psf), ps |-> e.ps, gd |-> e.gd, thr |-> e.thr,
             m |-> e.m, A |-> e.A, B |-> e.B, C |-> e.C, tol |-> e.tol,
             S |-> {[r |-> Img(e.dirty), c |-> [q \in Pix(e.n) |-> 0], stop |-> FALSE]},
             k |-> 0]
RECURSIVE After(_, _)
After(st, k) == IF k = 0 THEN st.S
                ELSE UNION {Step(x, st.n, st.psf, st.ps, st.gd, st.thr) : x \in After(st, k - 1)}
WhyRun(st, e) ==
    LET S == After(st, e.limit - st.k)
        M == {x \in S : x.c = Img(e.comp) /\ x.r = Img(e.res)}
    IN IF e.err # 0 THEN "failed"
       ELSE IF e.same # 1 THEN "an input was modified"
       ELSE IF M = {} THEN (IF \E x \in S : x.c = Img(e.comp) THEN "residual"
                            ELSE IF \E x \in S : x.r = Img(e.res) THEN "components"
                            ELSE "residual and components")
       ELSE IF \A q \in Pix(st.n) :
               Near(e.sky[q + 1], e.res[q + 1] +
                    RestoreAt(Img(e.comp), st.n, st.m, st.A, st.B, st.C, q), st.tol)
            THEN "ok" ELSE "restored image"
(* The restored component is brightest where the component is. *)
WhyCentre(st, e) == IF e.px = e.cx /\ e.py = e.cy THEN "ok" ELSE "restored component displaced"
Why(st, e) == IF e.e = "Problem" THEN "ok"
              ELSE IF e.e = "Run" THEN WhyRun(st, e) ELSE WhyCentre(st, e)
Apply(st, e) == IF e.e = "Problem" THEN Start(e)
                ELSE IF e.e = "Run" THEN [st EXCEPT !.S = After(st, e.limit - st.k), !.k = e.limit]
                ELSE st
Init == TInit(I0)
Next == TNext(I0, Why, Apply)
Spec == Init /\ [][Next]_tvars
=============================================================================
