------------------------------ MODULE TraceDft ------------------------------
EXTENDS TraceBase, Dft
I0 == 0
(* Flat row-major data: dirs [comp][3]; flux [comp][chan][pol] (complex);
   coordinates: v0: [time][baseline][chan][3] integers;
   v1: [time][baseline][3] integers times (f0 + c * df). *)
V3(q, k) == << q[3 * k + 1], q[3 * k + 2], q[3 * k + 3] >>
PredictOk(e) ==
    LET dirs == TLCEval([c \in 1..e.nc |-> V3(e.dir, c - 1)])
        F(c, ch, p, z) == e.flux[2 * (((c - 1) * e.nch + ch) * e.np + p) + z]
    IN \A k \in 0..(e.nt * e.nb * e.nch - 1) :
        LET ch == k % e.nch
            tb == k \div e.nch
            w == IF e.ver = 0 THEN V3(e.uvw, k)
                 ELSE LET x == V3(e.uvw, tb)
                          f == e.f0 + ch * e.df
                      IN << x[1] * f, x[2] * f, x[3] * f >>
        IN \A p \in 0..(e.np - 1) :
            LET fr == [c \in 1..e.nc |-> F(c, ch, p, 1)]
                fi == [c \in 1..e.nc |-> F(c, ch, p, 2)]
                v == 2 * (k * e.np + p)
            IN /\ Near(e.out[v + 1], RDiv(VisRe(fr, fi, dirs, w, e.den), 100), e.tol)
               /\ Near(e.out[v + 2], RDiv(VisIm(fr, fi, dirs, w, e.den), 100), e.tol)
RotOk(e) == \A k \in 0..(e.nt * e.nb - 1) :
    LET r == Rot(e.o, e.n, e.den, V3(e.uvw, k))
    IN \A i \in 1..3 : Near(e.out[3 * k + i], RDiv(r[i], 1000), e.tol)
RotVisOk(e) == \A k \in 0..(e.nt * e.nb * e.nch - 1) :
    LET x == V3(e.uvw, k \div e.nch)
        f == e.f0 + (k % e.nch) * e.df
        t == ShiftPhase(e.o, e.n, e.den, << x[1] * f, x[2] * f, x[3] * f >>)
        c == CosMt(t)
        d == SinMt(t)
    IN \A p \in 0..(e.np - 1) :
        LET v == 2 * (k * e.np + p)
        IN /\ Near(e.out[v + 1], RDiv(e.vis[v + 1] * c - e.vis[v + 2] * d, 10000), e.tol)
           /\ Near(e.out[v + 2], RDiv(e.vis[v + 2] * c + e.vis[v + 1] * d, 10000), e.tol)
Why(st, e) ==
    CASE e.err # 0 -> "failed"
      [] e.same # 1 -> "an input was modified"
      [] e.e = "Predict" -> IF PredictOk(e) THEN "ok" ELSE "predicted visibility"
      [] e.e = "RotUvw" -> IF RotOk(e) THEN "ok" ELSE "rotated coordinates"
      [] e.e = "RotVis" -> IF RotVisOk(e) THEN "ok" ELSE "rotated visibility"
Apply(st, e) == st
Init == TInit(I0)
Next == TNext(I0, Why, Apply)
Spec == Init /\ [][Next]_tvars
=============================================================================
