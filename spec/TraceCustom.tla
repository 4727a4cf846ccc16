---------------------------- MODULE TraceCustom -----------------------------
EXTENDS TraceBase, Custom
I0 == 0
Cx(q, k) == << q[2 * k + 1], q[2 * k + 2] >>
Cell(e, c, z, y, x, p) == (((c * e.nz + z) * e.G + y) * e.G + x) * e.np + p
(* Sum over the footprint; part 1 real, 2 imaginary *)
Value(e, c, p, hx, hy, fx, fy, fz, part) ==
    LET fxs(z, y) == LET g(x) == e.uk[fx * e.k + x] *
                             Cx(e.grid, Cell(e, c, z - 1, First(e.k, hy) + y - 1, First(e.k, hx) + x - 1, p))[part]
                     IN SumTo(g, e.k)
        fys(z) == LET g(y) == e.uk[fy * e.k + y] * fxs(z, y) IN SumTo(g, e.k)
        fzs(z) == e.wk[fz * e.kw + z] * fys(z)
    IN SumTo(fzs, e.kw)
VisOk(e, r, c) ==
    LET f == e.f0 + c * e.df
        Row(j) == e.uvw[3 * r + j] * f               \* quarter wavelengths
        i0 == (r * e.nch + c) * e.np
    IN \E px \in Nearest(Row(1) * e.ov, 4 * e.T) : \E py \in Nearest(Row(2) * e.ov, 4 * e.T) :
       \E pz \in Nearest(Row(3) * e.ow, 4 * e.ws) :
        LET hx == Home(e.G, e.ov, px)
            hy == Home(e.G, e.ov, py)
        IN \A p \in 0..(e.np - 1) :
            IF Within(e.G, e.k, hx) /\ Within(e.G, e.k, hy)
            THEN Cx(e.post, i0 + p) =
                  << Value(e, c, p, hx, hy, Frac(e.ov, px), Frac(e.ov, py), WFrac(e.ow, pz), 1),
                     (IF e.conj = 1 THEN -1 ELSE 1)
                     * Value(e, c, p, hx, hy, Frac(e.ov, px), Frac(e.ov, py), WFrac(e.ow, pz), 2) >>
            ELSE Cx(e.post, i0 + p) = Cx(e.pre, i0 + p)
Why(st, e) ==
    CASE e.same # 1 -> "an input was modified"
      [] e.kw > e.nz -> IF e.err = 2 /\ e.pre = e.post THEN "ok" ELSE "w-kernel larger than the grid"
      [] e.err # 0 -> "failed"
      [] OTHER -> IF \A r \in 0..(e.nr - 1) : \A c \in 0..(e.nch - 1) : VisOk(e, r, c)
                  THEN "ok" ELSE "degridded visibility"
Apply(st, e) == st
Init == TInit(I0)
Next == TNext(I0, Why, Apply)
Spec == Init /\ [][Next]_tvars
=============================================================================
