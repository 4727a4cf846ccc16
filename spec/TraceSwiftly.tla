---------------------------- MODULE TraceSwiftly ----------------------------
(* Each call of a step: inputs are integers, results are recorded in 1/U. The window
   at facet resolution is recorded with the call. "Chain" is a whole transform. *)
EXTENDS TraceBase, Swiftly
I0 == 0
P(e) == [N |-> e.n, yN |-> e.yn, xM |-> e.xm]
\* Row r of a flat list of interleaved complex numbers, times mul.
Row(q, nc, r, mul) == [k \in 1..nc |-> << mul * q[2 * ((r - 1) * nc + k - 1) + 1],
                                          mul * q[2 * ((r - 1) * nc + k - 1) + 2] >>]
Rows(q, nr, nc, mul) == [r \in 1..nr |-> Row(q, nc, r, mul)]
Expected(e) ==
    LET p == P(e)
        a == Rows(e.a, e.ra, e.ca, U)      \* the input
        b == Rows(e.b, e.rb, e.cb, U)      \* the output before the call
        o == e.off[1]
        o1 == e.off[2]
        w == e.w
        fb == e.fb
    IN CASE e.op = "PrepareFacet" -> [r \in 1..e.ra |-> PrepareFacet(p, fb, a[r], o)]
         [] e.op = "ExtractFromFacet" -> [r \in 1..e.ra |-> ExtractFromFacet(p, a[r], o)]
         [] e.op = "AddToSubgrid" -> [r \in 1..e.ra |-> AddToSubgrid(p, w, a[r], b[r], o)]
         [] e.op = "AddToSubgrid2d" ->
              LET R(x) == Windowed(p, w, x, o1)
                  C(x) == Windowed(p, w, x, o)
                  t == Both(a, R, C)
              IN [r \in 1..e.rb |-> AddSeq(b[r], t[r])]
         [] e.op \in {"FinishSubgrid", "FinishSubgridInplace"} ->
              [r \in 1..e.ra |-> FinishSubgrid(p, a[r], o, e.cb)]
         [] e.op = "FinishSubgridInplace2d" ->
              LET R(x) == FinishSubgrid(p, x, o1, e.cb)
                  C(x) == FinishSubgrid(p, x, o, e.rb)
              IN Both(a, R, C)
         [] e.op = "PrepareSubgridInplace" -> [r \in 1..e.ra |-> PrepareSubgrid(p, a[r], o)]
         [] e.op = "PrepareSubgridInplace2d" ->
              LET R(x) == PrepareSubgrid(p, x, o1)
                  C(x) == PrepareSubgrid(p, x, o)
              IN Both(a, R, C)
         [] e.op = "ExtractFromSubgrid" ->
              [r \in 1..e.ra |-> ExtractFromSubgrid(p, w, a[r], o)]
         [] e.op = "ExtractFromSubgrid2d" ->
              LET R(x) == ExtractFromSubgrid(p, w, x, o1)
                  C(x) == ExtractFromSubgrid(p, w, x, o)
              IN Both(a, R, C)
         [] e.op = "AddToFacet" -> [r \in 1..e.ra |-> AddToFacet(p, a[r], b[r], o)]
         [] e.op = "FinishFacet" -> [r \in 1..e.ra |-> FinishFacet(p, fb, a[r], o, e.cb)]
OpOk(e) ==
    LET want == TLCEval(Expected(e))
    IN \A r \in 1..e.rb : \A k \in 1..e.cb :
         CNear(Row(e.out, e.cb, r, 1)[k], want[r][k], e.tol)
(* Pixels of facets (at multiples of the step from their centres), each <<y0, y1, v>>
   with image coordinates; the sub-grid's samples are those of the whole transform. *)
ChainOk(e) ==
    \A r \in 1..e.rb : \A k \in 1..e.cb :
        LET x(i, j) == e.off[i] + j - 1 - e.xm \div 2
            t(q) == IF e.rb = 1 THEN q[2] * x(2, k) ELSE q[1] * x(1, r) + q[2] * x(2, k)
            z == CSumFrom([i \in 1..Len(e.pix) |->
                    CTurn(<<U * e.pix[i][3], 0>>, e.n, t(e.pix[i]))], 1)
        IN CNear(Row(e.out, e.cb, r, 1)[k], z, e.tol)
(* The way back: samples <<x0, x1, v>> of sub-grids; the facet's pixels at multiples of the
   step from its centre. *)
BackOk(e) ==
    LET ok(y) == (y % (e.n \div e.xm)) = 0
        edge(y) == 2 * y = -e.yn
        y(j, n) == j - 1 - n \div 2
    IN \A r \in 1..e.rb : \A k \in 1..e.cb :
        ((e.rb = 1 \/ (ok(y(r, e.rb)) /\ ~edge(y(r, e.rb)))) /\ ok(y(k, e.cb)) /\ ~edge(y(k, e.cb)))
        => LET t(q) == IF e.rb = 1 THEN q[2] * (e.off[2] + y(k, e.cb))
                       ELSE q[1] * (e.off[1] + y(r, e.rb)) + q[2] * (e.off[2] + y(k, e.cb))
               z == CSumFrom([i \in 1..Len(e.pix) |->
                       CTurn(<<U * e.pix[i][3], 0>>, e.n, -t(e.pix[i]))], 1)
           IN CNear(Row(e.out, e.cb, r, 1)[k], z, e.tol)
Why(st, e) ==
    IF e.err # 0 THEN "failed"
    ELSE IF e.same # 1 THEN "memory outside the output was modified"
    ELSE IF e.e = "Chain" THEN IF ChainOk(e) THEN "ok" ELSE "facets to sub-grid"
    ELSE IF e.e = "Back" THEN IF BackOk(e) THEN "ok" ELSE "sub-grids to facet"
    ELSE IF e.sizes # <<e.n, e.yn, e.xm>> THEN "sizes of the plan"
    ELSE IF OpOk(e) THEN "ok" ELSE e.op
Apply(st, e) == st
Init == TInit(I0)
Next == TNext(I0, Why, Apply)
Spec == Init /\ [][Next]_tvars
=============================================================================
