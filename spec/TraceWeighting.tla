--------------------------- MODULE TraceWeighting ---------------------------
EXTENDS TraceBase, Weighting
(* State: the weight grid as [G, np, mab, grid : flat cell*np+pol -> weight]. *)
I0 == [G |-> 0]
Rows(e) == Len(e.u)
Ch(e) == Len(e.f)
Samp(e) == Rows(e) * Ch(e)
RowOf(e, k) == (k - 1) \div Ch(e) + 1
ChOf(e, k) == ((k - 1) % Ch(e)) + 1
CellSeq(st, e) == [k \in 1..Samp(e) |->
    SampleCell(e.u[RowOf(e, k)], e.v[RowOf(e, k)], e.f[ChOf(e, k)], st.mab, st.G)]
W(st, e, k) == [p \in 1..st.np |-> e.w[(k - 1) * st.np + p]]
RECURSIVE AccAll(_, _, _, _, _)
AccAll(st, e, cells, k, g) ==
    IF k > Len(cells) THEN g
    ELSE AccAll(st, e, cells, k + 1, Accumulate(g, cells[k], W(st, e, k)))
AsGrid(st, q) == [c \in 0..(st.G * st.G - 1) |-> [p \in 1..st.np |-> q[c * st.np + p]]]
Untouched == -70000000
(* Output weights are recorded in units of 1e-7. *)
Tol(st, x) == IF st.dbl = 1 THEN 2 ELSE 2 + x \div 1000000
UniformOk(st, e, cells, g) ==
    \A k \in 1..Samp(e) : \A p \in 1..st.np :
        LET o == e.out[(k - 1) * st.np + p]
        IN IF cells[k] = -1 THEN o = Untouched
           ELSE LET x == DivScaled(1, g[cells[k]][p], 7) IN Near(o, x, Tol(st, x))
Pow10(n) == 10 ^ n
BriggsOk(st, e, cells, g) ==
    LET in == {k \in 1..Samp(e) : cells[k] # -1}
        G1(k) == SumSeq([p \in 1..st.np |-> g[cells[k]][p]])
        G2(k) == SumSeq([p \in 1..st.np |-> g[cells[k]][p] * g[cells[k]][p]])
        sw == SumSet(G1, in)
        sw2 == SumSet(G2, in)
        num == IF e.r2 < 0 THEN 25 * Pow10(-e.r2) ELSE 25
        den == IF e.r2 > 0 THEN Pow10(e.r2) ELSE 1
    IN \A k \in 1..Samp(e) : \A p \in 1..st.np :
        LET o == e.out[(k - 1) * st.np + p]
            wi == W(st, e, k)[p]
        IN IF cells[k] = -1 THEN o = Untouched
           ELSE LET x == DivScaled(wi * sw2 * den,
                                   sw2 * den + num * sw * g[cells[k]][p], 7)
                IN Near(o, x, Tol(st, x))
Why(st, e) ==
    IF e.e = "Grid" THEN "ok"
    ELSE IF e.err # 0 THEN "failed"
    ELSE IF e.same # 1 THEN "an input was modified"
    ELSE LET cells == CellSeq(st, e)
             g == AccAll(st, e, cells, 1, st.grid)
         IN IF AsGrid(st, e.grid) # g THEN "weight grid"
            ELSE IF e.e = "Uniform" /\ ~UniformOk(st, e, cells, g) THEN "uniform weights"
            ELSE IF e.e = "Briggs" /\ ~BriggsOk(st, e, cells, g) THEN "briggs weights"
            ELSE "ok"
Apply(st, e) ==
    IF e.e = "Grid" THEN [G |-> e.G, np |-> e.np, mab |-> e.mab, dbl |-> e.dbl,
                          grid |-> AsGrid([G |-> e.G, np |-> e.np], e.grid)]
    ELSE [st EXCEPT !.grid = AsGrid(st, e.grid)]
Init == TInit(I0)
Next == TNext(I0, Why, Apply)
Spec == Init /\ [][Next]_tvars
=============================================================================
