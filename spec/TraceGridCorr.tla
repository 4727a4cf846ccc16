--------------------------- MODULE TraceGridCorr ----------------------------
EXTENDS TraceBase, GridCorr
I0 == 0
Cx(q, k) == << q[2 * k + 1], q[2 * k + 2] >>
Tap(e, t, size, off, i) ==
    IF ImagePix(i, size, off) = -(e.N \div 2) /\ e.N % 2 = 0 THEN <<1000000, -15>> ELSE SciAt(t, i)
Wn(e, k) == << e.wn[3 * k + 1], e.wn[3 * k + 2], e.wn[3 * k + 3] >>
PixOk(e, i, j) ==
    LET k == i * e.nm + j
        n == Deep(e.T, e.N, ImagePix(i, e.nl, e.fl), ImagePix(j, e.nm, e.fm), e.hu, e.hv)
        x == 2 * e.ws * Abs(n)
        w == Wn(e, k)
        a == SciMul(Tap(e, e.tl, e.nl, e.fl, i), Tap(e, e.tm, e.nm, e.fm, j))
        b == IF e.wsup > 0 /\ w[1] < 1000000 THEN SciMul(a, <<w[2], w[3]>>) ELSE a
        u == IF e.e = "Stack" THEN <<1000000, 0>> ELSE b
        p == << SciMul(SciAt(e.post, 2 * k), u), SciMul(SciAt(e.post, 2 * k + 1), u) >>
        z == IF e.cpx = 1 THEN Cx(e.pre, k) ELSE << Cx(e.pre, k)[1], 0 >>
        t == IF e.e = "Pswf" \/ e.cpx = 0 THEN 0 ELSE StackTurn(e.ws, e.woff, n, e.inv)
        v == Turned(z, t)
    IN /\ Near(w[1], x, 4 * e.ws + 2)
       /\ IF t = 0 /\ e.e = "Pswf"
          THEN SciNear(p[1], SciInt(z[1]), 60) /\ SciNear(p[2], SciInt(z[2]), 60)
          ELSE /\ Near(SciE4(p[1]), v[1], 20 + 4 * e.ws * Abs(e.woff))
               /\ Near(SciE4(p[2]), v[2], 20 + 4 * e.ws * Abs(e.woff))
Same(e) == \A k \in 0..(e.nl * e.nm - 1) :
    /\ SciAt(e.post, 2 * k) = SciInt(e.pre[2 * k + 1])
    /\ SciAt(e.post, 2 * k + 1) = SciInt(e.pre[2 * k + 2])
Why(st, e) ==
    CASE e.gaps # 1 -> "wrote outside the facet"
      [] e.e = "Stack" /\ e.woff = 0 -> IF e.err = 0 /\ Same(e) THEN "ok" ELSE "changed without offset"
      [] e.int = 1 \/ (e.e = "Stack" /\ e.cpx = 0) ->
            IF e.err # 3 THEN "expected DATA_TYPE"
            ELSE IF ~Same(e) THEN "facet of unsupported type changed" ELSE "ok"
      [] e.err # 0 -> "failed"
      [] OTHER -> IF \A i \in 0..(e.nl - 1) : \A j \in 0..(e.nm - 1) : PixOk(e, i, j)
                  THEN "ok" ELSE "corrected pixel"
Apply(st, e) == st
Init == TInit(I0)
Next == TNext(I0, Why, Apply)
Spec == Init /\ [][Next]_tvars
=============================================================================
