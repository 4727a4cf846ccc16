---------------------------- MODULE TraceDirect -----------------------------
EXTENDS TraceBase, Direct
I0 == 0
Cx(q, k) == << q[2 * k + 1], q[2 * k + 2] >>
Row(q, k) == << q[3 * k + 1], q[3 * k + 2], q[3 * k + 3] >>
In(e, i, c) == e.sel = 0 \/ (e.s[i + 1] <= c /\ c < e.t[i + 1])
Depths(e) == TLCEval([k \in 0..(e.n * e.n - 1) |->
                PixDepth(e.T, e.n, k \div e.n, k % e.n, e.hu, e.hv)])
DegridOk(e) ==
    LET d == Depths(e)
        src == {k \in 0..(e.n * e.n - 1) : Cx(e.img, k) # <<0, 0>>}
    IN \A i \in 0..(e.num - 1) : \A c \in 0..(e.nch - 1) :
        LET v == i * e.nch + c
            w == Rel(Row(e.uvw, i), e.f0 + c * e.df, e.off, e.T, e.ws)
            tp(k) == MulM(e.tap[(k \div e.n) + 1], e.tap[(k % e.n) + 1])
            tn(k) == PixTurn(e.T, e.n, k \div e.n, k % e.n, d[k], w)
            re(k) == LET x == Cx(e.img, k) t == tn(k) q == tp(k)
                     IN x[1] * MulM(CosMt(t), q) + x[2] * MulM(SinMt(t), q)
            im(k) == LET x == Cx(e.img, k) t == tn(k) q == tp(k)
                     IN x[2] * MulM(CosMt(t), q) - x[1] * MulM(SinMt(t), q)
        IN IF In(e, i, c)
           THEN CNear(Cx(e.post, v), << 10000 * Cx(e.pre, v)[1] + RDiv(SumSet(re, src), 100),
                                        10000 * Cx(e.pre, v)[2] + RDiv(SumSet(im, src), 100) >>, e.tol)
           ELSE Cx(e.post, v) = << 10000 * Cx(e.pre, v)[1], 10000 * Cx(e.pre, v)[2] >>
GridOk(e) ==
    LET d == Depths(e)
        src == {<<i, c>> \in (0..(e.num - 1)) \X (0..(e.nch - 1)) : In(e, i, c)}
    IN \A k \in 0..(e.n * e.n - 1) :
        LET q == MulM(e.tap[(k \div e.n) + 1], e.tap[(k % e.n) + 1])
            tn(x) == PixTurn(e.T, e.n, k \div e.n, k % e.n, d[k],
                             Rel(Row(e.uvw, x[1]), e.f0 + x[2] * e.df, e.off, e.T, e.ws))
            V(x) == Cx(e.vis, x[1] * e.nch + x[2])
            re(x) == LET t == tn(x) v == V(x) IN v[1] * MulM(CosMt(t), q) - v[2] * MulM(SinMt(t), q)
            im(x) == LET t == tn(x) v == V(x) IN v[2] * MulM(CosMt(t), q) + v[1] * MulM(SinMt(t), q)
        IN CNear(Cx(e.post, k), << 10000 * Cx(e.pre, k)[1] + RDiv(SumSet(re, src), 100),
                                   10000 * Cx(e.pre, k)[2] + RDiv(SumSet(im, src), 100) >>, e.tol)
Why(st, e) ==
    CASE e.err # 0 -> "failed"
      [] e.same # 1 -> "an input was modified"
      [] e.e = "Plan" -> IF e.got = e.want THEN "ok" ELSE "plan parameter"
      [] e.e = "Degrid" -> IF DegridOk(e) THEN "ok" ELSE "degridded visibility"
      [] e.e = "Grid" -> IF GridOk(e) THEN "ok" ELSE "gridded image"
Apply(st, e) == st
Init == TInit(I0)
Next == TNext(I0, Why, Apply)
Spec == Init /\ [][Next]_tvars
=============================================================================
