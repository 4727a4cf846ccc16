---------------------------- MODULE TraceWStack -----------------------------
(* Each call of (de)gridding a whole observation. Rows repeat K distinct coordinates; per
   coordinate and channel: for gridding the sum of the visibilities, for degridding the
   lowest and the highest visibility found. Values in 1/sc. *)
EXTENDS TraceBase, WStack
I0 == 0
Freq(e, c) == e.f0 + c * e.df
At3(e, k, c) == [j \in 1..3 |-> e.uvw[3 * k + j] * Freq(e, c)]
(* Error per unit of input, in millionths: of the window, of w in the phase, of float. *)
WMost(e) == LET ws == {Abs(e.uvw[3 * k]) : k \in 1..e.K}
                m == CHOOSE x \in ws : \A y \in ws : y <= x
            IN (m * Freq(e, e.nch - 1) * e.ws) \div e.D
TolM(e) == (IF e.sup = 6 THEN 5000 ELSE 600) + 5 * WMost(e) + (IF e.flt = 1 THEN 200 ELSE 0)
           + 1500000 \div e.ov + 800000 \div e.wov
Tol(e) == (TolM(e) * e.sum) \div (1000000 \div e.sc) + 3
DepthOf(e, p, q) == Depth(e.T, e.N, p, q, e.hu, e.hv)
DegridOk(e) ==
    LET ns == Len(e.src) \div 4
        Sr(k) == << e.src[4 * k - 3], e.src[4 * k - 2], e.src[4 * k - 1], e.src[4 * k] >>
        d == TLCEval([k \in 1..ns |-> DepthOf(e, Sr(k)[1], Sr(k)[2])])
        tol == Tol(e)
        Sum(x) ==
            LET tn(k) == PhaseOf(e.N, e.D, e.ws, Sr(k)[1], Sr(k)[2], d[k], x)
                re(k) == MulM(Sr(k)[3] * e.sc, CosMt(tn(k))) + MulM(Sr(k)[4] * e.sc, SinMt(tn(k)))
                im(k) == MulM(Sr(k)[4] * e.sc, CosMt(tn(k))) - MulM(Sr(k)[3] * e.sc, SinMt(tn(k)))
            IN << SumTo(re, ns), SumTo(im, ns) >>
    IN \A k \in 0..(e.K - 1) : \A c \in 0..(e.nch - 1) :
        LET v == 4 * (k * e.nch + c)
            z == Sum(At3(e, k, c))
        IN /\ CNear(<< e.got[v + 1], e.got[v + 2] >>, z, tol)
           /\ CNear(<< e.got[v + 3], e.got[v + 4] >>, z, tol)
GridOk(e) ==
    LET nv == e.K * e.nch
        tol == Tol(e)
    IN \A k \in 1..(Len(e.pix) \div 2) :
        LET p == e.pix[2 * k - 1]
            q == e.pix[2 * k]
            d == DepthOf(e, p, q)
            tn(v) == PhaseOf(e.N, e.D, e.ws, p, q, d, At3(e, (v - 1) \div e.nch, (v - 1) % e.nch))
            a(v) == e.vs[2 * v - 1] * e.sc
            b(v) == e.vs[2 * v] * e.sc
            re(v) == LET t == tn(v) IN MulM(a(v), CosMt(t)) - MulM(b(v), SinMt(t))
            im(v) == LET t == tn(v) IN MulM(b(v), CosMt(t)) + MulM(a(v), SinMt(t))
        IN CNear(<< e.got[2 * k - 1], e.got[2 * k] >>,
                 << SumTo(re, nv), IF e.real = 1 THEN 0 ELSE SumTo(im, nv) >>, tol)
Why(st, e) ==
    CASE e.e = "Crash" -> "crash or exit"
      [] e.err # 0 -> "failed"
      [] e.same # 1 -> "an input was modified"
      [] e.lost = 1 -> "unprotected additions to the grid"
      [] e.e = "Degrid" -> IF DegridOk(e) THEN "ok" ELSE "degridded visibility"
      [] e.e = "Grid" -> IF GridOk(e) THEN "ok" ELSE "gridded image"
Apply(st, e) == st
Init == TInit(I0)
Next == TNext(I0, Why, Apply)
Spec == Init /\ [][Next]_tvars
=============================================================================
