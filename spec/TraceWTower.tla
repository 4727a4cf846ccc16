---------------------------- MODULE TraceWTower -----------------------------
(* Each call of (de)gridding, with the corrections before or after it, in 1/100000. *)
EXTENDS TraceBase, WTower
I0 == 0
Cx(q, k) == << q[2 * k + 1], q[2 * k + 2] >>
InRows(e, i) == \E k \in 1..(Len(e.rows) \div 2) : e.rows[2 * k - 1] <= i /\ i < e.rows[2 * k]
Chosen(e, i, c) == InRows(e, i) /\ e.s[i + 1] <= c /\ c < e.t[i + 1]
Freq(e, c) == e.f0 + c * e.df
Rel3(e, i, c) == [j \in 1..3 |-> e.uvw[3 * i + j] * Freq(e, c) - (IF j < 3 THEN e.off[j] * e.D ELSE 0)]
(* Whether a visibility's kernel fits, in oversampled steps; when they do not divide the
   coordinates the nearest step may be either side. *)
FitsAt(e, y) == Fits(e.S, e.sup, y, e.ov)
Steps(e, y) == IF e.exact = 1 THEN {(y * e.ov) \div e.D}
               ELSE {(y * e.ov) \div e.D, (y * e.ov) \div e.D + 1}
Inside(e, i, c) == \A j \in 1..2 : \A y \in Steps(e, Rel3(e, i, c)[j]) : FitsAt(e, y)
Outside(e, i, c) == \E j \in 1..2 : \A y \in Steps(e, Rel3(e, i, c)[j]) : ~FitsAt(e, y)
RowInside(e, i) == \A c \in 0..(e.nch - 1) : Chosen(e, i, c) => Inside(e, i, c)
(* Error per unit of input, in 1/100000: of the window, of w in the phase, of float, and of
   taking the nearest kernel. *)
Tol(e) ==
    LET sp == Min(e.sup, e.wsup)
        wmax == 1 + Max(0, 4 + (4 * e.nch) \div e.f0) * e.ws
    IN (CASE sp = 4 -> 4000 [] sp = 6 -> 700 [] OTHER -> 20) + wmax
       + (IF e.flt = 1 THEN 60 ELSE 0)
       + (IF e.exact = 1 THEN 0 ELSE 160000 \div e.ov + 50000 \div e.wov)
DegridOk(e) ==
    LET ns == Len(e.src) \div 4
        Sr(k) == << e.src[4 * k - 3], e.src[4 * k - 2], e.src[4 * k - 1], e.src[4 * k] >>
        d == TLCEval([k \in 1..ns |-> Depth(e.T, e.S, Sr(k)[1], Sr(k)[2], e.hu, e.hv)])
        tol == Tol(e) * e.sum + 2
        Pre(v) == << 100000 * Cx(e.vis, v)[1], 100000 * Cx(e.vis, v)[2] >>
        Sum(x) ==
            LET tn(k) == PhaseOf(e.S, e.D, e.ws, Sr(k)[1], Sr(k)[2], d[k], x)
                re(k) == RDiv(Sr(k)[3] * CosMt(tn(k)) + Sr(k)[4] * SinMt(tn(k)), 10)
                im(k) == RDiv(Sr(k)[4] * CosMt(tn(k)) - Sr(k)[3] * SinMt(tn(k)), 10)
            IN << SumTo(re, ns), SumTo(im, ns) >>
    IN \A i \in 0..(e.num - 1) : \A c \in 0..(e.nch - 1) :
        LET v == i * e.nch + c
            unchanged == Cx(e.post, v) = Pre(v)
            z == Sum(Rel3(e, i, c))
            added == CNear(Cx(e.post, v), << Pre(v)[1] + z[1], Pre(v)[2] + z[2] >>, tol)
        IN IF ~Chosen(e, i, c) \/ Outside(e, i, c) THEN unchanged
           ELSE IF RowInside(e, i) THEN added
           ELSE added \/ unchanged
GridOk(e) ==
    LET np == Len(e.pix) \div 2
        vs == {<<i, c>> \in (0..(e.num - 1)) \X (0..(e.nch - 1)) :
                  Chosen(e, i, c) /\ Inside(e, i, c) /\ Cx(e.vis, i * e.nch + c) # <<0, 0>>}
        tol == Tol(e) * e.sum + 2
    IN \A k \in 1..np :
        LET p == e.pix[2 * k - 1]
            q == e.pix[2 * k]
            d == Depth(e.T, e.S, p, q, e.hu, e.hv)
            tn(x) == PhaseOf(e.S, e.D, e.ws, p, q, d, Rel3(e, x[1], x[2]))
            V(x) == Cx(e.vis, x[1] * e.nch + x[2])
            re(x) == LET t == tn(x) v == V(x) IN RDiv(v[1] * CosMt(t) - v[2] * SinMt(t), 10)
            im(x) == LET t == tn(x) v == V(x) IN RDiv(v[2] * CosMt(t) + v[1] * SinMt(t), 10)
        IN CNear(Cx(e.post, k - 1), << SumSet(re, vs), SumSet(im, vs) >>, tol)
(* At least the planes with something on them were worked on. *)
Busy(e) == {PlaneOf(Rel3(e, x[1], x[2])[3], e.D) :
            x \in {y \in (0..(e.num - 1)) \X (0..(e.nch - 1)) : Chosen(e, y[1], y[2])}}
PlanesOk(e) ==
    IF e.e = "Degrid" THEN e.planes[1] >= Cardinality(Busy(e)) /\ e.planes[2] = 0
                      ELSE e.planes[2] >= Cardinality(Busy(e)) /\ e.planes[1] = 0
Why(st, e) ==
    CASE e.err # 0 -> "failed"
      [] e.same # 1 -> "an input was modified"
      [] e.e = "Plan" -> IF e.got = e.want THEN "ok" ELSE "plan parameter"
      [] e.e = "Degrid" -> IF ~PlanesOk(e) THEN "count of planes"
                           ELSE IF DegridOk(e) THEN "ok" ELSE "degridded visibility"
      [] e.e = "Grid" -> IF ~PlanesOk(e) THEN "count of planes"
                         ELSE IF GridOk(e) THEN "ok" ELSE "gridded image"
Apply(st, e) == st
Init == TInit(I0)
Next == TNext(I0, Why, Apply)
Spec == Init /\ [][Next]_tvars
=============================================================================
