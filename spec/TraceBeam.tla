------------------------------ MODULE TraceBeam -----------------------------
EXTENDS TraceBase, Beam
I0 == 0
Blank == 7700000    \* what the outputs hold beforehand (in units of 1e-5)
\* out: flat [re, im, ...] of the whole output array, in 1e-5
OutRe(e, k) == e.out[2 * k + 1]
OutIm(e, k) == e.out[2 * k + 2]
IsBlank(e, k) == OutRe(e, k) = Blank /\ OutIm(e, k) = Blank
StationOk(e) ==
    LET P(i) == i + e.off                       \* which direction
        Ph(i) == [c \in 1..e.ne |-> e.k * (e.ex[c] * e.px[P(i)] + e.ey[c] * e.py[P(i)]
                                         + (IF e.z = 1 THEN e.ez[c] * e.pz[P(i)] ELSE 0))]
        Row(c) == IF e.useidx = 1 THEN e.idx[c] ELSE c - 1
        D(c, i, p, z) == IF e.data = 0 THEN 2 - z
                         ELSE e.eb[2 * (e.np * (Row(c) * e.n + i - 1) + p) + z]
        wr == [c \in 1..e.ne |-> e.w[2 * c - 1]]
        wi == [c \in 1..e.ne |-> e.w[2 * c]]
        nm == IF e.norm = 1 THEN e.ne ELSE 1
        Eval(p) == e.np = 1 \/ (p \in {0, 1} /\ e.x = 1) \/ (p \in {2, 3} /\ e.y = 1)
    IN \A k \in 0..(e.nout * e.np - 1) :
        LET i == (k \div e.np) - e.offs + 1
            p == k % e.np
        IN IF i \in 1..e.n /\ Eval(p)
           THEN LET ph == Ph(i)
                    dr == [c \in 1..e.ne |-> D(c, i, p, 1)]
                    di == [c \in 1..e.ne |-> D(c, i, p, 2)]
                IN /\ Near(OutRe(e, k), RDiv(StnRe(wr, wi, dr, di, ph, e.den), 10 * nm), e.tol)
                   /\ Near(OutIm(e, k), RDiv(StnIm(wr, wi, dr, di, ph, e.den), 10 * nm), e.tol)
           ELSE IsBlank(e, k)
\* Directions are <<theta, phi>> in 1/den of a turn.
DipoleOk(e) == \A k \in 0..(e.nout - 1) :
    LET q == k - e.offs
        i == q \div e.stride + 1
        j == q % e.stride
        st == Sin6(e.den, e.th[i])
        ct == Cos6(e.den, e.th[i])
        sp == Sin6(e.den, e.ph[i])
        cp == Cos6(e.den, e.ph[i])
        v == 10 * OutRe(e, k)
    IN IF q >= 0 /\ i <= e.n /\ j < (IF e.np = 4 THEN 2 ELSE 1)
       THEN /\ OutIm(e, k) = 0
            /\ IF e.np = 4
               THEN IF j = 0 THEN DipTheta(v, e.kl, st, ct, sp, cp, e.tol)
                    ELSE DipPhi(v, e.kl, st, ct, sp, cp, e.tol)
               ELSE v >= 0 /\ DipScalar(v, e.kl, st, sp, cp, e.tol)
       ELSE IsBlank(e, k)
\* Output order: x phi, x theta, y phi, y theta; nan[i] = 1 where the azimuth is no number.
SphOk(e) ==
    LET Al(q) == [m \in 1..(e.lmax * e.lmax + 2 * e.lmax) |->
                    LET b == 8 * (m - 1) + (IF q >= 2 THEN 4 ELSE 0)
                    IN << <<e.co[b + 1], e.co[b + 2]>>, <<e.co[b + 3], e.co[b + 4]>> >>]
    IN \A k \in 0..(4 * e.nout - 1) :
        LET i == (k \div 4) - e.offs + 1
            q == k % 4
        IN IF i \in 1..e.n
           THEN IF e.nan[i] = 1 THEN OutRe(e, k) = 2000000001 /\ OutIm(e, k) = 2000000001
                ELSE LET st == Sin6(e.den, e.th[i])
                         ct == Cos6(e.den, e.th[i])
                         f == IF q >= 2 THEN e.fy[i] ELSE e.fx[i]
                         V(z) == IF q \in {0, 2} THEN SphSum(e.lmax, e.den, f, st, ct, Al(q), SphPhi, z)
                                 ELSE SphSum(e.lmax, e.den, f, st, ct, Al(q), SphTheta, z)
                     IN Near(OutRe(e, k), RDiv(V(1), 10), e.tol) /\ Near(OutIm(e, k), RDiv(V(2), 10), e.tol)
           ELSE IsBlank(e, k)
Why(st, e) ==
    CASE e.err # 0 -> "failed"
      [] e.same # 1 -> "an input was modified"
      [] e.e = "Station" -> IF StationOk(e) THEN "ok" ELSE "station beam"
      [] e.e = "Dipole" -> IF DipoleOk(e) THEN "ok" ELSE "dipole pattern"
      [] e.e = "Sph" -> IF SphOk(e) THEN "ok" ELSE "spherical wave pattern"
Apply(st, e) == st
Init == TInit(I0)
Next == TNext(I0, Why, Apply)
Spec == Init /\ [][Next]_tvars
=============================================================================
