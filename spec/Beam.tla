-------------------------------- MODULE Beam --------------------------------
(* Station and element beams. Angles are exact fractions of a turn; amplitudes are in
   millionths. *)
EXTENDS Trig
\* ---- Station: sum over elements of weight, response and geometric phase.
\* wr, wi: weights; dr, di: responses in this direction and polarisation (integers);
\* ph[c]: the geometric phase of the element, in 1/den of a turn.
CMulRe(a, b, c, d) == a * c - b * d
CMulIm(a, b, c, d) == a * d + b * c
StnRe(wr, wi, dr, di, ph, den) == SumTo(LAMBDA c :
    CMulRe(CMulRe(wr[c], wi[c], dr[c], di[c]), CMulIm(wr[c], wi[c], dr[c], di[c]),
           Cos6(den, ph[c]), Sin6(den, ph[c])), Len(ph))
StnIm(wr, wi, dr, di, ph, den) == SumTo(LAMBDA c :
    CMulIm(CMulRe(wr[c], wi[c], dr[c], di[c]), CMulIm(wr[c], wi[c], dr[c], di[c]),
           Cos6(den, ph[c]), Sin6(den, ph[c])), Len(ph))
\* ---- Dipole along phi = 0: (cos(kL cos(phi) sin(theta)) - cos(kL)) / D times
\* (-cos(phi) cos(theta), sin(phi)), where D = 1 - cos(phi)^2 sin(theta)^2; zero on the
\* axis. kL is in millionths of a turn; st .. cp in millionths.
DipDen(cp, st) == 1000000 - MulM(MulM(cp, cp), MulM(st, st))
DipNum(kL, cp, st) == CosMt(MulM(kL, MulM(cp, st))) - CosMt(kL)
\* Checks an observed amplitude (millionths): E * D against the numerator times g.
Quart(x) == RDiv(x, 4)
DipIs(e, D, num, g, tol) == Near(MulM(Quart(e), D), Quart(MulM(num, g)), tol)
DipTheta(e, kL, st, ct, sp, cp, tol) ==
    IF DipDen(cp, st) = 0 THEN e = 0
    ELSE DipIs(e, DipDen(cp, st), DipNum(kL, cp, st), -MulM(cp, ct), tol)
DipPhi(e, kL, st, ct, sp, cp, tol) ==
    IF DipDen(cp, st) = 0 THEN e = 0
    ELSE DipIs(e, DipDen(cp, st), DipNum(kL, cp, st), sp, tol)
\* Two crossed dipoles without polarisation: the r.m.s. response a. As
\* |E|^2 = num^2 / D, 2 a^2 D1 D2 = num1^2 D2 + num2^2 D1 (zero terms on an axis).
DipScalar(a, kL, st, sp, cp, tol) ==
    LET d1 == DipDen(cp, st)
        d2 == DipDen(sp, st)
        n1 == Quart(DipNum(kL, cp, st))
        n2 == Quart(DipNum(kL, -sp, st))
        q1 == IF d1 = 0 THEN 0 ELSE MulM(n1, n1)
        q2 == IF d2 = 0 THEN 0 ELSE MulM(n2, n2)
        e1 == IF d1 = 0 THEN 1000000 ELSE d1
        e2 == IF d2 = 0 THEN 1000000 ELSE d2
        a4 == Quart(a)
    IN Near(2 * MulM(MulM(a4, a4), MulM(e1, e2)), MulM(q1, e2) + MulM(q2, e1), tol)
\* ---- Spherical waves. SqrtT[n] is the square root of n, SphF[l] that of
\* (2l + 1) / (4 pi l (l + 1)).
SqrtT ==
    << 1000000, 1414214, 1732051, 2000000, 2236068, 2449490, 2645751, 2828427, 3000000,
       3162278, 3316625, 3464102, 3605551, 3741657, 3872983, 4000000, 4123106, 4242641,
       4358899, 4472136, 4582576, 4690416, 4795832, 4898979, 5000000, 5099020, 5196152,
       5291503, 5385165, 5477226, 5567764, 5656854, 5744563, 5830952, 5916080, 6000000,
       6082763, 6164414, 6244998, 6324555, 6403124, 6480741, 6557439, 6633250, 6708204,
       6782330, 6855655, 6928203, 7000000, 7071068, 7141428, 7211103, 7280110, 7348469,
       7416198, 7483315, 7549834, 7615773, 7681146, 7745967, 7810250, 7874008, 7937254,
       8000000, 8062258, 8124038, 8185353, 8246211, 8306624, 8366600, 8426150, 8485281,
       8544004, 8602325, 8660254, 8717798, 8774964, 8831761, 8888194, 8944272, 9000000 >>
SphF ==
    << 345494, 257516, 215453, 189235, 170817, 156943, 145998, 137073 >>
ASSUME \A n \in 1..81 : LET x == RDiv(SqrtT[n], 1000)
                        IN Near(x * x, n * 1000000, 2 * x + 1)
\* x * c / 10^6 for x up to some 10^8
MulBig(x, c) == LET h == RDiv(x, 1000)
                    g == x - 1000 * h
                IN h * (c \div 1000) + RDiv(h * (c % 1000) + g * (c \div 1000), 1000)
\* x * SqrtT[n] and x / SqrtT[n] = x * SqrtT[n] / n for n up to 81
MulS(x, n) == LET s == SqrtT[n]
                  w == s \div 1000000
              IN x * w + MulBig(x, s - w * 1000000)
DivS(x, n) == RDiv(MulS(x, n), n)
\* A(l, m) = sqrt((l-m)! / (l+m)!) P_l^m(cos t) / sin t, m >= 1, with the phase (-1)^m.
RECURSIVE ADiag(_, _)
ADiag(m, st) == IF m = 1 THEN -DivS(1000000, 2)
                ELSE -DivS(MulS(MulBig(ADiag(m - 1, st), st), 2 * m - 1), 2 * m)
RECURSIVE ALm(_, _, _, _)
ALm(l, m, st, ct) ==
    IF l < m THEN 0
    ELSE IF l = m THEN ADiag(m, st)
    ELSE LET k == l - 1
             p == ALm(k, m, st, ct)
             q == IF k = m THEN 0 ELSE MulS(ALm(k - 1, m, st, ct), (k - m) * (k + m))
         IN DivS((2 * k + 1) * MulBig(p, ct) - q, (l - m) * (l + m))
\* B(l, m) = sqrt((l-m)! / (l+m)!) dP_l^m(cos t)/dt
BLm(l, m, st, ct) ==
    IF m = 0 THEN MulS(MulBig(ALm(l, 1, st, ct), st), l * (l + 1))
    ELSE l * MulBig(ALm(l, m, st, ct), ct)
         - (IF l = m THEN 0 ELSE MulS(ALm(l - 1, m, st, ct), (l - m) * (l + m)))
\* The mode (l, m), -l <= m <= l, at azimuth angle f/den of a turn: the factors
\* M A e^(i m phi) (times i) and B e^(i m phi).
ModeA(l, m, st, ct) == IF m = 0 THEN 0 ELSE m * MulBig(SphF[l], ALm(l, Abs(m), st, ct))
ModeB(l, m, st, ct) == MulBig(SphF[l], BLm(l, Abs(m), st, ct))
\* Contributions of coefficients te, tm (complex integers) to the phi and theta
\* components before the factor e^(i m phi); a, b: ModeA, ModeB.
\* phi: tm b - i te a; theta: i tm a + te b, all times e^(i m phi).
SphPhi(te, tm, a, b) == << tm[1] * b + te[2] * a, tm[2] * b - te[1] * a >>
SphTheta(te, tm, a, b) == << te[1] * b - tm[2] * a, te[2] * b + tm[1] * a >>
\* z times e^(i angle)
Turn(z, c, s) == << MulBig(z[1], c) - MulBig(z[2], s), MulBig(z[1], s) + MulBig(z[2], c) >>
\* A component of the pattern; al[i] = <<te, tm>> of mode i = l^2 + l + m, and
\* Comp is SphPhi or SphTheta; azimuth f/den of a turn.
Modes(lmax) == {p \in (1..lmax) \X (-lmax..lmax) : p[2] >= -p[1] /\ p[2] <= p[1]}
SphSum(lmax, den, f, st, ct, al, Comp(_, _, _, _), z) ==
    LET T(l, m) == LET x == al[l * l + l + m]
                       w == Comp(x[1], x[2], ModeA(l, m, st, ct), ModeB(l, m, st, ct))
                   IN Turn(w, Cos6(den, m * f), Sin6(den, m * f))[z]
        \* mode number k from 1 is (l, m) with l the integer root
        L(k) == CHOOSE l \in 1..lmax : l * l <= k /\ k <= l * l + 2 * l
    IN SumTo(LAMBDA k : T(L(k), k - L(k) * L(k) - L(k)), lmax * lmax + 2 * lmax)
=============================================================================
