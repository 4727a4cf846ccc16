------------------------------ MODULE MSClean -------------------------------
(* Multi-scale CLEAN on an n x n image with an m x m point-spread function, m = 2n or
   2n + 1. All values are in units of 1/10000, so results are approximate.
   Scale kernels and beam peak at pixel m / 2; convolutions are centred on (m - 1) / 2. *)
EXTENDS Util
One == 10000
(* Kernel of scale s at squared distance d from its peak: a normalised Gaussian with
   sigma 3 s / 16; a single pixel for s = 0. *)
KTab == <<
  <<45271, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>,
  <<11318, 323, 9, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>,
  <<5030, 1036, 213, 44, 9, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>,
  <<2829, 1163, 478, 197, 81, 33, 14, 6, 2, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0>> >>
Kern(s, d) == IF s = 0 THEN (IF d = 0 THEN One ELSE 0)
              ELSE IF d > 18 THEN 0 ELSE KTab[s][d + 1]
Sgn(x) == IF x < 0 THEN -1 ELSE 1
MulP(a, b) == ((a \div 100) * b + 50) \div 100 + ((a % 100) * b + 5000) \div 10000
(* a b / 10000 and 10000 a / b, rounded to about a unit *)
Mul4(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE Sgn(a) * Sgn(b) * MulP(Abs(a), Abs(b))
DivP(a, b) == ((a * 100) \div b) * 100 + (((a * 100) % b) * 100) \div b
Div4(a, b) == IF a = 0 THEN 0 ELSE Sgn(a) * Sgn(b) * DivP(Abs(a), Abs(b))
Sq(n) == 0..(n * n - 1)
Px(img, n, i, j) == IF i >= 0 /\ i < n /\ j >= 0 /\ j < n THEN img[i * n + j] ELSE 0
(* Displacement of a convolution with a kernel that peaks at m / 2. *)
Disp(m) == (m - 1) \div 2 - m \div 2
Radius == 4
Offs(s, m) == {o \in (-Radius..Radius) \X (-Radius..Radius) :
                 /\ Kern(s, o[1] * o[1] + o[2] * o[2]) # 0
                 /\ m \div 2 + o[1] \in 0..(m - 1) /\ m \div 2 + o[2] \in 0..(m - 1)}
(* Image (w x w) convolved with the kernel of scale s. *)
Smooth(img, w, s, m) ==
    LET d == Disp(m)
        O == Offs(s, m)
    IN TLCEval([k \in Sq(w) |->
        LET f(o) == Mul4(Px(img, w, k \div w - o[1] + d, (k % w) - o[2] + d),
                         Kern(s, o[1] * o[1] + o[2] * o[2]))
        IN SumSet(f, O)])
MaxOf(f, D) == LET RECURSIVE M(_, _)
                   M(S, x) == IF S = {} THEN x
                              ELSE LET y == CHOOSE y \in S : TRUE IN M(S \ {y}, Max(x, f[y]))
               IN M(D, 0)
(* Problem data derived from the inputs: scaled PSFs, scaled images, coupling. *)
Prepare(n, m, psf, dirty, scales) ==
    LET K == 1..Len(scales)
        once == TLCEval([a \in K |-> Smooth(psf, m, scales[a], m)])
        twice == TLCEval([a \in K |-> TLCEval([b \in K |-> Smooth(once[a], m, scales[b], m)])])
    IN [n |-> n, m |-> m, scales |-> scales, psf |-> twice,
        coup |-> TLCEval([a \in K |-> MaxOf(twice[a][a], Sq(m))]),
        S |-> {[r |-> TLCEval([a \in K |-> Smooth(dirty, n, scales[a], m)]),
                c |-> [q \in Sq(n) |-> 0], stop |-> FALSE]},
        k |-> 0]
Win(n, m, p, q) == (n - p \div n + q \div n) * m + (n - (p % n) + (q % n))
(* gn / gd: loop gain *)
Minor(pr, st, a, p, gn, gd) ==
    LET v == (Div4(st.r[a][p], pr.coup[a]) * gn) \div gd
        n == pr.n
        D2(q) == (q \div n - p \div n) * (q \div n - p \div n)
                 + ((q % n) - (p % n)) * ((q % n) - (p % n))
    IN [r |-> TLCEval([b \in DOMAIN st.r |-> TLCEval([q \in Sq(n) |->
                st.r[b][q] - Mul4(v, pr.psf[b][a][Win(n, pr.m, p, q)])])]),
        c |-> TLCEval([q \in Sq(n) |-> st.c[q] + Mul4(v, Kern(pr.scales[a], D2(q)))]),
        stop |-> FALSE]
(* All states after one more cycle, allowing for peaks and stops too close to call. *)
Step(pr, st, gn, gd, thr, tol) ==
    IF st.stop THEN {st}
    ELSE LET K == DOMAIN st.r
             top == TLCEval([a \in K |-> MaxOf(st.r[a], Sq(pr.n))])
             bias == TLCEval([a \in K |-> Div4(top[a], pr.coup[a])])
             best == MaxOf(bias, K)
             \* the uncertainty of a biased peak grows as its coupling shrinks
             slack(a) == tol + Div4(tol, pr.coup[a])
             A == {a \in K : bias[a] >= best - 2 * slack(a) /\ top[a] > 0}
             Stop == {[st EXCEPT !.stop = TRUE]}
         IN IF best <= tol THEN Stop
            ELSE UNION {
              LET P == {p \in Sq(pr.n) : st.r[a][p] >= top[a] - 2 * tol}
              IN (IF top[a] < thr + tol THEN Stop ELSE {})
                 \cup (IF top[a] >= thr - tol THEN {Minor(pr, st, a, p, gn, gd) : p \in P} ELSE {})
              : a \in A}
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
RHalf(x, k) == IF k > 20 THEN 0 ELSE LET d == Pow2(k) IN Sgn(x) * ((Abs(x) + d \div 2) \div d)
BeamExp(A, B, C, dx, dy) == A * dx * dx + B * dx * dy + C * dy * dy
RestoreAt(c, n, m, A, B, C, q) ==
    LET cb == m \div 2
        cc == (m - 1) \div 2
        f(k) == LET p == k - 1
                    bx == q \div n - p \div n + cc
                    by == (q % n) - (p % n) + cc
                IN IF c[p] = 0 \/ bx < 0 \/ bx >= m \/ by < 0 \/ by >= m THEN 0
                   ELSE RHalf(c[p], BeamExp(A, B, C, bx - cb, by - cb))
    IN SumTo(f, n * n)
=============================================================================
