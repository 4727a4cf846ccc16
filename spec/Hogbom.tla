------------------------------- MODULE Hogbom -------------------------------
(* Hogbom CLEAN on an n x n image. Images are functions of the flat index from 0,
   in units fine enough that every value met is whole. The point-spread function is
   2n x 2n with its centre at (n, n), in units of 1/ps; the gain is 1/gd. *)
EXTENDS Util
Pix(n) == 0..(n * n - 1)
Peaks(r, n) == {p \in Pix(n) : \A q \in Pix(n) : r[p] >= r[q]}
(* PSF value at pixel q for a component at pixel p. *)
PsfAt(psf, n, p, q) ==
    psf[(n - p \div n + q \div n) * (2 * n) + (n - (p % n) + (q % n))]
Minor(st, n, psf, ps, gd, p) ==
    LET v == st.r[p] \div gd
    IN [r |-> [q \in Pix(n) |-> st.r[q] - (v * PsfAt(psf, n, p, q)) \div ps],
        c |-> [st.c EXCEPT ![p] = @ + v],
        stop |-> FALSE]
(* All states after one more cycle: any of the equally high peaks may be taken. *)
Step(st, n, psf, ps, gd, thr) ==
    IF st.stop THEN {st}
    ELSE LET P == Peaks(st.r, n)
             top == st.r[CHOOSE p \in P : TRUE]
         IN IF top < thr THEN {[st EXCEPT !.stop = TRUE]}
            ELSE {Minor(st, n, psf, ps, gd, p) : p \in P}
(* Restoring beam: 2^-(e) with e from whole coefficients; centre cb of m pixels. *)
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
RHalf(x, k) == IF k > 20 THEN 0 ELSE LET d == Pow2(k) IN
    IF x >= 0 THEN (x + d \div 2) \div d ELSE -((-x + d \div 2) \div d)
BeamExp(A, B, C, dx, dy) == A * dx * dx + B * dx * dy + C * dy * dy
(* Beam pixel b at distance b - cb of the beam's peak; the convolution is centred on
   pixel (m - 1) / 2 of the beam. *)
RestoreAt(c, n, m, A, B, C, q) ==
    LET cb == m \div 2
        cc == (m - 1) \div 2
        f(k) == LET p == k - 1
                    bx == q \div n - p \div n + cc
                    by == (q % n) - (p % n) + cc
                IN IF c[p] = 0 \/ bx < 0 \/ bx >= m \/ by < 0 \/ by >= m THEN 0
                   ELSE RHalf(c[p], BeamExp(A, B, C, bx - cb, by - cb))
    IN SumTo(f, n * n)
=============================================================================
