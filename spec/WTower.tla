------------------------------- MODULE WTower -------------------------------
(* (De)gridding between a sub-grid image and visibilities, by way of a stack of sub-grids
   on neighbouring w-planes. Sub-grid of S by S cells; field of view 1/T; planes ws apart.
   Coordinates are integers in 1/D of a cell (u, v) or of a plane (w), relative to the
   centre of the sub-grid in u and v and absolute in w. *)
EXTENDS Direct
(* ---- What is computed: the direct sum, with pixels at (p, q) from the centre. *)
Turn6(num, den) ==        \* num/den turns in millionths, den <= 20000
    LET a == (num % den) * 100000
    IN 10 * (a \div den) + (10 * (a % den)) \div den
Depth(T, S, p, q, hu, hv) == NOf(RDiv(p * 1000000, T * S), RDiv(q * 1000000, T * S), hu, hv)
PhaseOf(S, D, ws, p, q, depth, x) ==
    (Turn6(x[1] * p, D * S) + Turn6(x[2] * q, D * S) + RDiv(x[3] * ws * depth, D)) % 1000000
(* ---- How: planes. Plane k holds the coordinates from k - 1 (included) to k. *)
PlaneOf(x, D) == x \div D + 1
FirstPlane(lo, D) == (lo - 1) \div D + 1       \* just below the lowest coordinate
LastPlane(hi, D) == hi \div D + 2
OnPlane(k, x, D) == (k - 1) * D <= x /\ x < k * D
(* The kernel of even support s, oversampled ov times, is put down from this cell; x in
   1/ov of a cell. *)
Corner(S, s, x, ov) == (x + (S \div 2 - s \div 2 + 1) * ov) \div ov
KernelRow(x, ov) == x % ov
Cells(S, s, x, ov) == {Corner(S, s, x, ov) + i : i \in 0..(s - 1)}
Fits(S, s, x, ov) == Cells(S, s, x, ov) \subseteq 0..(S - 1)
(* In w the planes are fixed by the plane being worked on, so the row runs from 0 to ov. *)
WRow(x, k, D, ov) == RDiv((x - (k - 1) * D) * ov, D)
(* ---- One dimension, on one pixel p: the sum over the footprint of the transform of the
   pixel on each cell, and what correction by the window makes of it. *)
Window(s) == CASE s = 4 -> <<0, 482315, 1000000, 482315>>
               [] s = 6 -> <<0, 113363, 610390, 1000000, 610390, 113363>>
               [] s = 8 -> <<0, 19314, 207122, 687734, 1000000, 687734, 207122, 19314>>
(* The window at p/16 of the field of view, p = 0..4 *)
WindowAt(s, p) ==
    LET q == CASE s = 4 -> <<1000000, 957844, 840214, 671011, 482315>>
               [] s = 6 -> <<1000000, 934414, 760045, 532867, 315834>>
               [] s = 8 -> <<1000000, 911624, 687734, 423476, 207122>>
    IN q[Abs(p) + 1]
Spread(s, S, ov, x, p) ==
    LET c == Corner(S, s, x, ov)
        k(j) == KernelAt(Window(s), s, ov, KernelRow(x, ov), j - 1)
        re(j) == MulM(k(j), CosMt(Turn6(p * (c + j - 1 - S \div 2), S)))
        im(j) == MulM(k(j), SinMt(Turn6(p * (c + j - 1 - S \div 2), S)))
    IN << SumTo(re, s), SumTo(im, s) >>
=============================================================================
