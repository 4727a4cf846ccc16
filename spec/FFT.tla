-------------------------------- MODULE FFT ---------------------------------
(* Discrete Fourier transforms. Data are given as functions (sequences) Re, Im of
   the flat index from 1 over shape sh. Sums are in millionths. *)
EXTENDS Trig
ModOf(sh) == IF \A a \in 1..Len(sh) : M1 % sh[a] = 0 THEN M1 ELSE M2
TabOf(m) == IF m = M1 THEN T1 ELSE T2
CosT(m, j) == SinAt(TabOf(m), m, j + m \div 4)
(* j.k as a fraction j_a k_a / n_a of a turn summed over the axes, in units 1/m;
   off: both indices measured from this offset *)
RECURSIVE TurnFrom(_, _, _, _, _)
TurnFrom(m, sh, j, k, a) ==
    IF a > Len(sh) THEN 0
    ELSE ((Coord(sh, j, a) * Coord(sh, k, a)) % sh[a]) * (m \div sh[a])
         + TurnFrom(m, sh, j, k, a + 1)
Turn(m, sh, j, k) == TurnFrom(m, sh, j, k, 1) % m
(* sign = 1: forward, exp(-i t); sign = -1: inverse, exp(+i t) *)
DftRe(sh, Re, Im, sign, k) ==
    LET m == ModOf(sh)
        f(j) == LET t == Turn(m, sh, j - 1, k)
                IN Re[j] * CosT(m, t) + sign * Im[j] * SinAt(TabOf(m), m, t)
    IN SumTo(f, Prod(sh))
DftIm(sh, Re, Im, sign, k) ==
    LET m == ModOf(sh)
        f(j) == LET t == Turn(m, sh, j - 1, k)
                IN Im[j] * CosT(m, t) - sign * Re[j] * SinAt(TabOf(m), m, t)
    IN SumTo(f, Prod(sh))
(* (-1)^(sum of coordinates): moves the origin of an even-sized array to its centre *)
RECURSIVE CoordSum(_, _, _)
CoordSum(sh, k, a) == IF a > Len(sh) THEN 0 ELSE Coord(sh, k, a) + CoordSum(sh, k, a + 1)
Checker(sh, k) == IF CoordSum(sh, k, 1) % 2 = 0 THEN 1 ELSE -1
=============================================================================
