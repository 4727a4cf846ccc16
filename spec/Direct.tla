------------------------------- MODULE Direct -------------------------------
(* Direct Fourier sums between a sub-grid image and visibilities.
   The field of view is 1/T; a pixel i of n lies at (i - n/2)/(T n). Coordinates are
   integers (wavelengths). Offsets move the centre by whole cells: T per cell in u and
   v, ws per plane in w. tap: taper in millionths for each pixel along an axis. *)
EXTENDS GridUtil
(* millionths of a turn of u * (i - n/2)/(T n): exact up to rounding *)
AxisTurn(T, n, i, u) == RDiv(((u * (i - n \div 2)) % (T * n)) * 1000000, T * n)
PixDepth(T, n, i, j, hu, hv) == NOf(RDiv((i - n \div 2) * 1000000, T * n),
                                    RDiv((j - n \div 2) * 1000000, T * n), hu, hv)
(* Phase of pixel (i, j) at coordinates w = <<u, v, w>> less the offsets. *)
PixTurn(T, n, i, j, depth, w) ==
    (AxisTurn(T, n, i, w[1]) + AxisTurn(T, n, j, w[2]) + w[3] * depth) % 1000000
Rel(w, f, off, T, ws) == << w[1] * f - off[1] * T, w[2] * f - off[2] * T, w[3] * f - off[3] * ws >>
(* Real flux f times taper t (millionths) turned by -t or +t *)
TurnRe(v, turn, sign) == v[1] * CosMt(turn) - sign * v[2] * SinMt(turn)
TurnIm(v, turn, sign) == v[2] * CosMt(turn) + sign * v[1] * SinMt(turn)
=============================================================================
