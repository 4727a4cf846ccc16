------------------------------ MODULE GridCorr ------------------------------
(* Correction of a facet for the gridding kernels and for the w-stack layer.
   Facet pixel (i, j) of nl x nm is image pixel (i - nl/2 + fl, j - nm/2 + fm) counted
   from the image centre, at direction cosine p/(T N). It is divided by the images of
   the kernels in u, v and w, and turned by w_offset w_step n turns. *)
EXTENDS GridUtil, Sci
ImagePix(i, size, off) == i - size \div 2 + off
PixL(p, T, N) == RDiv(RDiv(p * 1000000, N), T)
Deep(T, N, pl, pm, hu, hv) == NOf(PixL(pl, T, N), PixL(pm, T, N), hu, hv)
StackTurn(ws, woff, n, inv) == ((IF inv = 1 THEN 1 ELSE -1) * ws * woff * n) % 1000000
(* <<re, im>> turned, in units of 1e-4 *)
Turned(z, turn) == << RDiv(z[1] * CosMt(turn) - z[2] * SinMt(turn), 100),
                      RDiv(z[1] * SinMt(turn) + z[2] * CosMt(turn), 100) >>
(* A decimal in units of 1e-4; needs |x| < 1e5 *)
RECURSIVE Shr(_, _)
Shr(m, k) == IF k = 0 THEN m ELSE Shr(RDiv(m, 10), k - 1)
SciE4(a) == IF a[1] = 0 \/ a[2] < -5 THEN 0
            ELSE IF a[2] > 4 THEN Inexact
            ELSE IF a[2] <= 2 THEN Shr(a[1], 2 - a[2])
            ELSE a[1] * (IF a[2] = 3 THEN 10 ELSE 100)
=============================================================================
