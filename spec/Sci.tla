-------------------------------- MODULE Sci ---------------------------------
(* Reals as <<mantissa, exponent>>: mantissa of seven digits (0 for zero). *)
EXTENDS Util
SciAt(q, k) == << q[2 * k + 1], q[2 * k + 2] >>                  \* k-th (from 0) of a flat list
SciNear(a, b, tol) ==
    /\ Abs(a[1]) < 100000000 /\ Abs(b[1]) < 100000000
    /\ CASE a[1] = 0 \/ b[1] = 0 -> a[1] = b[1]
         [] a[2] = b[2] -> Near(a[1], b[1], tol)
         [] a[2] = b[2] + 1 -> Near(10 * a[1], b[1], 10 * tol)
         [] b[2] = a[2] + 1 -> Near(a[1], 10 * b[1], 10 * tol)
         [] OTHER -> FALSE
(* Product: seven-digit mantissas, relative error below 1e-6 *)
SciNorm(m, x) == IF m = 0 THEN <<0, 0>>
                 ELSE IF Abs(m) >= 10000000 THEN << m \div 10, x + 1 >>
                 ELSE IF Abs(m) < 1000000 THEN << m * 10, x - 1 >> ELSE <<m, x>>
SciMul(a, b) ==
    IF a[1] = 0 \/ b[1] = 0 THEN <<0, 0>>
    ELSE LET s == IF (a[1] < 0) # (b[1] < 0) THEN -1 ELSE 1
             x == Abs(a[1])
             y == Abs(b[1])
             xh == x \div 10000 
             xl == x % 10000
             yh == y \div 10000
             yl == y % 10000
             \* x * y / 1e6
             p == xh * yh * 100 + (xh * yl + xl * yh) \div 100 + (xl * yl) \div 1000000
         IN SciNorm(s * p, a[2] + b[2])
RECURSIVE SciUp(_, _)
SciUp(m, x) == IF Abs(m) >= 10000000 THEN SciUp(IF m < 0 THEN -((-m) \div 10) ELSE m \div 10, x + 1)
               ELSE IF Abs(m) < 1000000 THEN SciUp(m * 10, x - 1) ELSE <<m, x>>
SciInt(n) == IF n = 0 THEN <<0, 0>> ELSE SciUp(n, 6)
=============================================================================
