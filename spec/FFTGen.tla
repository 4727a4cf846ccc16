------------------------------- MODULE FFTGen -------------------------------
(* Bounded exhaustive check on sizes whose twiddle factors are exact (1, 2, 4): the
   transform factorises into one-dimensional transforms taken in any order of axes,
   forward then inverse multiplies by the number of points, and the checkerboard
   before and after is the transform with both origins at the centre. *)
EXTENDS FFT
CONSTANTS Shapes, Vals
Sh22 == {<<2, 2>>, <<4>>, <<1, 4>>, <<4, 1>>}
Sh24 == {<<2, 4>>, <<4, 2>>, <<2, 2, 2>>, <<1, 4, 2>>}
V3 == {-1, 0, 1}
V2 == {0, 1}
VARIABLES sh, re0, re, im, fdone, idone
vars == <<sh, re0, re, im, fdone, idone>>
Ix(s) == 1..Prod(s)
Axes == 1..Len(sh)
(* One-dimensional transform along axis a. *)
Line(k, a) == {j \in Ix(sh) : \A b \in Axes \ {a} : Coord(sh, j - 1, b) = Coord(sh, k - 1, b)}
Ang(j, k, a) == ((Coord(sh, j - 1, a) * Coord(sh, k - 1, a)) % sh[a]) * (M1 \div sh[a])
Unit(t) == [c |-> CosT(M1, t) \div 1000000, s |-> SinAt(T1, M1, t) \div 1000000]
AxRe(a, sign) == [k \in Ix(sh) |->
    LET f(j) == LET w == Unit(Ang(j, k, a)) IN re[j] * w.c + sign * im[j] * w.s
    IN SumSet(f, Line(k, a))]
AxIm(a, sign) == [k \in Ix(sh) |->
    LET f(j) == LET w == Unit(Ang(j, k, a)) IN im[j] * w.c - sign * re[j] * w.s
    IN SumSet(f, Line(k, a))]
Init == /\ sh \in Shapes
        /\ re0 \in [Ix(sh) -> Vals] /\ re = re0
        /\ im = [j \in Ix(sh) |-> 0] /\ fdone = {} /\ idone = {}
Forward(a) == /\ a \notin fdone /\ idone = {}
              /\ re' = AxRe(a, 1) /\ im' = AxIm(a, 1) /\ fdone' = fdone \cup {a}
              /\ UNCHANGED <<sh, re0, idone>>
Inverse(a) == /\ fdone = Axes /\ a \notin idone
              /\ re' = AxRe(a, -1) /\ im' = AxIm(a, -1) /\ idone' = idone \cup {a}
              /\ UNCHANGED <<sh, re0, fdone>>
Next == \E a \in Axes : Forward(a) \/ Inverse(a)
Spec == Init /\ [][Next]_vars
Zero == [j \in Ix(sh) |-> 0]
Separable == (fdone = Axes /\ idone = {}) =>
    \A k \in Ix(sh) : /\ DftRe(sh, re0, Zero, 1, k - 1) = 1000000 * re[k]
                      /\ DftIm(sh, re0, Zero, 1, k - 1) = 1000000 * im[k]
RoundTrip == idone = Axes => \A k \in Ix(sh) : re[k] = Prod(sh) * re0[k] /\ im[k] = 0
(* All sizes multiples of four: the checkerboard twice gives centred origins. *)
Cen(j, a) == Coord(sh, j - 1, a) - sh[a] \div 2
RECURSIVE CenTurn(_, _, _)
CenTurn(j, k, a) == IF a > Len(sh) THEN 0
                    ELSE ((Cen(j, a) * Cen(k, a)) % sh[a]) * (M1 \div sh[a]) + CenTurn(j, k, a + 1)
Centred == (fdone = {} /\ \A a \in Axes : sh[a] % 4 = 0) =>
    \A k \in Ix(sh) :
        LET c == [j \in Ix(sh) |-> re0[j] * Checker(sh, j - 1)]
            f(j) == re0[j] * CosT(M1, CenTurn(j, k, 1) % M1)
        IN Checker(sh, k - 1) * DftRe(sh, c, Zero, 1, k - 1) = SumSet(f, Ix(sh))
=============================================================================
