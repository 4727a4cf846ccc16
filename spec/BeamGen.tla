------------------------------ MODULE BeamGen -------------------------------
(* Bounded exhaustive checks of the definitions: the station sum may be taken in any
   order of the elements and is linear in the weights; a half-wave dipole has its known
   pattern, is symmetric, and vanishes along its axis; the vector spherical modes of
   each degree have the same total power in every direction. *)
EXTENDS Beam
CONSTANTS Den, LMax, MaxEl
VARIABLES wr, wi, dr, di, ph, done, acc, th, fi, ln
vars == <<wr, wi, dr, di, ph, done, acc, th, fi, ln>>
Sq(x) == MulM(x, x)
S(f) == Sin6(Den, f)
C(f) == Cos6(Den, f)
Init == /\ \E n \in 0..MaxEl :
              /\ wr \in [1..n -> {1, 2}] /\ wi \in [1..n -> {0, -1}]
              /\ dr \in [1..n -> {1, -3}] /\ di = [c \in 1..n |-> c - 2]
              /\ ph \in [1..n -> {0, 1, 5}]
        /\ done = {} /\ acc = <<0, 0>>
        /\ th \in 0..(Den \div 2) /\ fi \in 0..(Den - 1) /\ ln \in {100000, 250000, 400000}
        /\ (Len(wr) > 0 => th = 0 /\ fi = 0 /\ ln = 100000)
Add(c) == /\ done' = done \cup {c}
          /\ acc' = << acc[1] + StnRe(<<wr[c]>>, <<wi[c]>>, <<dr[c]>>, <<di[c]>>, <<ph[c]>>, Den),
                       acc[2] + StnIm(<<wr[c]>>, <<wi[c]>>, <<dr[c]>>, <<di[c]>>, <<ph[c]>>, Den) >>
          /\ UNCHANGED <<wr, wi, dr, di, ph, th, fi, ln>>
Next == \E c \in (1..Len(wr)) \ done : Add(c)
Spec == Init /\ [][Next]_vars
Sum == done = 1..Len(wr) => acc = << StnRe(wr, wi, dr, di, ph, Den), StnIm(wr, wi, dr, di, ph, Den) >>
Dipole == Len(wr) = 0 =>
    LET D == DipDen(C(fi), S(th))
        N == DipNum(ln, C(fi), S(th))
    IN /\ Near(D, Sq(MulM(C(fi), C(th))) + Sq(S(fi)), 20)
       /\ DipNum(ln, -C(fi), S(th)) = N
       \* zero numerator exactly along the axis
       /\ (D <= 2 => Near(N, 0, 40))
       \* a half-wave dipole: cos(pi/2 x) / (1 - x^2) is 1 broadside
       /\ (ln = 250000 /\ C(fi) = 0 => Near(N, 1000000, 10) /\ D = 1000000)
Power == Len(wr) = 0 /\ fi = 0 /\ th > 0 /\ th < Den \div 2 => \A l \in 1..LMax :
    LET P(m) == Sq(ModeA(l, m, S(th), C(th))) + Sq(ModeB(l, m, S(th), C(th)))
    IN Near(SumTo(LAMBDA k : P(k - l - 1), 2 * l + 1), MulM(Sq(SphF[l]), 1000000) * (l * (l + 1)), 60 * l)
=============================================================================
