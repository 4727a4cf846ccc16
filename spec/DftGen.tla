------------------------------- MODULE DftGen -------------------------------
(* Bounded exhaustive check: accumulating the sources one at a time in any order
   gives the defining sum; rotating visibilities predicted for a source moves it
   (a source at the new centre ends with zero phase); rotations keep lengths. *)
EXTENDS Dft
CONSTANTS MaxC, Den, R, RaDen, Ang
Ang2 == -2..4
VARIABLES fr, fi, dirs, w, done, acc, o, n
vars == <<fr, fi, dirs, w, done, acc, o, n>>
Init == /\ \E k \in 0..MaxC : /\ fr \in [1..k -> {1, 2}] /\ fi \in [1..k -> {-1, 0}]
                              /\ dirs \in [1..k -> {<<0, 0, 0>>, <<1, 0, -1>>, <<-1, 1, 0>>}]
        /\ w \in {<<0, 0, 0>>, <<1, 2, 3>>, <<-3, 1, 0>>, <<5, -4, 2>>}
        /\ done = {} /\ acc = <<0, 0>>
        /\ o \in {0} \X (-2..2) /\ n \in Ang \X (-2..2)
        /\ (Len(fr) = 0 \/ (o = <<0, 0>> /\ n = <<0, 0>>))
Add(c) == /\ done' = done \cup {c}
          /\ acc' = << acc[1] + TermRe(fr[c], fi[c], Den, DotI(dirs[c], w)),
                       acc[2] + TermIm(fr[c], fi[c], Den, DotI(dirs[c], w)) >>
          /\ UNCHANGED <<fr, fi, dirs, w, o, n>>
Next == \E c \in (1..Len(fr)) \ done : Add(c)
Spec == Init /\ [][Next]_vars
Sum == done = 1..Len(fr) => acc = << VisRe(fr, fi, dirs, w, Den), VisIm(fr, fi, dirs, w, Den) >>
Sq(x) == MulM(x, x)
Dir == Len(fr) = 0 =>
    LET d == NewDir(o, n, RaDen)
    IN /\ Near(Sq(d[1]) + Sq(d[2]) + Sq(d[3]), 1000000, 20)
       /\ (o = n => Near(d[1], 0, 2) /\ Near(d[2], 0, 2) /\ Near(d[3], 1000000, 2))
       /\ (o = n => Near(ShiftPhase(o, n, RaDen, w), 0, 30))
       \* The visibility of a source at the new centre, relative to the old: phase
       \* -(u l + v m + w (n - 1)); rotating it leaves no phase from u and v and w.
       /\ Near(-(w[1] * d[1] + w[2] * d[2] + w[3] * (d[3] - 1000000)),
               ShiftPhase(o, n, RaDen, w), 0)
       /\ LET r == Rot(o, n, RaDen, w)
              L(x) == x \div 1000
          IN Near((L(r[1]) \div 10) * (L(r[1]) \div 10) + (L(r[2]) \div 10) * (L(r[2]) \div 10)
                   + (L(r[3]) \div 10) * (L(r[3]) \div 10), 10000 * DotI(w, w), 4000)
=============================================================================
