----------------------------- MODULE HogbomGen ------------------------------
(* Bounded exhaustive check: in every reachable state the dirty image is the residual
   plus the components convolved with the point-spread function, and the loop ends
   only when no pixel reaches the threshold or the cycles are used up. *)
EXTENDS Hogbom
CONSTANTS Vals, Side, Thr, Limit
VARIABLES dirty, psf, st, cycles
vars == <<dirty, psf, st, cycles>>
Unit == 4096
ValsQ == {-1, 0, 1, 2}
ValsT == {-2, -1, 0, 1, 2, 3}
SideQ == {-1, 0, 1}
Dim == 2
PS == 2
GD == 2
ThrUnits == Thr * Unit
(* A PSF with peak 1 (2 units of 1/2) and side lobes that differ by direction. *)
Init == /\ dirty \in [Pix(Dim) -> Vals]
        /\ \E s \in Side, t \in Side :
             psf = [k \in 0..(4 * Dim * Dim - 1) |->
                     IF k = Dim * 2 * Dim + Dim THEN PS
                     ELSE IF k \div (2 * Dim) = Dim THEN s
                     ELSE IF (k % (2 * Dim)) > Dim THEN t ELSE 0]
        /\ st = [r |-> [q \in Pix(Dim) |-> dirty[q] * Unit],
                 c |-> [q \in Pix(Dim) |-> 0], stop |-> FALSE]
        /\ cycles = 0
Next == /\ cycles < Limit /\ ~st.stop
        /\ st' \in Step(st, Dim, psf, PS, GD, ThrUnits)
        /\ cycles' = cycles + 1
        /\ UNCHANGED <<dirty, psf>>
Spec == Init /\ [][Next]_vars
Conserved == \A q \in Pix(Dim) :
    LET f(k) == (st.c[k - 1] * PsfAt(psf, Dim, k - 1, q))
    IN dirty[q] * Unit * PS = st.r[q] * PS + SumTo(f, Dim * Dim)
StopsOnlyBelow == st.stop => \A q \in Pix(Dim) : st.r[q] < ThrUnits
NeverPastStop == (~st.stop /\ cycles > 0) => \E q \in Pix(Dim) : st.c[q] # 0 \/ Thr <= 0
=============================================================================
