---------------------------- MODULE GridCorrGen -----------------------------
(* Correcting an image facet by facet corrects every pixel as correcting it whole does;
   degridding and gridding turns cancel; layers add up. *)
EXTENDS GridCorr
CONSTANTS N, Cuts
VARIABLES cut, k, done
vars == <<cut, k, done>>
(* facets along one axis: [a, b) of 0..N-1 *)
Bounds(c) == {0, N} \cup c
Off(a, b) == a + (b - a) \div 2 - N \div 2      \* the offset that puts facet [a, b) there
Init == cut \in SUBSET Cuts /\ k = 0 /\ done = <<>>
NextB(x) == CHOOSE b \in Bounds(cut) : b > x /\ \A d \in Bounds(cut) : d > x => d >= b
Step == /\ k < N
        /\ LET b == NextB(k) IN
           /\ done' = done \o [i \in 1..(b - k) |-> ImagePix(i - 1, b - k, Off(k, b))]
           /\ k' = b
        /\ UNCHANGED cut
Spec == Init /\ [][Step]_vars
Tiled == k = N => done = [i \in 1..N |-> ImagePix(i - 1, N, 0)]
Cancel == k = 0 => \A n \in {-65000, -1, -333333} : \A w \in -3..3 : \A s \in {1, 7} :
            /\ (StackTurn(s, w, n, 0) + StackTurn(s, w, n, 1)) % 1000000 = 0
            /\ (StackTurn(s, w, n, 1) + StackTurn(s, 2, n, 1)) % 1000000 = StackTurn(s, w + 2, n, 1)
            /\ LET z == Turned(<<3, -4>>, StackTurn(s, w, n, 1))
               IN w = 0 => z = <<30000, -40000>>
=============================================================================
