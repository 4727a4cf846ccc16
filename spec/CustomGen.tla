----------------------------- MODULE CustomGen ------------------------------
(* All positions, oversamplings and kernel sizes: the footprint of a sample that is
   degridded lies inside the grid; the cell and fraction represent the position;
   moving by a whole cell moves the cell and keeps the fraction. A sample moves along u
   one step of 1/ov at a time. *)
EXTENDS Custom
CONSTANTS Sizes, Ks, Ovs
VARIABLES G, k, ov, p
vars == <<G, k, ov, p>>
Init == G \in Sizes /\ k \in Ks /\ ov \in Ovs /\ p = -(G + 3) * ov
Step == p < (G + 3) * ov /\ p' = p + 1 /\ UNCHANGED <<G, k, ov>>
Spec == Init /\ [][Step]_vars
H == Home(G, ov, p)
Represents == p + (G \div 2) * ov = H * ov - Frac(ov, p)
FracRange == Frac(ov, p) \in 0..(ov - 1)
Footprint == Within(G, k, H) => First(k, H) >= 0 /\ First(k, H) + k <= G
WholeCell == Home(G, ov, p + ov) = H + 1 /\ Frac(ov, p + ov) = Frac(ov, p)
Gradual == [][ \/ (Home(G, ov, p') = H /\ Frac(ov, p') = Frac(ov, p) - 1)
               \/ (Home(G, ov, p') = H + 1 /\ Frac(ov, p) = 0 /\ Frac(ov, p') = ov - 1)]_vars
Round == \A a \in -9..9 : \A b \in 1..4 : \A n \in Nearest(a, b) : 2 * Abs(a - n * b) <= b
ASSUME Round
=============================================================================
