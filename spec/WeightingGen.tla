---------------------------- MODULE WeightingGen ----------------------------
(* Bounded exhaustive check of the weighting specification: samples arrive in any
   order; whatever the order, the finished grid is the same function of the set of
   samples, every cell index is inside the grid, no weight is lost or invented, and
   each axis is divided into cells of equal width from -mab to mab. *)
EXTENDS Weighting
CONSTANTS Sizes, Coords, NSamples
VARIABLES G, todo, grid, done
vars == <<G, todo, grid, done>>
Mab == 1
CoordsQuick == {-9, -8, -1, 0, 7, 8}
CoordsThorough == {-9, -8, 0, 7}
Samples == [u : Coords, v : Coords, w : 1..2]
Cells(g) == 0..(g * g - 1)
Init == /\ G \in Sizes
        /\ \E f \in [1..NSamples -> Samples] : todo = {<<i, f[i]>> : i \in 1..NSamples}
        /\ grid = [c \in Cells(G) |-> <<0>>]
        /\ done = {}
Next == /\ todo # {}
        /\ \E t \in todo :
             /\ todo' = todo \ {t}
             /\ done' = done \cup {t}
             /\ grid' = Accumulate(grid, SampleCell(t[2].u, t[2].v, 1, Mab, G), <<t[2].w>>)
        /\ UNCHANGED G
Spec == Init /\ [][Next]_vars
CellT(t) == SampleCell(t[2].u, t[2].v, 1, Mab, G)
GridIsSum == \A c \in Cells(G) :
    LET W(t) == t[2].w IN grid[c][1] = SumSet(W, {t \in done : CellT(t) = c})
Conserved == LET W(t) == t[2].w
                 A(c) == grid[c][1]
             IN SumSet(A, Cells(G)) = SumSet(W, {t \in done : CellT(t) # -1})
(* A sample is in the grid exactly when -mab <= u < mab (even G). *)
InsideIffInRange == G % 2 = 0 =>
    \A t \in done : (CellT(t) # -1) <=> /\ t[2].u >= -8 * Mab /\ t[2].u < 8 * Mab
                                        /\ t[2].v >= -8 * Mab /\ t[2].v < 8 * Mab
=============================================================================
