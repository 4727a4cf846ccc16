----------------------------- MODULE SwiftlyGen -----------------------------
(* Theorems about the transform, over configurations, offsets and pixels:
   Forward  a facet pixel y (a multiple of the step from the facet's centre) reaches
            every sample x of every sub-grid with the phase of x y / N, exactly;
   Backward the way back multiplies by the opposite phase;
   Inverse  preparing a sub-grid undoes finishing one;
   Periodic offsets count modulo the image size;
   Placed   no two entries of a contribution meet. *)
EXTENDS Swiftly
CONSTANTS Cfgs, K, Xs
VARIABLES p, fo, so, y0, x0
vars == <<p, fo, so, y0, x0>>
C0 == {[N |-> 8, yN |-> 4, xM |-> 4], [N |-> 12, yN |-> 6, xM |-> 6]}
C1 == {[N |-> 8, yN |-> 4, xM |-> 4], [N |-> 12, yN |-> 6, xM |-> 6],
       [N |-> 12, yN |-> 6, xM |-> 4], [N |-> 12, yN |-> 12, xM |-> 6]}
C2 == C1 \cup {[N |-> 16, yN |-> 8, xM |-> 8], [N |-> 24, yN |-> 12, xM |-> 8],
       [N |-> 24, yN |-> 8, xM |-> 12], [N |-> 12, yN |-> 6, xM |-> 12],
       [N |-> 20, yN |-> 10, xM |-> 10]}
Mults(n, d, k) == {d * i : i \in (-k)..(n \div d + k)}
\* A window whose values have exact reciprocals.
Wd(i) == CASE i % 3 = 0 -> 1000000 [] i % 3 = 1 -> 500000 [] OTHER -> 250000
W == [i \in 1..p.yN |-> Wd(i)]
Fb == [i \in 1..p.yN |-> CASE i % 3 = 0 -> U [] i % 3 = 1 -> 2 * U [] OTHER -> 4 * U]
Init == p \in Cfgs /\ fo = 0 /\ so = 0 /\ y0 = 0 /\ x0 = -1
Next == /\ x0 = -1
        /\ p' = p
        /\ fo' \in Mults(p.N, Step(p), K)
        /\ so' \in Mults(p.N, p.N \div p.yN, K)
        /\ y0' \in {y \in Mults(p.yN, Step(p), p.yN) : 2 * y < p.yN /\ 2 * y >= -p.yN
                       /\ y \div Step(p) - (-1) * (MSize(p) \div 2) \in 0..(MSize(p) - 1)}
        /\ x0' \in {x \in Xs : x < p.xM}
Spec == Init /\ [][Next]_vars
Unit(n, i, v) == [k \in 1..n |-> IF k = i + 1 THEN <<v, 0>> ELSE <<0, 0>>]
Forward == x0 >= 0 =>
    LET f == Unit(p.yN, p.yN \div 2 + y0, U)
        c == ExtractFromFacet(p, PrepareFacet(p, Fb, f, fo), so)
        img == AddToSubgrid(p, W, c, Zeros(p.xM), fo)
        sg == FinishSubgrid(p, img, so, p.xM)
    IN \A i \in 1..p.xM :
        CNear(sg[i], CTurn(<<RDiv(U, p.N), 0>>, p.N,
                           (fo + y0) * (so + i - 1 - p.xM \div 2)), 8)
Backward == x0 >= 0 =>
    LET img == PrepareSubgrid(p, Unit(p.xM, x0, U), so)
        c == ExtractFromSubgrid(p, W, img, fo)
        g == AddToFacet(p, c, Zeros(p.yN), so)
        f == FinishFacet(p, Fb, g, fo, p.yN)
    IN CNear(At(f, p.yN \div 2 + y0),
             CTurn(<<U, 0>>, p.N, -(fo + y0) * (so + x0 - p.xM \div 2)), 60)
Inverse == x0 >= 0 =>
    LET x == Unit(p.xM, x0, U)
        y == FinishSubgrid(p, PrepareSubgrid(p, x, so), so, p.xM)
        z == PrepareSubgrid(p, FinishSubgrid(p, x, so, p.xM), so)
    IN \A i \in 1..p.xM : CNear(x[i], y[i], 8) /\ CNear(x[i], z[i], 40)
Periodic ==
    /\ \A i \in 0..(MSize(p) - 1) :
        /\ ImagePos(p, fo, i) = ImagePos(p, fo + p.N, i)
        /\ ImageFrom(p, fo, i) = ImageFrom(p, fo + p.N, i)
        /\ ContribPos(p, so, i) = ContribPos(p, so + p.N, i)
    /\ SubgridPos(p, so, p.xM, x0) = SubgridPos(p, so + p.N, p.xM, x0)
    /\ FacetPos(p, fo, p.yN, 0) = FacetPos(p, fo + p.N, p.yN, 0)
Placed ==
    \A i, j \in 0..(MSize(p) - 1) : i # j =>
        /\ ImagePos(p, fo, i) # ImagePos(p, fo, j)
        /\ ImageFrom(p, fo, i) # ImageFrom(p, fo, j)
        /\ ContribPos(p, so, i) # ContribPos(p, so, j)
=============================================================================
