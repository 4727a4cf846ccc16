----------------------------- MODULE WTowerGen ------------------------------
(* Theorems about the w-tower method, over positions and pixels:
   Partition every coordinate between the lowest and the highest is on exactly one of the
             planes worked on;
   Footprint the cells of a kernel surround the position; nothing else is cut off than
             positions whose cells leave the sub-grid;
   Rows      the row of the w-kernel runs from 0 to ov and both ends are used;
   Accurate  the footprint reproduces the transform of a pixel, times the window, to the
             accuracy the support is good for;
   Moved     counting from another plane, or another cell, does not change the row. *)
EXTENDS WTower
CONSTANTS Sizes, Supports, Ov, Lim, Pix
VARIABLES S, sup, x, lo, hi, p
vars == <<S, sup, x, lo, hi, p>>
SS == {4, 6, 8}
S1 == {16, 20}
S2 == {16, 18, 20, 24, 32}
PP == {-4, -1, 0, 2, 3}
P2 == -4..4
Init == S \in Sizes /\ sup \in Supports /\ x = 0 /\ lo = 0 /\ hi = -1 /\ p = 0
Next == /\ hi < lo
        /\ S' = S /\ sup' = sup
        /\ x' \in (-Lim * Ov)..(Lim * Ov)
        /\ lo' \in {x', x' - 1, x' - Ov, x' - 2 * Ov - 1}
        /\ hi' \in {x', x' + 1, x' + Ov, x' + 3 * Ov - 1}
        /\ p' \in Pix
Spec == Init /\ [][Next]_vars
Ready == hi >= lo
Partition == Ready =>
    /\ Cardinality({k \in FirstPlane(lo, Ov)..LastPlane(hi, Ov) : OnPlane(k, x, Ov)}) = 1
    /\ OnPlane(PlaneOf(x, Ov), x, Ov)
    /\ FirstPlane(lo, Ov) <= PlaneOf(lo, Ov) /\ PlaneOf(hi, Ov) < LastPlane(hi, Ov)
Footprint == Ready =>
    LET pos == x + (S \div 2) * Ov
    IN /\ \A c \in Cells(S, sup, x, Ov) : 2 * Abs(c * Ov - pos) <= sup * Ov
       /\ Fits(S, sup, x, Ov) <=> pos - (sup \div 2) * Ov >= -Ov /\ pos + (sup \div 2) * Ov < S * Ov
Rows == Ready =>
    \A k \in FirstPlane(lo, Ov)..LastPlane(hi, Ov) : OnPlane(k, x, Ov) =>
        /\ WRow(x, k, Ov, 2) \in 0..2
        /\ WRow(x, k, Ov, Ov) = KernelRow(x, Ov)
Accurate == (Ready /\ lo = x /\ hi = x) =>
    LET z == Spread(sup, 16, Ov, x, p)
        w == WindowAt(sup, p)
        t == Turn6(p * x, 16 * Ov)
        tol == CASE sup = 4 -> 10000 [] sup = 6 -> 1100 [] OTHER -> 60
    IN Near(z[1], MulM(w, CosMt(t)), tol) /\ Near(z[2], MulM(w, SinMt(t)), tol)
Moved == Ready =>
    \A k \in {-2, 1, 5} : /\ KernelRow(x + k * Ov, Ov) = KernelRow(x, Ov)
                          /\ Corner(S, sup, x + k * Ov, Ov) = Corner(S, sup, x, Ov) + k
=============================================================================
