----------------------------- MODULE Weighting ------------------------------
(* Gridded uv-weights. A sample is [iu, iv, w] with w a weight per polarisation;
   the weight grid is a function (cell) -> weight per polarisation. *)
EXTENDS Util
(* Cell index along one axis of a coordinate of num/8 wavelengths on a grid of G
   cells spanning [-mab, mab): floor(u / mab * half) + half, half = G div 2. *)
CellIx(num, mab, G) == (num * (G \div 2)) \div (8 * mab) + G \div 2
InGrid(iu, iv, G) == iu >= 0 /\ iu < G /\ iv >= 0 /\ iv < G
CellOf(iu, iv, G) == iu * G + iv
(* Cell of sample (row, channel), or -1 when it is off the grid. *)
SampleCell(u, v, f, mab, G) ==
    LET iu == CellIx(u * f, mab, G)
        iv == CellIx(v * f, mab, G)
    IN IF InGrid(iu, iv, G) THEN CellOf(iu, iv, G) ELSE -1
(* The grid after one more sample. *)
Accumulate(grid, cell, w) ==
    IF cell = -1 THEN grid
    ELSE [grid EXCEPT ![cell] = [p \in DOMAIN w |-> @[p] + w[p]]]
=============================================================================
