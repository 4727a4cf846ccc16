------------------------------- MODULE Tiles --------------------------------
(* Sorting visibilities into the tiles of a grid.
   A grid of G cells per side is cut into tiles of tu x tv cells, laid out so that
   the centre of a tile coincides with the grid centre. A visibility at grid cell g
   touches cells g - S .. g + S. *)
EXTENDS Util
RoundDiv(n, d) == IF n < 0 THEN -((2 * (-n) + d) \div (2 * d)) ELSE (2 * n + d) \div (2 * d)
GridCell(n, D, G) == RoundDiv(n, D) + G \div 2
Inside(g, S, G) == g + S < G /\ g - S >= 0
TopLeft(G, t) == G \div 2 - ((G \div 2) \div t) * t - t \div 2
NumTiles(G, t) == (G + t - 1) \div t
(* Tile that contains a grid cell. *)
TileOf(cell, G, t) == (cell - TopLeft(G, t)) \div t
(* Tiles touched along one axis. *)
Touched(g, S, G, t) == TileOf(g - S, G, t)..TileOf(g + S, G, t)
TilesOf(gu, gv, S, G, tu, tv) ==
    IF Inside(gu, S, G) /\ Inside(gv, S, G)
    THEN {<<pu, pv>> : pu \in Touched(gu, S, G, tu), pv \in Touched(gv, S, G, tv)}
    ELSE {}
FlatTile(p, G, tu) == p[1] + p[2] * NumTiles(G, tu)
TileCode(p) == p[2] * 32768 + p[1]
=============================================================================
