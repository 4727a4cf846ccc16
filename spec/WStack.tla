------------------------------- MODULE WStack -------------------------------
(* W-stacking with w-towers: every visibility belongs to one large w-plane and, on it, to
   one sub-grid; the visibilities of a sub-grid are handed out to workers in chunks of
   rows; each worker works on a sub-grid of its own, and all of them add to one grid.
   Positions are integers in units such that the width of a tile (a sub-grid's usable part,
   or the height of a tower) is 2 * half. *)
EXTENDS WTower
(* ---- The partition. Tile k is from (k - 1/2) widths (included) to (k + 1/2). *)
TileOf(x, half) == (x + half) \div (2 * half)
InTile(k, x, half) == (2 * k - 1) * half <= x /\ x < (2 * k + 1) * half
(* The tiles worked on lie between those of the extremes, one more where an extreme is on
   the edge of a tile. *)
FirstTile(lo, half) == IF (lo + half) % (2 * half) = 0 THEN TileOf(lo, half) - 1 ELSE TileOf(lo, half)
LastTile(hi, half) == TileOf(hi, half)
(* ---- Chunks: num visibilities in nr rows, not more than per (at least min) in a chunk
   on average. *)
Chunks(num, per, min) == LET m == Max(per, min) IN (num + m - 1) \div m
RowsPerChunk(nr, k) == IF k = 0 THEN nr ELSE (nr + k - 1) \div k
ChunkRows(nr, k, i) ==      \* rows of chunk i = 0, 1, ... of k
    LET r == RowsPerChunk(nr, k) IN {x \in 0..(nr - 1) : i * r <= x /\ x < (i + 1) * r}
=============================================================================
