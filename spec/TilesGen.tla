------------------------------ MODULE TilesGen ------------------------------
(* The sort as a concurrent algorithm: any number of samples are processed in any
   order; each atomically takes the next free slot of every bucket it belongs to.
   Checked exhaustively over small grids: the prefix sum of the counts gives every
   bucket exactly the room it needs, no slot is taken twice, and a finished sort
   holds every (sample, touched tile) pair exactly once, in its own bucket. *)
EXTENDS Tiles
CONSTANTS MaxG, Samples
VARIABLES G, t, S, pos, todo, offs, slots, start
vars == <<G, t, S, pos, todo, offs, slots, start>>
NT == NumTiles(G, t)
(* The table has no room for tiles before the first or after the last (a finding:
   see known_findings.txt); the sort is right for samples that do not touch those. *)
Fits(g) == Inside(g, S, G) => TileOf(g + S, G, t) < NT /\ TileOf(g - S, G, t) >= 0
TilesFor(i) == TilesOf(pos[i], G \div 2, S, G, t, t)
Buckets == 0..(NT * NT - 1)
Count(b) == Cardinality({i \in Samples : \E p \in TilesFor(i) : FlatTile(p, G, t) = b})
RECURSIVE Prefix(_)
Prefix(b) == IF b = 0 THEN 0 ELSE Prefix(b - 1) + Count(b - 1)
Init == /\ G \in 2..MaxG /\ t \in 2..4 /\ S \in 0..1
        /\ pos \in [Samples -> (-1)..MaxG]
        /\ \A i \in Samples : Fits(pos[i]) /\ pos[i] <= G
        /\ Fits(G \div 2)
        /\ todo = {<<i, p>> \in Samples \X ((0..MaxG) \X (0..MaxG)) : p \in TilesFor(i)}
        /\ start = [b \in 0..(NumTiles(G, t) * NumTiles(G, t)) |-> Prefix(b)]
        /\ offs = start
        /\ slots = << >>
Next == \E x \in todo :
    LET b == FlatTile(x[2], G, t) IN
    /\ todo' = todo \ {x}
    /\ slots' = slots @@ (offs[b] :> x)
    /\ offs' = [offs EXCEPT ![b] = @ + 1]
    /\ UNCHANGED <<G, t, S, pos, start>>
Spec == Init /\ [][Next]_vars
Total == start[NT * NT]
NoDoubleUse == \A x \in todo : offs[FlatTile(x[2], G, t)] \notin DOMAIN slots
InBucket == \A k \in DOMAIN slots : LET b == FlatTile(slots[k][2], G, t)
                                    IN k >= start[b] /\ k < start[b + 1]
Complete == todo = {} => DOMAIN slots = 0..(Total - 1) /\ \A b \in Buckets : offs[b] = start[b + 1]
(* A tile is touched exactly when it contains a touched cell. *)
TouchedExactly == \A i \in Samples : Inside(pos[i], S, G) =>
    \A k \in 0..MaxG : (k \in Touched(pos[i], S, G, t)) <=>
        (\E c \in (pos[i] - S)..(pos[i] + S) :
            c - TopLeft(G, t) >= k * t /\ c - TopLeft(G, t) < (k + 1) * t)
(* Which layouts have room for every cell of the grid. *)
RoomIff == (\A c \in 0..(G - 1) : TileOf(c, G, t) \in 0..(NT - 1))
           <=> /\ (G \div 2) % t <= t \div 2
               /\ G - TopLeft(G, t) <= NT * t
=============================================================================
