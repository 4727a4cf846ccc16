----------------------------- MODULE TraceTiles -----------------------------
EXTENDS TraceBase, Tiles
I0 == [G |-> 0]
NS(e) == Len(e.u)
Sets(st) == [i \in 1..Len(st.u) |->
    TilesOf(GridCell(st.u[i], st.D, st.G), GridCell(st.v[i], st.D, st.G),
            st.S, st.G, st.tu, st.tv)]
NTile(st) == NumTiles(st.G, st.tu) * NumTiles(st.G, st.tv)
CountIn(st, b, sets) ==
    Cardinality({i \in 1..Len(sets) : \E p \in sets[i] : FlatTile(p, st.G, st.tu) = b})
WhyCount(e) ==
    LET sets == Sets(e)
        n == NTile(e)
        cnt == [b \in 1..n |-> CountIn(e, b - 1, sets)]
    IN IF e.err # 0 THEN "failed"
       ELSE IF e.cnt # cnt THEN "tile counts"
       ELSE IF Len(e.offs) # n + 1 \/ e.offs[1] # 0
               \/ \E b \in 1..n : e.offs[b + 1] # e.offs[b] + cnt[b] THEN "prefix sum"
       ELSE IF e.nvis # e.offs[n + 1] THEN "number of visibilities"
       ELSE IF e.skip # Cardinality({i \in 1..NS(e) : sets[i] = {}}) THEN "skipped"
       ELSE "ok"
(* The finished sort: one entry per (sample, touched tile), in that tile's bucket. *)
WhySort(st, e) ==
    LET sets == Sets(st)
        n == NTile(st)
        Entry(i, p) == IF e.e = "Sort"
            THEN <<TileCode(p), st.u[i], st.v[i], e.w[i], e.vr[i], e.vi[i]>>
            ELSE <<TileCode(p), st.u[i], st.v[i], i - 1>>
        Got(k) == IF e.e = "Sort"
            THEN <<e.tile[k], e.uu[k], e.vv[k], e.sw[k], e.svis[2 * k - 1], e.svis[2 * k]>>
            ELSE <<e.tile[k], e.uu[k], e.vv[k], e.sidx[k]>>
        InB(b) == {i \in 1..Len(sets) : \E p \in sets[i] : FlatTile(p, st.G, st.tu) = b}
        Tile(i, b) == CHOOSE p \in sets[i] : FlatTile(p, st.G, st.tu) = b
        Slots(b) == (st.offs[b + 1] + 1)..st.offs[b + 2]
        Times(x, b) == Cardinality({i \in InB(b) : Entry(i, Tile(i, b)) = x})
    IN IF e.err # 0 THEN "failed"
       ELSE IF e.same # 1 THEN "an input was modified"
       ELSE IF \E b \in 0..(n - 1) : \E k \in Slots(b) :
               LET g == Got(k) IN Cardinality({j \in Slots(b) : Got(j) = g}) # Times(g, b)
            THEN "bucket contents"
       ELSE IF \E b \in 1..n : e.offs[b] # st.offs[b + 1] THEN "bucket ends"
       ELSE "ok"
Why(st, e) == IF e.e = "Count" THEN WhyCount(e) ELSE WhySort(st, e)
Apply(st, e) == IF e.e = "Count" THEN e ELSE st
Init == TInit(I0)
Next == TNext(I0, Why, Apply)
Spec == Init /\ [][Next]_tvars
=============================================================================
