----------------------------- MODULE WStackGen ------------------------------
(* The pool of workers, explored over every placement of the visibilities and every
   interleaving. A row of visibilities has one per channel; visibility v = row * Ch + ch
   weighs 3^v, so that a sum tells which visibilities went into it, and how many times.
   A sub-grid covers its own cell of the grid and a cell it shares with the next one.
   Adding to the grid is a read and a write, within a critical section if Critical. *)
EXTENDS WStack
CONSTANTS Rows, Ch, Grids, Planes, Workers, MinChunk, Critical, Locked
VARIABLES place,    \* visibility -> <<plane, sub-grid>>
          plane,    \* the plane being worked on; Planes + 1: all done
          tasks,    \* sub-grid -> chunks left and next row
          pc, job, sub, seen, count, grid, image, vis, crit
vars == <<place, plane, tasks, pc, job, sub, seen, count, grid, image, vis, crit>>
V == 0..(Rows * Ch - 1)
G == 1..Grids
W == 1..Workers
RECURSIVE Pow3(_)
Pow3(n) == IF n = 0 THEN 1 ELSE 3 * Pow3(n - 1)
Row(v) == v \div Ch
RECURSIVE Weigh(_)
Weigh(ws) == IF ws = {} THEN 0 ELSE LET v == CHOOSE v \in ws : TRUE IN Pow3(v) + Weigh(ws \ {v})
On(p) == {v \in V : place[v][1] = p}
OnG(p, g) == {v \in V : place[v] = <<p, g>>}
NewTasks(p) ==
    [g \in G |-> [left |-> Chunks(Cardinality(OnG(p, g)), (Rows * Ch) \div Workers, MinChunk),
                  row |-> 0,
                  size |-> RowsPerChunk(Rows, Chunks(Cardinality(OnG(p, g)), (Rows * Ch) \div Workers, MinChunk))]]
NoJob == [g |-> 0, lo |-> 0, hi |-> 0]
Cells2(g) == {g, g + 1}
Zero == [c \in 1..(Grids + 1) |-> 0]
Init == /\ place \in [V -> (1..Planes) \X G]
        /\ plane = 0 /\ tasks = [g \in G |-> [left |-> 0, row |-> 0, size |-> 0]]
        /\ pc = [t \in W |-> "idle"] /\ job = [t \in W |-> NoJob]
        /\ sub = [t \in W |-> 0] /\ seen = [t \in W |-> Zero]
        /\ count = 0 /\ grid = Zero /\ image = 0
        /\ vis = [v \in V |-> 0] /\ crit = 0
(* All workers have left the parallel region: the next plane, skipping empty ones. *)
NextPlane ==
    /\ plane <= Planes
    /\ \A t \in W : pc[t] = "idle"
    /\ LET p == plane + 1 IN
        /\ plane' = p
        /\ image' = IF plane = 0 THEN 0 ELSE image + grid[1]   \* one of the cells
        /\ count' = 0 /\ grid' = Zero
        /\ IF p > Planes \/ On(p) = {}
           THEN pc' = pc /\ tasks' = [g \in G |-> [left |-> 0, row |-> 0, size |-> 0]]
           ELSE pc' = [t \in W |-> "pick"] /\ tasks' = NewTasks(p)
    /\ UNCHANGED <<place, job, sub, seen, vis, crit>>
First == CHOOSE g \in G : tasks[g].left > 0 /\ \A h \in G : h < g => tasks[h].left = 0
(* Taking the next chunk: at once, or (without the lock) in two steps. *)
Take(g) == [g |-> g, lo |-> tasks[g].row, hi |-> Min(tasks[g].row + tasks[g].size, Rows)]
Pick(t) ==
    /\ pc[t] = "pick"
    /\ IF \A g \in G : tasks[g].left = 0
       THEN pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<tasks, job>>
       ELSE LET g == First IN
            /\ job' = [job EXCEPT ![t] = Take(g)]
            /\ IF Locked
               THEN /\ tasks' = [tasks EXCEPT ![g].left = @ - 1, ![g].row = @ + tasks[g].size]
                    /\ pc' = [pc EXCEPT ![t] = "work"]
               ELSE tasks' = tasks /\ pc' = [pc EXCEPT ![t] = "taken"]
    /\ UNCHANGED <<place, plane, sub, seen, count, grid, image, vis, crit>>
Taken(t) ==
    /\ pc[t] = "taken"
    /\ tasks' = [tasks EXCEPT ![job[t].g].left = @ - 1, ![job[t].g].row = @ + tasks[job[t].g].size]
    /\ pc' = [pc EXCEPT ![t] = "work"]
    /\ UNCHANGED <<place, plane, job, sub, seen, count, grid, image, vis, crit>>
Mine(t) == {v \in OnG(plane, job[t].g) : job[t].lo <= Row(v) /\ Row(v) < job[t].hi}
Work(t) ==
    /\ pc[t] = "work"
    /\ count' = count + Cardinality(Mine(t))
    /\ sub' = [sub EXCEPT ![t] = Weigh(Mine(t))]
    /\ vis' = [v \in V |-> IF v \in Mine(t) THEN vis[v] + 1 ELSE vis[v]]
    /\ pc' = [pc EXCEPT ![t] = IF Mine(t) = {} THEN "pick" ELSE "enter"]
    /\ UNCHANGED <<place, plane, tasks, job, seen, grid, image, crit>>
Enter(t) ==
    /\ pc[t] = "enter"
    /\ Critical => crit = 0
    /\ crit' = t
    /\ seen' = [seen EXCEPT ![t] = grid]
    /\ pc' = [pc EXCEPT ![t] = "add"]
    /\ UNCHANGED <<place, plane, tasks, job, sub, count, grid, image, vis>>
Add(t) ==
    /\ pc[t] = "add"
    /\ grid' = [c \in DOMAIN grid |-> IF c \in Cells2(job[t].g) THEN seen[t][c] + sub[t] ELSE grid[c]]
    /\ crit' = 0
    /\ pc' = [pc EXCEPT ![t] = "pick"]
    /\ UNCHANGED <<place, plane, tasks, job, sub, seen, count, image, vis>>
Step(t) == Pick(t) \/ Taken(t) \/ Work(t) \/ Enter(t) \/ Add(t)
Next == NextPlane \/ \E t \in W : Step(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(NextPlane) /\ \A t \in W : WF_vars(Step(t))
(* ---- What is promised *)
Between == \A t \in W : pc[t] = "idle"
PlaneDone == (Between /\ plane \in 1..Planes) =>
    /\ count = Cardinality(On(plane))
    /\ \A c \in DOMAIN grid : grid[c] = Weigh({v \in On(plane) : c \in Cells2(place[v][2])})
    /\ \A v \in V : vis[v] = IF place[v][1] <= plane THEN 1 ELSE 0
NoTwice == \A v \in V : vis[v] <= 1
Exclusive == \A t, u \in W : (t # u /\ pc[t] = "add") => pc[u] # "add"
OwnChunk == \A t, u \in W : (t # u /\ pc[t] \in {"work", "enter", "add"} /\ pc[u] \in {"work", "enter", "add"}) =>
    job[t].g # job[u].g \/ job[t].hi <= job[u].lo \/ job[u].hi <= job[t].lo
AllDone == plane = Planes + 1 =>
    /\ \A v \in V : vis[v] = 1
    /\ image = Weigh({v \in V : place[v][2] = 1})
Ends == <>(plane = Planes + 1)
(* ---- The partition and the chunks, checked once *)
Tiling == (plane = 0 /\ \A v \in V : place[v] = <<1, 1>>) =>
    /\ \A half \in {3, 4, 5} : \A lo \in -17..17 : \A hi \in lo..17 : \A x \in {lo, hi, (lo + hi) \div 2} :
        LET ks == FirstTile(lo, half)..LastTile(hi, half) IN
        /\ Cardinality({k \in ks : InTile(k, x, half)}) = 1
        /\ InTile(TileOf(x, half), x, half)
    /\ \A num \in 1..12 : \A per \in 1..5 : \A nr \in 1..7 :
        LET k == Chunks(num, per, 2) IN
        /\ k > 0
        /\ UNION {ChunkRows(nr, k, i) : i \in 0..(k - 1)} = 0..(nr - 1)
        /\ \A i, j \in 0..(k - 1) : i # j => ChunkRows(nr, k, i) \cap ChunkRows(nr, k, j) = {}
=============================================================================
