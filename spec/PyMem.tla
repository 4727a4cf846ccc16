-------------------------------- MODULE PyMem --------------------------------
(* Python arrays and the library's descriptors of them, over one memory.

   Buffers hold elements (pairs of integers, for complex types). Arrays are views of a
   buffer: an offset, a shape and strides, all in elements, and a mode. Wrapping an array
   makes a descriptor with a copy of that view; from then on both sides read and write
   the same memory. A buffer lives as long as an array the user holds, or a descriptor,
   refers to it.

   Act(s, o) is the effect of an operation, Out(s, o) what it gives back. *)
EXTENDS Util

NTypes == <<"int8", "int32", "float32", "float64", "complex64", "complex128">>
Size(t) == CASE t = "int8" -> 1 [] t = "int32" -> 4 [] t = "float32" -> 4
             [] t = "float64" -> 8 [] t = "complex64" -> 8 [] OTHER -> 16
Code(t) == CASE t = "int8" -> 1 [] t = "int32" -> 2 [] t = "float32" -> 4
             [] t = "float64" -> 8 [] t = "complex64" -> 36 [] OTHER -> 40
Complex(t) == t \in {"complex64", "complex128"}

P0 == [bufs |-> << >>, arrs |-> << >>, mems |-> << >>]

(* 0-based positions in the buffer of the elements of a view, in C order. *)
Place(v, flat) == v.off + SumTo(LAMBDA k : Coord(v.sh, flat, k) * v.st[k], Len(v.sh))
Elems(v) == Prod(v.sh)
Read(s, v) == [j \in 1..Elems(v) |-> s.bufs[v.buf].data[Place(v, j - 1) + 1]]
\* Element j (from 0) of a view becomes x.
Write(s, v, j, x) == [s EXCEPT !.bufs[v.buf].data[Place(v, j) + 1] = x]
Put(s, v, q) == LET RECURSIVE g(_, _)
                    g(w, j) == IF j > Len(q) THEN w ELSE g(Write(w, v, j - 1, q[j]), j + 1)
                IN g(s, 1)

Drop(q, k) == [i \in 1..(Len(q) - 1) |-> IF i < k THEN q[i] ELSE q[i + 1]]
Insert(q, k, x) == [i \in 1..(Len(q) + 1) |-> IF i < k THEN q[i] ELSE IF i = k THEN x ELSE q[i - 1]]
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
CSt(sh) == [i \in 1..Len(sh) |-> ProdFrom(sh, i + 1)]
FSt(sh) == Rev(CSt(Rev(sh)))

(* The view that an indexing expression of numpy makes; o.x is the axis (from 1), o.n a number. *)
ViewOf(v, o) ==
    CASE o.how = "T" -> [v EXCEPT !.sh = Rev(@), !.st = Rev(@)]
      [] o.how = "rev" -> [v EXCEPT !.off = @ + (v.sh[o.x] - 1) * v.st[o.x], !.st[o.x] = -@]
      [] o.how = "step" -> [v EXCEPT !.sh[o.x] = CeilDiv(@, o.n), !.st[o.x] = @ * o.n]
      [] o.how = "from" -> [v EXCEPT !.off = @ + o.n * v.st[o.x], !.sh[o.x] = @ - o.n]
      [] o.how = "upto" -> [v EXCEPT !.sh[o.x] = @ - o.n]
      [] o.how = "idx" -> [v EXCEPT !.off = @ + o.n * v.st[o.x], !.sh = Drop(@, o.x), !.st = Drop(@, o.x)]
      [] o.how = "new" -> [v EXCEPT !.sh = Insert(@, o.x, 1), !.st = Insert(@, o.x, 0)]
      [] OTHER -> [v EXCEPT !.sh = <<o.n>> \o @, !.st = <<0>> \o @, !.ro = 1]         \* "bcast"
CanView(v, o) ==
    CASE o.how = "T" -> TRUE
      [] o.how = "bcast" -> o.n >= 1 /\ Len(v.sh) <= 3 /\ Elems(v) <= 60
      [] o.how = "new" -> o.x \in 1..(Len(v.sh) + 1) /\ Len(v.sh) <= 3
      [] OTHER -> /\ o.x \in 1..Len(v.sh) /\ Elems(v) > 0
                  /\ (o.how = "step" => o.n >= 1)
                  /\ (o.how \in {"from", "upto", "idx"} => o.n >= 0 /\ o.n < v.sh[o.x])

(* Which buffers something still refers to. *)
Alive(s, b) == \/ \E i \in 1..Len(s.arrs) : s.arrs[i].held /\ s.arrs[i].v.buf = b
               \/ \E m \in 1..Len(s.mems) : s.mems[m].live /\ s.mems[m].v.buf = b
Usable(s, i) == i \in 1..Len(s.arrs) /\ s.arrs[i].held
UsableMem(s, m) == m \in 1..Len(s.mems) /\ s.mems[m].live
Void == [buf |-> 0, t |-> "void", off |-> 0, sh |-> << >>, st |-> << >>, ro |-> 0]
Contig(v) == Len(v.sh) > 0 /\ v.st = CSt(v.sh)

(* Adding two vectors with the library's example function: the error code. *)
AddCode(a, b, c) ==
    IF c.ro = 1 THEN 1
    ELSE IF a.t # c.t \/ b.t # c.t THEN 3
    ELSE IF Elems(a) # Elems(c) \/ Elems(b) # Elems(c) THEN 1
    ELSE IF ~(Contig(a) /\ Contig(b) /\ Contig(c)) THEN 2
    ELSE IF c.t \notin {"float32", "float64"} THEN 3
    ELSE 0
\* Elements one after the other: the vectors may overlap.
AddTo(s, a, b, c) ==
    LET RECURSIVE g(_, _)
        g(w, j) == IF j >= Elems(c) THEN w
                   ELSE LET x == w.bufs[a.buf].data[Place(a, j) + 1][1]
                            y == w.bufs[b.buf].data[Place(b, j) + 1][1]
                        IN g(Write(w, c, j, <<x + y, 0>>), j + 1)
    IN g(s, 0)

Legal(s, o) ==
    CASE o.op = "arr" -> o.t \in {NTypes[k] : k \in 1..6}
      [] o.op = "view" -> Usable(s, o.i) /\ CanView(s.arrs[o.i].v, o)
      [] o.op \in {"lock", "wrap", "look", "forget"} -> Usable(s, o.i)
      [] o.op = "poke" -> Usable(s, o.i) /\ s.arrs[o.i].v.ro = 0 /\ o.n \in 0..(Elems(s.arrs[o.i].v) - 1)
      [] o.op = "see" -> UsableMem(s, o.m)
      [] o.op = "cpoke" -> UsableMem(s, o.m) /\ s.mems[o.m].v.buf # 0 /\ o.n \in 0..(Elems(s.mems[o.m].v) - 1)
      [] o.op = "free" -> UsableMem(s, o.m)
      \* Vectors with gaps are left out: the function does not refuse them (a recorded finding).
      [] o.op = "add" -> /\ Usable(s, o.i) /\ Usable(s, o.j) /\ Usable(s, o.k)
                         /\ AddCode(s.arrs[o.i].v, s.arrs[o.j].v, s.arrs[o.k].v) # 2
      [] OTHER -> TRUE
Act(s, o) ==
    CASE o.op = "arr" ->
           LET b == Len(s.bufs) + 1
           IN [s EXCEPT !.bufs = Append(@, [data |-> o.data, size |-> Size(o.t)]),
                        !.arrs = Append(@, [held |-> TRUE, v |-> [buf |-> b, t |-> o.t, off |-> 0, sh |-> o.sh,
                                    st |-> IF o.order = "c" THEN CSt(o.sh) ELSE FSt(o.sh), ro |-> 0]])]
      [] o.op = "view" -> [s EXCEPT !.arrs = Append(@, [held |-> TRUE, v |-> ViewOf(s.arrs[o.i].v, o)])]
      [] o.op = "lock" -> [s EXCEPT !.arrs[o.i].v.ro = 1]
      [] o.op = "poke" -> Write(s, s.arrs[o.i].v, o.n, o.val)
      [] o.op = "cpoke" -> Write(s, s.mems[o.m].v, o.n, o.val)
      [] o.op = "wrap" -> [s EXCEPT !.mems = Append(@, [live |-> TRUE, v |-> s.arrs[o.i].v])]
      [] o.op = "none" -> [s EXCEPT !.mems = Append(@, [live |-> TRUE, v |-> Void])]
      [] o.op = "forget" -> [s EXCEPT !.arrs[o.i].held = FALSE]
      [] o.op = "free" -> [s EXCEPT !.mems[o.m].live = FALSE]
      [] o.op = "add" ->
           LET a == s.arrs[o.i].v  b == s.arrs[o.j].v  c == s.arrs[o.k].v
           IN IF AddCode(a, b, c) = 0 THEN AddTo(s, a, b, c) ELSE s
      [] OTHER -> s                                               \* "look", "see", "bad"

---------------------------------------------------------------------------
(* Recorded events. numpy decides the strides of axes of length one (and of arrays with no
   elements); where an element is does not depend on them. *)
SameSt(t, sh, want, have) ==
    /\ Len(have) = Len(want)
    /\ \A k \in 1..Len(sh) : sh[k] <= 1 \/ Prod(sh) = 0 \/ have[k] = want[k] * Size(t)
Taken(s, i, e) ==       \* the array as numpy has it
    LET v == s.arrs[i].v
    IN [s EXCEPT !.arrs[i].v.st = [k \in 1..Len(v.st) |-> e.st[k] \div Size(v.t)]]
Seen(v, e) ==       \* e: the descriptor
    IF v.buf = 0 THEN e.ty = 0 /\ e.loc = 0 /\ e.nd = 0 /\ e.ne = 0 /\ e.ptr = -1
    ELSE /\ e.ty = Code(v.t) /\ e.loc = 0 /\ e.nd = Len(v.sh) /\ e.ro = v.ro
         /\ e.sh = v.sh /\ e.st = [k \in 1..Len(v.st) |-> v.st[k] * Size(v.t)]
         /\ e.ne = Elems(v) /\ e.cont = (IF Contig(v) THEN 1 ELSE 0)
         /\ (Elems(v) > 0 => e.ptr = v.off * Size(v.t))

StepWhy(s, e) ==
    LET o == e.o
        t == Act(s, o)
    IN IF e.e # "Step" THEN "event"
       ELSE IF ~Legal(s, o) THEN "driver: illegal"
       ELSE IF e.exc # (CASE o.op = "bad" -> "TypeError"
                          [] o.op = "add" -> LET c == AddCode(s.arrs[o.i].v, s.arrs[o.j].v, s.arrs[o.k].v)
                                             IN IF c = 0 THEN "" ELSE "CError " \o ToString(c)
                          [] OTHER -> "") THEN "outcome"
       ELSE IF o.op \in {"arr", "view"} /\
               LET v == t.arrs[Len(t.arrs)].v
               IN ~(e.sh = v.sh /\ SameSt(v.t, v.sh, v.st, e.st) /\ e.ro = v.ro) THEN "driver: view"
       ELSE IF o.op \in {"wrap", "none"} /\ ~Seen(t.mems[Len(t.mems)].v, e.d) THEN "descriptor"
       ELSE IF o.op = "see" /\ ~Seen(s.mems[o.m].v, e.d) THEN "descriptor changed"
       ELSE IF o.op = "see" /\ s.mems[o.m].v.buf # 0 /\ e.vals # Read(s, s.mems[o.m].v) THEN "seen by the library"
       ELSE IF o.op = "look" /\ e.vals # Read(s, s.arrs[o.i].v) THEN "seen by numpy"
       ELSE IF e.alive # [b \in 1..Len(t.bufs) |-> IF Alive(t, b) THEN 1 ELSE 0] THEN "lifetime"
       ELSE "ok"
StepTo(s, e) == LET t == Act(s, e.o)
                IN IF e.o.op \in {"arr", "view"} THEN Taken(t, Len(t.arrs), e) ELSE t
=============================================================================
