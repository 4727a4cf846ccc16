------------------------------ MODULE PyMemGen ------------------------------
(* 1. Exhaustively, on a few small arrays: views stay inside their buffers, descriptors
   go on meaning what they meant when they were made, and what one side writes the
   other reads. 2. Scripts for the conformance driver. *)
EXTENDS PyMem, Json
CONSTANTS Small, MaxLevel
VARIABLES s, hist
vars == <<s, hist>>

Data(n) == [j \in 1..n |-> <<j, 0>>]
Arr(t, sh, order) == [op |-> "arr", t |-> t, sh |-> sh, order |-> order, data |-> Data(Prod(sh))]
MCShapes == {<<2, 3>>, <<3>>}
Hows == {"T", "rev", "step", "from", "upto", "idx", "new", "bcast"}
MCOps ==
    {Arr("int32", sh, "f") : sh \in {x \in MCShapes : Len(s.arrs) < 2}}
    \cup {[op |-> "view", i |-> i, how |-> h, x |-> x, n |-> n] :
            i \in {k \in 1..Len(s.arrs) : Len(s.arrs) < 3}, h \in Hows, x \in 1..2, n \in 1..2}
    \cup {[op |-> o, i |-> i] : o \in {"lock", "forget"}, i \in 1..Len(s.arrs)}
    \cup {[op |-> "wrap", i |-> i] : i \in {k \in 1..Len(s.arrs) : Len(s.mems) < 2}}
    \cup {[op |-> "poke", i |-> i, n |-> n, val |-> <<-1, 0>>] : i \in 1..Len(s.arrs), n \in {0, 2}}
    \cup {[op |-> "cpoke", m |-> m, n |-> n, val |-> <<-2, 0>>] : m \in 1..Len(s.mems), n \in {0, 1}}
    \cup {[op |-> "free", m |-> m] : m \in 1..Len(s.mems)}
Start == s = [P0 EXCEPT !.arrs = << >>] /\ hist = << >>
MCNext == \E o \in MCOps : Legal(s, o) /\ s' = Act(s, o) /\ hist' = o
MCSpec == Start /\ [][MCNext]_vars
Bound == TLCGet("level") <= MaxLevel
View == s
Views == {s.arrs[i].v : i \in 1..Len(s.arrs)} \cup {s.mems[m].v : m \in {k \in 1..Len(s.mems) : s.mems[k].live}}
InvInside == \A v \in Views : v.buf # 0 =>
    \A j \in 0..(Elems(v) - 1) : Place(v, j) + 1 \in 1..Len(s.bufs[v.buf].data)
\* Without a broadcast, every element of a view has a place of its own.
InvOwnPlace == \A v \in Views : (\A k \in 1..Len(v.sh) : v.st[k] # 0 \/ v.sh[k] = 1) =>
    Cardinality({Place(v, j) : j \in 0..(Elems(v) - 1)}) = Elems(v)
\* Whoever can be used refers to memory that lives.
InvLives == \A v \in {s.arrs[i].v : i \in {k \in 1..Len(s.arrs) : s.arrs[k].held}} : Alive(s, v.buf)
\* A descriptor is not changed by what happens to the array it was made from, and only the place that is
\* written changes.
Keeps == [][/\ \A m \in 1..Len(s.mems) : s.mems[m].live =>
                  /\ s'.mems[m].v = s.mems[m].v
                  /\ Alive(s', s.mems[m].v.buf) \/ ~s'.mems[m].live
            /\ \A b \in 1..Len(s.bufs) :
                  Cardinality({j \in 1..Len(s.bufs[b].data) : s'.bufs[b].data[j] # s.bufs[b].data[j]}) <= 1]_vars

---------------------------------------------------------------------------
Draw(S) == RandomElement(IF Len(s.arrs) > 900 THEN {} ELSE S)
Shape(n) == [k \in 1..n |-> Draw({1, 2, 2, 3, 4, 5})]
GenShape == LET n == Draw({0, 1, 1, 2, 2, 3, 4})
                q == Shape(n)
            IN IF n > 0 /\ Draw(1..15) = 1 THEN [q EXCEPT ![Draw(1..n)] = 0]
               ELSE IF Prod(q) > 150 THEN <<q[1], q[2]>> ELSE q
HeldArrs == {i \in 1..Len(s.arrs) : s.arrs[i].held}
LiveMems == {m \in 1..Len(s.mems) : s.mems[m].live}
Bads == {"float16", "int64", "uint8", "bool", "uint32", "bigf8", "bigi4", "bigc16", "object", "str",
         "list", "float", "int", "text", "npfloat", "tuple", "int16", "record"}
GenArr == [op |-> "arr", t |-> NTypes[Draw(1..6)], sh |-> GenShape, order |-> Draw({"c", "f"})]
AnyView == {o \in {[op |-> "view", i |-> i, how |-> h, x |-> x, n |-> n] :
                     i \in HeldArrs, h \in Hows, x \in 1..4, n \in 1..3} : Legal(s, o)}
Vecs == {i \in HeldArrs : Contig(s.arrs[i].v) /\ Elems(s.arrs[i].v) > 0
                          /\ s.arrs[i].v.t \in {"float32", "float64"}}
Like(i) == {k \in Vecs : s.arrs[k].v.t = s.arrs[i].v.t /\ Elems(s.arrs[k].v) = Elems(s.arrs[i].v)}
One(S, o(_)) == IF S = {} THEN GenArr ELSE o(Draw(S))
GenOp ==
    LET c == Draw(1..100)
    IN CASE Len(s.arrs) = 0 \/ c <= 8 -> GenArr
         [] c <= 28 -> One(AnyView, LAMBDA o : o)
         [] c <= 48 -> One(HeldArrs, LAMBDA i : [op |-> "wrap", i |-> i])
         [] c <= 58 -> One(LiveMems, LAMBDA m : [op |-> "see", m |-> m])
         [] c <= 64 -> One({i \in HeldArrs : s.arrs[i].v.ro = 0 /\ Elems(s.arrs[i].v) > 0},
                           LAMBDA i : [op |-> "poke", i |-> i, n |-> Draw(0..(Elems(s.arrs[i].v) - 1))])
         [] c <= 70 -> One({m \in LiveMems : s.mems[m].v.buf # 0 /\ Elems(s.mems[m].v) > 0},
                           LAMBDA m : [op |-> "cpoke", m |-> m, n |-> Draw(0..(Elems(s.mems[m].v) - 1))])
         [] c <= 74 -> One(HeldArrs, LAMBDA i : [op |-> "look", i |-> i])
         [] c <= 77 -> One(HeldArrs, LAMBDA i : [op |-> "lock", i |-> i])
         [] c <= 83 -> One(HeldArrs, LAMBDA i : [op |-> "forget", i |-> i])
         [] c <= 87 -> One(LiveMems, LAMBDA m : [op |-> "free", m |-> m])
         [] c <= 91 -> [op |-> "bad", n |-> Draw(Bads)]
         [] c <= 92 -> [op |-> "none"]
         [] c <= 96 -> One(Vecs, LAMBDA i : [op |-> "add", i |-> i, j |-> Draw(Like(i)), k |-> Draw(Like(i))])
         [] OTHER -> One({o \in {[op |-> "add", i |-> i, j |-> j, k |-> k] : i \in HeldArrs, j \in HeldArrs, k \in HeldArrs} :
                             Legal(s, o)}, LAMBDA o : o)
Skeleton(o) == CASE o.op = "arr" -> Act(s, [data |-> << >>] @@ o)
                 [] o.op \in {"poke", "cpoke", "add", "see", "look", "bad"} -> s
                 [] OTHER -> Act(s, o)
GenNext == \E o \in {GenOp} : s' = Skeleton(o) /\ hist' = Append(hist, o)
GenSpec == Start /\ [][GenNext]_vars
Depth == 60
Emit == Len(hist) = Depth => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
