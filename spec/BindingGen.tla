----------------------------- MODULE BindingGen -----------------------------
(* 1. The life of one step of the Python layer, in small steps: the descriptors are made
   one after the other, any of them can fail, then the C function is called, which can
   report an error or hand out no handle; whatever happened, the descriptors are
   released and the caller learns of it. Checked exhaustively with a few objects.
   2. Scripts for the conformance driver: every row of the table with every kind of
   failure, and chains of steps of all functions on a few objects. *)
EXTENDS Binding, Json
CONSTANT Slots
VARIABLES s, hist
vars == <<s, hist>>

Idle == [op |-> "idle", need |-> 0, made |-> 0, slot |-> 0, called |-> 0, ok |-> TRUE, raised |-> FALSE]
Shapes == {<<r.kind, Cardinality(MemArgs(r))>> : r \in {Table[i] : i \in Rows}}
\* s.obj: the handle each slot holds (0: none); s.mem: live descriptors; s.new: handles so far;
\* s.freed: how often each handle was freed.
MC0 == [cur |-> Idle, obj |-> [k \in Slots |-> 0], mem |-> 0, new |-> 0, freed |-> << >>, late |-> FALSE]
MCInit == s = MC0 /\ hist = << >>
Begin == /\ s.cur.op = "idle"
         /\ \E q \in Shapes : \E k \in Slots :
              /\ (q[1] = "new" => s.obj[k] = 0 /\ s.new < 4) /\ (q[1] \in {"meth", "get"} => s.obj[k] # 0)
              /\ s' = [s EXCEPT !.cur = [Idle EXCEPT !.op = q[1], !.need = q[2], !.slot = k]]
Make == /\ s.cur.op # "idle" /\ s.cur.called = 0 /\ s.cur.ok /\ s.cur.made < s.cur.need
        /\ \/ s' = [s EXCEPT !.cur.made = @ + 1, !.mem = @ + 1]
           \/ s' = [s EXCEPT !.cur.ok = FALSE, !.cur.raised = TRUE]     \* unsupported, or no memory
CallC == /\ s.cur.op # "idle" /\ s.cur.called = 0 /\ s.cur.ok /\ s.cur.made = s.cur.need
         /\ \/ s' = [s EXCEPT !.cur.called = 1, !.cur.ok = FALSE, !.cur.raised = TRUE]   \* error code
            \/ /\ s.cur.op # "new" /\ s' = [s EXCEPT !.cur.called = 1]
            \/ /\ s.cur.op = "new"
               /\ s' = [s EXCEPT !.cur.called = 1, !.new = @ + 1, !.obj[s.cur.slot] = s.new + 1,
                                 !.freed = Append(@, 0)]
Finish == /\ s.cur.op # "idle" /\ (s.cur.called = 1 \/ ~s.cur.ok)
          /\ s' = [s EXCEPT !.cur = Idle, !.mem = s.mem - s.cur.made]
Drop == /\ s.cur.op = "idle"
        /\ \E k \in Slots : /\ s.obj[k] # 0
                            /\ s' = [s EXCEPT !.freed[s.obj[k]] = @ + 1, !.obj[k] = 0]
MCNext == (Begin \/ Make \/ CallC \/ Finish \/ Drop) /\ UNCHANGED hist
MCSpec == MCInit /\ [][MCNext]_vars
InvQuiet == s.cur.op = "idle" => s.mem = 0
InvWhole == s.cur.called = 1 => s.cur.made = s.cur.need
InvRaised == ~s.cur.ok => s.cur.raised
InvOnce == \A h \in 1..s.new : s.freed[h] <= 1
InvHeld == \A h \in 1..s.new : (\E k \in Slots : s.obj[k] = h) <=> s.freed[h] = 0
InvOwn == \A j, k \in Slots : j # k /\ s.obj[j] # 0 => s.obj[j] # s.obj[k]

---------------------------------------------------------------------------
Classes == {Table[i].py : i \in {i \in Rows : Table[i].kind = "new"}}
IsPrefix2(p, q) == Len(p) < Len(q) /\ SubSeq(q, 1, Len(p)) = p
Owner == TLCEval([i \in Rows |-> IF Table[i].kind \in {"meth", "get"}
                                 THEN CHOOSE c \in Classes : IsPrefix2(c \o ".", Table[i].py) ELSE ""])
ObjClass(r) == IF \E k \in 1..Len(r.ps) : r.ps[k][2] = "obj"
               THEN r.ps[CHOOSE k \in 1..Len(r.ps) : r.ps[k][2] = "obj"][3] ELSE ""
Optional(r) == {k \in 1..Len(r.ps) : r.ps[k][2] # "obj" /\ r.ps[k][3] # ""}
Nullable(r) == {k \in 1..Len(r.ps) : r.ps[k][2] = "mem" \/ (r.ps[k][2] # "obj" /\ r.ps[k][4] # "")}
Plain(r) == {k \in 1..Len(r.ps) : r.ps[k][2] = "mem"}
NamesOf(r, K) == LET RECURSIVE g(_)
                     g(X) == IF X = {} THEN << >>
                             ELSE LET k == Least(X) IN <<r.ps[k][1]>> \o g(X \ {k})
                 IN g(K)
Op(i, h) == LET r == Table[i]
            IN [op |-> r.kind, f |-> r.py, h |-> h, h2 |-> 0, mode |-> "pos",
                ps |-> [k \in 1..Len(r.ps) |-> <<r.ps[k][1], r.ps[k][2]>>],
                omit |-> << >>, none |-> << >>, bad |-> "", err |-> 0, null |-> 0, memfail |-> 0,
                memerr |-> 0, wrong |-> 0]
DropOp(h) == [op |-> "drop", h |-> h]
RowOfClass(c) == RowOf[c]

\* Every way one row can go, in a script of its own: object in slot 1, a second one in slot 2.
Ways(i, h) ==
    LET r == Table[i]
        o == Op(i, h)
        nm == Cardinality(MemArgs(r))
        q(b, x) == IF b THEN <<x>> ELSE << >>
        RECURSIVE none(_)
        none(X) == IF X = {} THEN << >>
                   ELSE LET k == Least(X)
                        IN <<[o EXCEPT !.none = <<r.ps[k][1]>>, !.mode = IF k % 2 = 0 THEN "kw" ELSE "pos"]>>
                           \o none(X \ {k})
        RECURSIVE bad(_)
        bad(X) == IF X = {} THEN << >> ELSE LET k == Least(X)
                                            IN <<[o EXCEPT !.bad = r.ps[k][1]]>> \o bad(X \ {k})
    IN <<o, [o EXCEPT !.mode = "kw"], o, [o EXCEPT !.mode = "mixed"]>>
       \o q(Optional(r) # {}, [o EXCEPT !.omit = NamesOf(r, Optional(r))])
       \o q(Optional(r) # {}, [o EXCEPT !.omit = <<r.ps[Least(Optional(r))][1]>>, !.mode = "kw"])
       \o q(Optional(r) # {}, [o EXCEPT !.omit = <<r.ps[Most(Optional(r))][1]>>, !.mode = "kw"])
       \o none(Nullable(r)) \o bad(Plain(r))
       \o (IF r.c # "" /\ r.py \notin NoStatus
           THEN [k \in 1..8 |-> [o EXCEPT !.err = k, !.mode = IF k % 2 = 0 THEN "kw" ELSE "pos"]] ELSE << >>)
       \o [k \in 1..nm |-> [o EXCEPT !.memfail = k, !.memerr = 1 + (k % 6)]]
       \o q(\E k \in 1..Len(r.ps) : r.ps[k][2] = "memv", [o EXCEPT !.wrong = 1])
       \o q(\E k \in 1..Len(r.ps) : r.ps[k][2] = "chan", [o EXCEPT !.wrong = 2])
       \o <<o>>
Making(i, h) ==     \* attempts at making an object that come to nothing, then one that works
    LET W == Ways(i, h)
        good(o) == o.bad = "" /\ o.err = 0 /\ o.memfail = 0
        RECURSIVE g(_)
        g(k) == IF k > Len(W) THEN << >>
                ELSE (IF good(W[k]) THEN <<W[k], DropOp(h)>> ELSE <<W[k]>>) \o g(k + 1)
    IN g(1) \o (IF Table[i].py = "fourier_transforms.swiftly.Swiftly" THEN << >>
                ELSE <<[Op(i, h) EXCEPT !.null = 1]>>) \o <<Op(i, h), Op(i, h + 1), DropOp(h)>>
SweepOf(i) ==
    LET r == Table[i]
    IN CASE r.kind = "new" -> Making(i, 1)
         [] r.kind \in {"meth", "get"} ->
              LET c == RowOfClass(Owner[i])
                  W == Ways(i, 1)
              IN <<Op(c, 1), Op(c, 2)>>
                 \o (IF r.kind = "get" THEN <<Op(i, 1), Op(i, 2), Op(i, 1)>> ELSE W)
                 \o <<Op(i, 2), DropOp(1), Op(i, 2)>>
         [] OTHER ->
              IF ObjClass(r) = "" THEN Ways(i, 0)
              ELSE LET W == Ways(i, 0)
                   IN <<Op(RowOfClass(ObjClass(r)), 1), Op(RowOfClass(ObjClass(r)), 2)>>
                      \o [k \in 1..Len(W) |-> [W[k] EXCEPT !.h2 = 1 + (k % 2)]]
SweepInit == \E i \in Rows : s = MC0 /\ hist = SweepOf(i)
SweepSpec == SweepInit /\ [][FALSE]_vars
SweepEmit == PrintT("SCRIPT " \o ToJson(hist))

\* Chains of steps; s.obj: the class of the object in each slot.
Draw(S) == RandomElement(IF s.late THEN {} ELSE S)
Chance(n) == Draw(1..n) = 1
Vary(i, o) ==
    LET r == Table[i]
        nm == Cardinality(MemArgs(r))
        m == Draw({"pos", "kw", "mixed"})
        om == {k \in Optional(r) : Draw({0, 1}) = 1}
        no == {k \in Nullable(r) : Draw(1..6) = 1}
        o1 == [o EXCEPT !.mode = m, !.omit = NamesOf(r, om), !.none = NamesOf(r, no)]
        c == Draw(1..12)
    IN IF c <= 2 /\ r.c # "" /\ r.py \notin NoStatus THEN [o1 EXCEPT !.err = Draw(1..8)]
       ELSE IF c = 3 /\ nm > 0 THEN [o1 EXCEPT !.memfail = Draw(1..nm), !.memerr = Draw(1..7)]
       ELSE IF c = 4 /\ Plain(r) # {} THEN [o1 EXCEPT !.none = << >>, !.bad = r.ps[Draw(Plain(r))][1]]
       ELSE IF c = 5 THEN [o1 EXCEPT !.wrong = Draw({1, 2})]
       ELSE IF c = 6 /\ r.kind = "new" /\ r.py # "fourier_transforms.swiftly.Swiftly"
            THEN [o1 EXCEPT !.null = 1]
       ELSE o1
Held(c) == {k \in Slots : s.obj[k] = c}
GenInit == s = [MC0 EXCEPT !.obj = [k \in Slots |-> ""]] /\ hist = << >>
GenNext ==
    \E o \in {LET coin == Draw(1..10)
                  free == Held("")
                  held == Slots \ free
                  M(k) == {i \in Rows : Table[i].kind \in {"meth", "get"} /\ Owner[i] = s.obj[k]}
                  C == {i \in Rows : Table[i].kind = "call" /\ (ObjClass(Table[i]) = "" \/ Held(ObjClass(Table[i])) # {})}
              IN IF coin <= 3 /\ free # {} THEN LET i == RowOf[Draw(Classes)] IN Vary(i, Op(i, Draw(free)))
                 ELSE IF coin = 4 /\ held # {} THEN DropOp(Draw(held))
                 ELSE IF coin <= 8 /\ held # {}
                      THEN LET k == Draw(held)
                               i == Draw(M(k))
                           IN IF Table[i].kind = "get" THEN Op(i, k) ELSE Vary(i, Op(i, k))
                 ELSE LET i == Draw(C)
                          oc == ObjClass(Table[i])
                      IN [Vary(i, Op(i, 0)) EXCEPT !.h2 = IF oc = "" THEN 0 ELSE Draw(Held(oc))]} :
      /\ hist' = Append(hist, o)
      /\ s' = IF o.op = "drop" THEN [s EXCEPT !.obj[o.h] = ""]
              ELSE IF o.op = "new" /\ o.err = 0 /\ o.null = 0 /\ o.bad = "" /\ o.memfail = 0
                   THEN [s EXCEPT !.obj[o.h] = o.f] ELSE s
GenSpec == GenInit /\ [][GenNext]_vars
Depth == 30
Emit == Len(hist) = Depth => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
