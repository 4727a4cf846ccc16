-------------------------------- MODULE Mem --------------------------------
(***************************************************************************)
(* The memory-handle machine of the processing function library: handles   *)
(* (reference counted, with shape/stride metadata), the buffers that they  *)
(* describe, and a sticky error status shared by a chain of calls.         *)
(*                                                                         *)
(* The state is a record                                                   *)
(*   hs  : sequence of handles ever returned (0 is the null handle);       *)
(*   bufs: sequence of buffers ever seen, each a sequence of components    *)
(*         (one per element, two for complex types);                       *)
(*   st  : the error status.                                               *)
(* Every API call is an operation record; Apply(s, o) is the call's effect.*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Types == {"char", "int", "float", "double", "cf", "cd"}
TSize(t) == CASE t = "char" -> 1 [] t = "int" -> 4 [] t = "float" -> 4
              [] t = "double" -> 8 [] t = "cf" -> 8 [] t = "cd" -> 16
              [] OTHER -> 0
NC(t) == IF t \in {"cf", "cd"} THEN 2 ELSE 1

OK == 0  ERuntime == 1  EInvalid == 2  EType == 3
EAlloc == 4  ECopy == 5  ELocation == 6

RECURSIVE Prod(_)
Prod(q) == IF q = << >> THEN 1 ELSE Head(q) * Prod(Tail(q))

\* Default (C order) strides, in bytes.
CStride(t, shape) ==
    [i \in 1..Len(shape) |-> TSize(t) * Prod(SubSeq(shape, i + 1, Len(shape)))]

IsContig(t, shape, stride) == Len(shape) > 0 /\ stride = CStride(t, shape)

NullHandle == [live |-> FALSE, rc |-> 0, buf |-> 0, off |-> 0, type |-> "void",
               loc |-> 0, shape |-> << >>, stride |-> << >>, ro |-> 0,
               own |-> 0]

Handle(b, off, t, loc, shape, stride, own) ==
    [live |-> TRUE, rc |-> 1, buf |-> b, off |-> off, type |-> t, loc |-> loc,
     shape |-> shape, stride |-> stride, ro |-> 0, own |-> own]

NE(h) == IF h.type = "void" THEN 0 ELSE Prod(h.shape)
HasData(h) == h.buf # 0
Contig(h) == HasData(h) /\ IsContig(h.type, h.shape, h.stride)

\* All index tuples of a shape, in C order, as the sequence of element
\* offsets (in elements, relative to the handle's own start).
RECURSIVE Offsets(_, _, _)
Offsets(t, shape, stride) ==
    IF shape = << >> THEN << 0 >>
    ELSE LET inner == Offsets(t, Tail(shape), Tail(stride))
             n == Len(inner)
             s == Head(stride) \div TSize(t)
         IN [k \in 1..(Head(shape) * n) |->
                ((k - 1) \div n) * s + inner[((k - 1) % n) + 1]]

\* Component positions (1-based, in the buffer) of element offset e.
Comp(h, e, c) == (h.off + e) * NC(h.type) + c

Elements(s, h) ==
    LET o == Offsets(h.type, h.shape, h.stride)
        nc == NC(h.type)
        d == s.bufs[h.buf].data
    IN [k \in 1..(Len(o) * nc) |->
            d[Comp(h, o[((k - 1) \div nc) + 1], ((k - 1) % nc) + 1)]]

\* The set of component positions that belong to a handle.
Footprint(h) ==
    LET o == Offsets(h.type, h.shape, h.stride)
    IN {Comp(h, o[k], c) : k \in 1..Len(o), c \in 1..NC(h.type)}

Zeros(n) == [i \in 1..n |-> 0]

Init0 == [hs |-> << >>, bufs |-> << >>, st |-> OK]

AddHandle(s, h) == [s EXCEPT !.hs = Append(@, h)]
AddBuf(s, t, data, ext) ==
    [s EXCEPT !.bufs = Append(@, [live |-> TRUE, type |-> t, data |-> data,
                                  ext |-> ext])]
SetSt(s, e) == [s EXCEPT !.st = e]
\* The first error wins: a check never overwrites a pending error.
Fail(s, e) == IF s.st # OK THEN s ELSE SetSt(s, e)
R(s, r) == [s |-> s, ret |-> r]
NewH(s, h) == R(AddHandle(s, h), Len(s.hs) + 1)

\* Allocation of a new owned block, done only when no error is pending.
Alloc(s, t, loc, shape, data) ==
    LET h0 == Handle(0, 0, t, loc, shape, CStride(t, shape), 1)
    IN IF s.st # OK \/ Prod(shape) = 0 THEN NewH(s, h0)
       ELSE IF loc # 0 THEN NewH(SetSt(s, ELocation), h0)
       ELSE LET s1 == AddBuf(s, t, data, FALSE)
            IN NewH(s1, [h0 EXCEPT !.buf = Len(s1.bufs)])

SetComps(s, b, P, v(_)) ==
    [s EXCEPT !.bufs[b].data =
        [i \in DOMAIN @ |-> IF i \in P THEN v(i) ELSE @[i]]]

\* Component range of elements start..start+n-1 of a handle taken as flat.
FlatRange(h, start, n) ==
    {(h.off + start) * NC(h.type) + c : c \in 1..(n * NC(h.type))}

SliceOk(h, offs, shape) ==
    /\ Len(shape) <= Len(h.shape)
    /\ \A i \in 1..Len(h.shape) : offs[i] >= 0 /\ offs[i] < h.shape[i]
    /\ LET lead == Len(h.shape) - Len(shape)
       IN \A i \in 1..Len(shape) : offs[lead + i] + shape[i] <= h.shape[lead + i]

RECURSIVE DotOffs(_, _)
DotOffs(a, b) == IF a = << >> THEN 0
                 ELSE Head(a) * Head(b) + DotOffs(Tail(a), Tail(b))

ShapeDim(h, d) == IF d < 0 \/ d >= Len(h.shape) THEN 0 ELSE h.shape[d + 1]
StrideDim(h, d) == IF d < 0 \/ d >= Len(h.shape) THEN 0 ELSE h.stride[d + 1]

ReadOnly(h) == IF HasData(h) THEN h.ro ELSE 1
IsComplex4(h) ==
    LET n == Len(h.shape)
    IN /\ HasData(h) /\ NC(h.type) = 2
       /\ \/ n > 1 /\ h.shape[n] = 4
          \/ n > 2 /\ h.shape[n] = 2 /\ h.shape[n - 1] = 2

\* What the accessor functions must report for a live handle.
Observe(h) ==
    [ty |-> h.type, loc |-> h.loc, nd |-> Len(h.shape),
     ne |-> IF HasData(h) THEN NE(h) ELSE 0,
     cc |-> IF Contig(h) THEN 1 ELSE 0,
     ro |-> ReadOnly(h),
     fp |-> IF HasData(h) /\ h.type \in {"float", "double"} THEN 1 ELSE 0,
     cx |-> IF HasData(h) /\ NC(h.type) = 2 THEN 1 ELSE 0,
     c4 |-> IF IsComplex4(h) THEN 1 ELSE 0,
     db |-> IF HasData(h) /\ h.type \in {"double", "cd"} THEN 1 ELSE 0,
     shape |-> [i \in 1..(Len(h.shape) + 2) |-> ShapeDim(h, i - 2)],
     stride |-> [i \in 1..(Len(h.shape) + 2) |-> StrideDim(h, i - 2)],
     strel |-> [i \in 1..(Len(h.shape) + 2) |-> StrideDim(h, i - 2) \div TSize(h.type)],
     buf |-> h.buf, off |-> IF HasData(h) THEN h.off * TSize(h.type) ELSE 0]

Matching(a, b, cl) ==
    IF a.type = b.type /\ (cl = 1 => a.loc = b.loc)
       /\ a.shape = b.shape /\ a.stride = b.stride THEN 1 ELSE 0

ConvPairs == {<<"cd", "cf">>, <<"cf", "cd">>, <<"double", "float">>,
              <<"float", "double">>}

CopyOf(s, h, loc) ==
    LET zero == Zeros(NE(h) * NC(h.type))
        data == IF HasData(h) THEN Elements(s, h) ELSE zero
    IN Alloc(s, h.type, loc, h.shape, data)

(***************************************************************************)
(* The effect of one call.                                                 *)
(***************************************************************************)
Apply(s, o) ==
  LET h == IF "h" \in DOMAIN o THEN s.hs[o.h] ELSE NullHandle
  IN
  CASE o.op = "NewExt" ->      \* memory owned by the caller
         R(AddBuf(s, o.type, [i \in 1..(o.n * NC(o.type)) |-> i], TRUE), 0)
    [] o.op = "ResetStatus" -> R(SetSt(s, OK), 0)
    [] o.op = "Create" ->
         Alloc(s, o.type, o.loc, o.shape, Zeros(Prod(o.shape) * NC(o.type)))
    [] o.op = "Wrap" ->
         NewH(s, Handle(o.b, o.off, s.bufs[o.b].type, o.loc, o.shape,
                IF o.stride = << >> THEN CStride(s.bufs[o.b].type, o.shape)
                ELSE [i \in 1..Len(o.stride) |->
                        o.stride[i] * TSize(s.bufs[o.b].type)], 0))
    [] o.op = "Slice" ->
         IF ~SliceOk(h, o.offs, o.shape) THEN R(SetSt(s, EInvalid), 0)
         ELSE LET lead == Len(h.shape) - Len(o.shape)
              IN NewH(s, Handle(h.buf,
                    h.off + DotOffs(o.offs, h.stride) \div TSize(h.type),
                    h.type, h.loc, o.shape,
                    SubSeq(h.stride, lead + 1, Len(h.stride)), 0))
    [] o.op = "Alias" ->
         NewH(s, Handle(h.buf, h.off, h.type, h.loc, h.shape, h.stride, 0))
    [] o.op = "Copy" -> CopyOf(s, h, o.loc)
    [] o.op = "Convert" ->
         IF s.st # OK THEN R(s, 0)
         ELSE IF ~Contig(h) THEN R(SetSt(s, EInvalid), 0)
         ELSE IF h.type = o.type THEN CopyOf(s, h, 0)
         ELSE LET ok == <<h.type, o.type>> \in ConvPairs
                  r == Alloc(s, o.type, 0, h.shape,
                        IF ok THEN Elements(s, h)
                        ELSE Zeros(NE(h) * NC(o.type)))
              IN IF ok THEN r ELSE R(SetSt(r.s, EType), r.ret)
    [] o.op = "Clear" ->
         IF s.st # OK \/ NE(h) = 0 THEN R(s, 0)
         ELSE IF h.loc # 0 THEN R(SetSt(s, ELocation), 0)
         ELSE R(SetComps(s, h.buf, Footprint(h), LAMBDA i : 0), 0)
    [] o.op = "ClearPortion" ->
         IF s.st # OK \/ o.n = 0 THEN R(s, 0)
         ELSE IF h.loc # 0 THEN R(SetSt(s, ELocation), 0)
         ELSE R(SetComps(s, h.buf, FlatRange(h, o.start, o.n), LAMBDA i : 0), 0)
    [] o.op = "CopyContents" ->
         LET d == s.hs[o.dst]
             delta == (h.off + o.os - d.off - o.od) * NC(h.type)
         IN IF s.st # OK \/ ~HasData(h) \/ ~HasData(d) \/ o.n = 0
               \/ NE(h) = 0 THEN R(s, 0)
            ELSE IF h.loc # 0 \/ d.loc # 0 THEN R(SetSt(s, ELocation), 0)
            ELSE R(SetComps(s, d.buf, FlatRange(d, o.od, o.n),
                    LAMBDA i : s.bufs[h.buf].data[i + delta]), 0)
    [] o.op = "SetValue" ->
         IF s.st # OK THEN R(s, 0)
         ELSE IF Len(h.shape) \notin 1..3 THEN R(SetSt(s, EInvalid), 0)
         ELSE IF h.type = "char" THEN R(SetSt(s, EType), 0)
         ELSE IF ReadOnly(h) = 1 THEN R(SetSt(s, EInvalid), 0)
         ELSE R(SetComps(s, h.buf, Footprint(h),
                LAMBDA i : IF (i - 1) % NC(h.type) = 0 THEN o.v ELSE 0), 0)
    [] o.op = "Random" ->       \* 9 stands for a random value in [0, 1]
         IF s.st # OK THEN R(s, 0)
         ELSE IF h.loc # 0 THEN R(SetSt(s, ELocation), 0)
         ELSE IF ~Contig(h) THEN R(SetSt(s, EInvalid), 0)
         ELSE IF h.type \in {"char", "int"} THEN R(SetSt(s, EType), 0)
         ELSE R(SetComps(s, h.buf, Footprint(h), LAMBDA i : 9), 0)
    [] o.op = "Scale" ->
         IF s.st # OK THEN R(s, 0)
         ELSE IF ~Contig(h) THEN R(SetSt(s, EInvalid), 0)
         ELSE IF h.type \in {"char", "int"} THEN R(SetSt(s, EType), 0)
         ELSE R(SetComps(s, h.buf, Footprint(h),
                LAMBDA i : s.bufs[h.buf].data[i] * o.v), 0)
    [] o.op = "SetRO" -> R([s EXCEPT !.hs[o.h].ro = o.v], 0)
    [] o.op = "RefInc" -> R([s EXCEPT !.hs[o.h].rc = @ + 1], o.h)
    [] o.op = "Free" ->
         IF h.rc > 1 THEN R([s EXCEPT !.hs[o.h].rc = @ - 1], 0)
         ELSE LET s1 == [s EXCEPT !.hs[o.h].live = FALSE, !.hs[o.h].rc = 0]
              IN R(IF h.own = 1 /\ HasData(h)
                   THEN [s1 EXCEPT !.bufs[h.buf].live = FALSE] ELSE s1, 0)
    [] o.op = "Match" -> R(s, Matching(h, s.hs[o.h2], o.cl))
    [] o.op = "ChkWriteable" ->
         R(IF ReadOnly(h) = 1 THEN Fail(s, EInvalid) ELSE s, 0)
    [] o.op = "ChkContig" ->
         R(IF ~Contig(h) THEN Fail(s, EInvalid) ELSE s, 0)
    [] o.op = "ChkLocation" ->
         R(IF h.loc # o.v THEN Fail(s, ELocation) ELSE s, 0)
    [] o.op = "ChkNumDims" ->
         R(IF Len(h.shape) # o.v THEN Fail(s, EInvalid) ELSE s, 0)
    [] o.op = "ChkDimSize" ->
         R(IF ShapeDim(h, o.d) # o.v THEN Fail(s, EInvalid) ELSE s, 0)
    [] o.op = "ChkShape" ->
         R(IF h.shape # o.shape THEN Fail(s, EInvalid) ELSE s, 0)
    [] o.op = "ChkShapeDim" ->
         R(IF Len(h.shape) <= o.d \/ ShapeDim(h, o.d) # o.v
           THEN Fail(s, EInvalid) ELSE s, 0)
    [] o.op = "ChkSame" ->
         LET g == s.hs[o.h2]
         IN R(IF o.d < Len(h.shape) /\ o.d2 < Len(g.shape)
                 /\ ShapeDim(h, o.d) # ShapeDim(g, o.d2)
              THEN Fail(s, EInvalid) ELSE s, 0)
    [] o.op = "ChkType" ->
         R(IF h.type # o.type THEN Fail(s, EType) ELSE s, 0)

(***************************************************************************)
(* Preconditions: what a caller has to respect for a call to be defined.   *)
(***************************************************************************)
Live(s) == {i \in 1..Len(s.hs) : s.hs[i].live}
BufAlive(s, h) == HasData(h) => s.bufs[h.buf].live
Usable(s) == {i \in Live(s) : BufAlive(s, s.hs[i])}

InBounds(s, h) ==
    HasData(h) =>
      \A p \in Footprint(h) : p \in 1..Len(s.bufs[h.buf].data)

TypeOK(s) ==
    /\ s.st \in 0..6
    /\ \A i \in 1..Len(s.hs) :
         LET h == s.hs[i]
         IN /\ h.live <=> h.rc > 0
            /\ Len(h.shape) = Len(h.stride)
            /\ HasData(h) => /\ h.buf \in 1..Len(s.bufs)
                             /\ h.type = s.bufs[h.buf].type

\* Every handle (also a slice of a slice) addresses only its own buffer.
ViewsInBounds(s) == \A i \in Live(s) : InBounds(s, s.hs[i])

\* An owned buffer lives exactly as long as its one owning handle; memory
\* supplied by the caller is never released.
Ownership(s) ==
    \A b \in 1..Len(s.bufs) :
      LET owners == {i \in 1..Len(s.hs) : s.hs[i].buf = b /\ s.hs[i].own = 1}
      IN IF s.bufs[b].ext THEN owners = {} /\ s.bufs[b].live
         ELSE /\ Cardinality(owners) = 1
              /\ s.bufs[b].live <=> \A i \in owners : s.hs[i].live

\* A failed allocation leaves a handle without data.
=============================================================================
