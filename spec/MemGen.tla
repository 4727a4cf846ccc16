------------------------------- MODULE MemGen -------------------------------
(* Behaviours of the Mem machine: bounded exhaustive model checking        *)
(* (MCMem.cfg) and random generation of call scripts that are replayed     *)
(* into the library (GenMem.cfg, TLC in simulation mode).                  *)
EXTENDS Mem, Json, IOUtils

CONSTANTS MaxH, MaxB, Small, MaxLevel

VARIABLES s, hist
vars == <<s, hist>>

Shapes == IF Small THEN {<<2>>, <<1, 2>>, <<0>>, << >>}
          ELSE {<< >>, <<1>>, <<3>>, <<5>>, <<0>>, <<2, 3>>, <<1, 3>>, <<3, 1>>,
                <<4, 4>>, <<2, 2, 3>>, <<3, 0, 2>>, <<2, 2, 2>>, <<2, 1, 2, 2>>,
                <<1, 2, 1, 2, 2>>, <<2, 4>>}
GTypes == IF Small THEN {"double", "cf"} ELSE Types
Locs == IF Small THEN {0} ELSE {0, 0, 0, 0, 1}

\* In simulation mode parameters are drawn at random; in exhaustive mode
\* every choice is explored.
Pick(S) == IF Small THEN S ELSE IF S = {} THEN {} ELSE {RandomElement(S)}
Loc == IF Small THEN {0} ELSE {IF RandomElement(1..8) = 1 THEN 1 ELSE 0}

\* Random strided views of an external buffer of n elements.
Views(n) ==
    IF Small
    THEN {[off |-> 0, shape |-> <<2>>, stride |-> <<2>>],
          [off |-> 1, shape |-> <<1, 2>>, stride |-> << >>]}
    ELSE LET V == {v \in [off: 0..4, a: {1, 2, 2, 3}, b: 1..3, sa: {-3, 2, 3, 4, 6, 7},
                          sb: {-1, 1, 2, 3, 4}] :
                     LET lo == v.off + (IF v.sa < 0 THEN (v.a - 1) * v.sa ELSE 0)
                                     + (IF v.sb < 0 THEN (v.b - 1) * v.sb ELSE 0)
                         hi == v.off + (IF v.sa > 0 THEN (v.a - 1) * v.sa ELSE 0)
                                     + (IF v.sb > 0 THEN (v.b - 1) * v.sb ELSE 0)
                     IN lo >= 0 /\ hi < n /\ (v.a > 1 \/ v.b > 1)}
         IN {CASE k = 1 ->
                       [off |-> v.off, shape |-> <<v.b>>, stride |-> <<v.sb>>]
                  [] k = 2 ->
                       [off |-> v.off, shape |-> <<v.a, 1, v.b>>,
                        stride |-> <<v.sa, 1, v.sb>>]
                  [] k = 3 ->
                       [off |-> v.off, shape |-> <<v.a, 1, v.b, 1>>,
                        stride |-> <<v.sa, v.sb, v.sb, 1>>]
                  [] OTHER -> [off |-> v.off, shape |-> <<v.a, v.b>>,
                               stride |-> <<v.sa, v.sb>>]
                 : k \in {RandomElement(1..6)}, v \in {RandomElement(V)}}
            \cup {[off |-> 0, shape |-> <<2, 3>>, stride |-> << >>],
                  [off |-> 2, shape |-> <<n - 2>>, stride |-> << >>]}

\* Random index tuples: element i drawn from the set S[i]. (Random draws are
\* always bound by a quantifier, as TLC re-evaluates LET definitions.)
RECURSIVE SeqsOf(_)
SeqsOf(S) == IF S = << >> THEN {<< >>}
             ELSE {<<e>> \o r : e \in {RandomElement(Head(S))}, r \in SeqsOf(Tail(S))}

Room(h, offs, i) == LET r == h.shape[i] - offs[i] IN IF r > 0 THEN r ELSE 1

SliceArgs(h) ==
    LET nd == Len(h.shape)
    IN IF Small
       THEN {[offs |-> [i \in 1..nd |-> a], shape |-> SubSeq(h.shape, k, nd)] :
                a \in {0, 1}, k \in 1..nd}
       ELSE UNION {UNION {
              {[offs |-> offs, shape |-> IF bad = 3 THEN <<1>> \o h.shape ELSE sh]
                 : sh \in SeqsOf([i \in 1..(nd - k + 1) |->
                     1..(Room(h, offs, k + i - 1) + (IF bad <= 2 THEN 1 ELSE 0))])}
              : offs \in SeqsOf([i \in 1..nd |->
                     (IF bad = 1 THEN -1 ELSE 0) ..
                     (h.shape[i] - (IF bad = 1 THEN 0 ELSE 1))])}
              : k \in {RandomElement(1..nd)}, bad \in {RandomElement(1..10)}}

MaxAbs(q) == \A i \in 1..Len(q) : q[i] \in -2000..2000

DistinctBuf(a, b) == a.buf # b.buf

FreshH == Len(s.hs) < MaxH
FreshB == Len(s.bufs) < MaxB

\* The calls that a correct caller may make in state s.
Ops ==
    (IF FreshB THEN {[op |-> "NewExt", type |-> t, n |-> n] :
            t \in Pick(GTypes), n \in Pick(IF Small THEN {3} ELSE {12, 20, 24})}
     ELSE {})
    \cup (IF FreshH /\ FreshB THEN
           {[op |-> "Create", type |-> t, loc |-> l, shape |-> sh] :
                t \in Pick(GTypes), l \in Loc, sh \in Pick(Shapes)} ELSE {})
    \cup (IF FreshH /\ \E b \in 1..Len(s.bufs) : s.bufs[b].ext THEN
           UNION {{[op |-> "Wrap", b |-> b, off |-> v.off, loc |-> l,
                    shape |-> v.shape, stride |-> v.stride] :
                   v \in Pick(Views(Len(s.bufs[b].data) \div NC(s.bufs[b].type))),
                   l \in Loc} :
                  b \in Pick({x \in 1..Len(s.bufs) : s.bufs[x].ext})} ELSE {})
    \cup (IF s.st = 0 THEN {} ELSE {[op |-> "ResetStatus"]})
    \cup UNION {LET h == s.hs[i] IN
         (IF FreshH THEN {[op |-> "Alias", h |-> i]} ELSE {})
         \cup (IF FreshH /\ FreshB
               THEN {[op |-> "Copy", h |-> i, loc |-> l] : l \in Loc}
                    \cup {[op |-> "Convert", h |-> i, type |-> t] :
                          t \in Pick(GTypes)}
               ELSE {})
         \cup (IF FreshH /\ h.shape # << >> /\ HasData(h) /\ NE(h) > 0
               THEN {[op |-> "Slice", h |-> i, offs |-> a.offs, shape |-> a.shape] :
                     a \in SliceArgs(h)} ELSE {})
         \cup (IF HasData(h) \/ NE(h) = 0 THEN {[op |-> "Clear", h |-> i]} ELSE {})
         \cup (IF Contig(h) /\ NE(h) > 0
               THEN {[op |-> "ClearPortion", h |-> i, start |-> a, n |-> n] :
                       a \in Pick(0..(NE(h) - 1)), n \in Pick(0..1)}
                    \cup {[op |-> "ClearPortion", h |-> i, start |-> a,
                           n |-> NE(h) - a] : a \in Pick(0..(NE(h) - 1))}
               ELSE {})
         \cup {[op |-> "SetValue", h |-> i, v |-> v] :
                 v \in Pick(IF h.loc # 0 THEN {} ELSE IF Small THEN {7} ELSE {7, -3, 0})}
         \cup (IF h.loc # 0 THEN {}
               ELSE IF ~Contig(h) \/ MaxAbs(Elements(s, h))
               THEN {[op |-> "Scale", h |-> i, v |-> v] : v \in Pick({2, -1, 0})}
               ELSE {})
         \cup (IF HasData(h) /\ ~Small THEN {[op |-> "Random", h |-> i]} ELSE {})
         \cup {[op |-> "SetRO", h |-> i, v |-> v] : v \in Pick({0, 1})}
         : i \in Pick(Usable(s))}
    \cup UNION {
         {[op |-> "RefInc", h |-> i]} \cup {[op |-> "Free", h |-> i]}
         : i \in Pick({j \in Live(s) : s.hs[j].rc < 3})}
    \cup {[op |-> "Free", h |-> i] : i \in Pick(Live(s))}
    \cup UNION {LET h == s.hs[i]  d == s.hs[j] IN
         (IF Small THEN {} ELSE
          {[op |-> "Match", h |-> i, h2 |-> j, cl |-> c] : c \in Pick({0, 1})}
          \cup {[op |-> "ChkSame", h |-> i, h2 |-> j, d |-> a, d2 |-> b] :
                 a \in Pick(0..3), b \in Pick(0..3)})
         \cup (IF h.type = d.type /\ DistinctBuf(h, d) /\ Contig(h) /\ Contig(d)
                  /\ NE(h) > 0 /\ NE(d) > 0
               THEN LET m == IF NE(h) < NE(d) THEN NE(h) ELSE NE(d)
                    IN UNION {{[op |-> "CopyContents", h |-> i, dst |-> j, n |-> n,
                          os |-> a, od |-> b] :
                          a \in Pick(0..(NE(h) - n)),
                          b \in Pick(0..(NE(d) - n))} : n \in Pick(0..m)}
               ELSE {})
         : i \in Pick(Usable(s)), j \in Pick(Usable(s))}
    \cup UNION {LET h == s.hs[i] IN
         IF Small THEN {[op |-> "ChkWriteable", h |-> i]} ELSE
         {[op |-> "ChkWriteable", h |-> i], [op |-> "ChkContig", h |-> i]}
         \cup {[op |-> "ChkLocation", h |-> i, v |-> v] : v \in Pick({0, 1})}
         \cup {[op |-> "ChkNumDims", h |-> i, v |-> v] :
                 v \in Pick({Len(h.shape), Len(h.shape) + 1})}
         \cup {[op |-> "ChkDimSize", h |-> i, d |-> d, v |-> v] :
                 d \in Pick({-1, 0, 1, 2}), v \in Pick({0, 2, 3})}
         \cup {[op |-> "ChkShape", h |-> i, shape |-> q] :
                 q \in Pick(Shapes \cup {h.shape})}
         \cup {[op |-> "ChkShape", h |-> i, shape |-> h.shape]}
         \cup {[op |-> "ChkShapeDim", h |-> i, d |-> d, v |-> v] :
                 d \in Pick({0, 1, 2}), v \in Pick({0, 2, 3})}
         \cup {[op |-> "ChkType", h |-> i, type |-> t] :
                 t \in Pick({h.type} \cup GTypes)}
         : i \in Pick(Live(s))}

Init == s = Init0 /\ hist = << >>

Next == \E o \in Ops : s' = Apply(s, o).s /\ hist' = << >>
Bound == TLCGet("level") <= MaxLevel
Spec == Init /\ [][Next]_vars

\* ---- generation
Names == {"NewExt", "Create", "Wrap", "ResetStatus", "Alias", "Copy",
          "Convert", "Slice", "Clear", "ClearPortion", "SetValue", "Scale", "Random",
          "SetRO", "RefInc", "Free", "Match", "ChkSame", "CopyContents",
          "ChkWriteable", "ChkContig", "ChkLocation", "ChkNumDims",
          "ChkDimSize", "ChkShape", "ChkShapeDim", "ChkType"}
\* Weighted choice of call, per property focus.
Focus == IOEnv.FOCUS
Weight(n) ==
    CASE Focus = "life" /\ n \in {"Create", "RefInc", "Free", "Alias", "Copy"} -> 4
      [] Focus = "view" /\ n \in {"Wrap", "Slice", "Alias"} -> 8
      [] Focus = "view" /\ n \in {"SetValue", "Clear", "Copy"} -> 3
      [] Focus = "data" /\ n \in {"SetValue", "Scale", "Random", "Clear", "Copy", "Convert",
                                  "ClearPortion", "CopyContents"} -> 5
      [] Focus = "check" /\ n \in {"ChkSame", "ChkWriteable", "ChkContig",
                "ChkLocation", "ChkNumDims", "ChkDimSize", "ChkShape",
                "ChkShapeDim", "ChkType", "Match"} -> 4
      [] n = "ResetStatus" -> 6
      [] OTHER -> 1
RECURSIVE Total(_)
Total(S) == IF S = {} THEN 0 ELSE LET n == CHOOSE x \in S : TRUE
                                  IN Weight(n) + Total(S \ {n})
RECURSIVE Draw(_, _)
Draw(S, k) == LET n == CHOOSE x \in S : TRUE
              IN IF k <= Weight(n) THEN n ELSE Draw(S \ {n}, k - Weight(n))

GenNext ==
    \E A \in {Ops} :
      \E n \in {LET ns == {o.op : o \in A}
                IN Draw(ns, RandomElement(1..Total(ns)))} :
        \E o \in {RandomElement({x \in A : x.op = n})} :
          s' = Apply(s, o).s /\ hist' = Append(hist, o)
GenSpec == Init /\ [][GenNext]_vars

Depth == 36
Emit == Len(hist) = Depth => PrintT("SCRIPT " \o ToJson(hist))

InvType == TypeOK(s)
InvViews == ViewsInBounds(s)
InvOwner == Ownership(s)
=============================================================================
