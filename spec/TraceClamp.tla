----------------------------- MODULE TraceClamp -----------------------------
EXTENDS TraceBase, Clamp
I0 == 0
Col(e, j) == CASE j = 0 -> e.u [] j = 1 -> e.v [] OTHER -> e.w
RowSel(e, i) == e.r0 < 0 \/ (i - 1 >= e.r0 /\ i - 1 < e.r1)
In(e, i) == Chans(e.si[i], e.ei[i])
Got(e, k, i) == Chans(e.so[k][i], e.eo[k][i])
RowOk(e, i) ==
    LET K == Len(e.b) - 1
        x == Col(e, IF e.two = 1 THEN 0 ELSE e.dim)[i]
        vin == IF e.two = 1 THEN Strictly(e.v[i], e.f0, e.df, e.vb[1], e.vb[2], In(e, i))
               ELSE In(e, i)
        vout == IF e.two = 1 THEN Within(e.v[i], e.f0, e.df, e.vb[1], e.vb[2], In(e, i))
                ELSE In(e, i)
    IN /\ \A k \in 1..K :
            /\ e.eo[k][i] >= e.so[k][i]
            /\ Got(e, k, i) \subseteq
                 Within(x, e.f0, e.df, e.b[k], e.b[k + 1], In(e, i)) \cap vout
            /\ Strictly(x, e.f0, e.df, e.b[k], e.b[k + 1], In(e, i)) \cap vin
                 \subseteq Got(e, k, i)
            /\ \A m \in 1..(k - 1) : Got(e, k, i) \cap Got(e, m, i) = {}
       /\ Strictly(x, e.f0, e.df, e.b[1], e.b[K + 1], In(e, i)) \cap vin
            \subseteq UNION {Got(e, k, i) : k \in 1..K}
RowKept(e, i) == \A k \in 1..(Len(e.b) - 1) :
    /\ e.so[k][i] = (IF e.inplace = 1 THEN e.si[i] ELSE -3)
    /\ e.eo[k][i] = (IF e.inplace = 1 THEN e.ei[i] ELSE -3)
WhyClamp(e) ==
    IF e.err # 0 THEN "failed"
    ELSE IF e.same # 1 THEN "memory outside the outputs was modified"
    ELSE IF \E i \in 1..e.n : IF RowSel(e, i) THEN ~RowOk(e, i) ELSE ~RowKept(e, i)
         THEN "channel range" ELSE "ok"
SetMin(S) == CHOOSE a \in S : \A b \in S : a <= b
SetMax(S) == CHOOSE a \in S : \A b \in S : a >= b
(* Coordinates are recorded in eighths, as are frequencies. *)
WhyBounds(e) ==
    LET Vals(j) == UNION {{At(Col(e, j)[i], e.f0, e.df, c) : c \in In(e, i)} : i \in 1..e.n}
    IN IF e.err # 0 THEN "failed"
       ELSE IF e.same # 1 THEN "an input was modified"
       ELSE IF \E j \in 0..2 :
               IF Vals(j) = {} THEN e.lo[j + 1] # Big \/ e.hi[j + 1] # -Big
               ELSE e.lo[j + 1] # SetMin(Vals(j)) \/ e.hi[j + 1] # SetMax(Vals(j))
            THEN "bounds"
       ELSE "ok"
Why(st, e) == IF e.e = "Clamp" THEN WhyClamp(e) ELSE WhyBounds(e)
Apply(st, e) == st
Init == TInit(I0)
Next == TNext(I0, Why, Apply)
Spec == Init /\ [][Next]_tvars
=============================================================================
