-------------------------------- MODULE Args --------------------------------
(* The calling convention shared by every function of the library: a status goes
   through a chain of calls. A call made with an error already set does nothing; a
   call whose arguments break one of its requirements sets the code of a requirement
   that is broken and touches no output; an argument that is only read is never
   changed. The requirements of each function are those of ArgTable. *)
EXTENDS ArgTable
Types == TC
Shapes == RANK \cup LEN(5)
Cls(h) == CASE h \in Types -> "type" [] h \in Shapes -> "shape"
            [] h \in {"gap", "ro", "gpu"} -> h [] OTHER -> "value"
Rows == 1..Len(Table)
Names == {Table[i].f : i \in Rows}
RowOf == TLCEval([k \in {<<Table[i].f, p>> : i \in Rows, p \in DS} |->
            LET S == {i \in Rows : Table[i].f = k[1] /\ k[2] \in Table[i].p}
            IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE])
Known(row, p) == RowOf[<<row, p>>] # 0
ArgOf(r, a) == LET K == {k \in 1..Len(Table[r].args) : Table[r].args[k].a = a}
               IN IF K = {} THEN 0 ELSE CHOOSE k \in K : TRUE
Arg(r, a) == Table[r].args[ArgOf(r, a)]
RefusedOf(x) == UNION {x.rules[k].h : k \in 1..Len(x.rules)}
IsScalar(x) == x.rules # << >> /\ RefusedOf(x) \cap (Types \cup Shapes \cup {"gpu"}) = {}
\* The change is one the table speaks of.
Judged(r, a, h) == \/ a = "-"
                   \/ ArgOf(r, a) # 0 /\ h \in RefusedOf(Arg(r, a)) \cup Arg(r, a).ok
\* A wrong shape can be noticed in more than one way; everything else has its own code.
ShapeCodes == {1, 2, 3}
Codes(r, a, h) ==
    IF a = "-" THEN {}
    ELSE LET x == Arg(r, a)
             C == {x.rules[k].c : k \in {k \in 1..Len(x.rules) : h \in x.rules[k].h}}
         IN IF C # {} /\ Cls(h) = "shape" THEN C \cup ShapeCodes ELSE C
Broken(r, c) == Codes(r, c.a1, c.h1) \cup Codes(r, c.a2, c.h2)
\* The codes a call may answer.
Answers(st, c) ==
    LET r == RowOf[<<c.f, c.prec>>] B == Broken(r, c)
    IN IF st # 0 THEN {st}
       ELSE IF B = {} THEN {Table[r].base}
       ELSE B \cup (IF Table[r].base = 0 THEN {} ELSE {Table[r].base})
\* May outputs have been written by a call that answered err?
MayWrite(st, err) == st = 0 /\ err = 0

\* Two changes are made together only if neither can make up for the other: not two
\* of one class, and none that the function takes alone (it may then use the other
\* arguments differently).
Compatible(r, m, n) ==
    /\ Cls(m[2]) # Cls(n[2]) /\ "value" \notin {Cls(m[2]), Cls(n[2])}
    /\ \A x \in {m, n} : Codes(r, x[1], x[2]) # {}

ASSUME UniqueRows ==
    \A i, j \in Rows : i # j /\ Table[i].f = Table[j].f => Table[i].p \cap Table[j].p = {}
ASSUME UniqueArgs ==
    \A i \in Rows : \A k, m \in 1..Len(Table[i].args) :
        k # m => Table[i].args[k].a # Table[i].args[m].a
ASSUME Consistent ==
    \A i \in Rows : \A k \in 1..Len(Table[i].args) :
        LET x == Table[i].args[k]
        IN /\ RefusedOf(x) \cap x.ok = {}
           /\ \A q \in 1..Len(x.rules) : x.rules[q].c \in 1..6
           /\ \A q, w \in 1..Len(x.rules) : q # w => x.rules[q].h \cap x.rules[w].h = {}
\* Every array argument of every function has a type, and memory of its own kind.
ASSUME Typed ==
    \A i \in Rows : \A k \in 1..Len(Table[i].args) :
        LET x == Table[i].args[k]
        IN IsScalar(x) \/ Table[i].base # 0 \/ {"char", "gpu"} \subseteq RefusedOf(x)
=============================================================================
