------------------------------ MODULE ArgsGen -------------------------------
EXTENDS Args, Json, IOUtils
CONSTANTS Pairs
VARIABLES s, hist
vars == <<s, hist>>

Valid(i, p) == [op |-> Table[i].f, prec |-> p, a1 |-> "-", h1 |-> "-", a2 |-> "-", h2 |-> "-"]
Clear == [op |-> "clear"]
AsCall(o) == [f |-> o.op, prec |-> o.prec, a1 |-> o.a1, h1 |-> o.h1, a2 |-> o.a2, h2 |-> o.h2]
Changes(i) == UNION {{<<Table[i].args[k].a, h>> :
                        h \in RefusedOf(Table[i].args[k]) \cup Table[i].args[k].ok}
                     : k \in 1..Len(Table[i].args)}
One(i, p, m) == [Valid(i, p) EXCEPT !.a1 = m[1], !.h1 = m[2]]
Two(i, p, m, n) == [One(i, p, m) EXCEPT !.a2 = n[1], !.h2 = n[2]]
CallsOf(i, p) ==
    {Valid(i, p)} \cup {One(i, p, m) : m \in Changes(i)}
    \cup (IF Pairs THEN {Two(i, p, q[1], q[2]) : q \in {q \in Changes(i) \X Changes(i) :
                            Compatible(i, q[1], q[2])}}
          ELSE {})

\* s.st: the status; s.w: how often outputs were written; s.q: and while it was set.
Init == s = [st |-> 0, w |-> FALSE, late |-> FALSE] /\ hist = << >>
DoClear == s.st # 0 /\ s' = [s EXCEPT !.st = 0, !.w = FALSE] /\ UNCHANGED hist
DoCall == \E i \in Rows : \E p \in Table[i].p : \E o \in CallsOf(i, p) :
            \E err \in Answers(s.st, AsCall(o)) :
                LET wr == MayWrite(s.st, err)
                IN /\ s' = [st |-> err, w |-> wr, late |-> s.late \/ (wr /\ (s.st # 0 \/ err # 0))]
                   /\ UNCHANGED hist
Next == DoClear \/ DoCall
Spec == Init /\ [][Next]_vars
InvStatus == s.st \in 0..6
InvNoLateWrite == ~s.late
InvWriteMeansOk == s.w => s.st = 0
Sticky == [][s.st # 0 => s'.st \in {0, s.st}]_vars

\* ---- scripts: every single change of every function, one script per row.
Seq1(S) == LET RECURSIVE g(_)
               g(X) == IF X = {} THEN << >> ELSE LET x == CHOOSE x \in X : TRUE IN <<x>> \o g(X \ {x})
           IN g(S)
SweepOf(i, p) ==
    LET ms == Seq1(Changes(i))
        RECURSIVE g(_)
        g(k) == IF k > Len(ms) THEN << >>
                ELSE <<One(i, p, ms[k]), Clear>> \o g(k + 1)
        bad == SelectSeq(ms, LAMBDA m : Codes(i, m[1], m[2]) # {})
        \* A call that fails, then a valid and two other failing calls: none may do anything.
        chain == IF bad = << >> THEN << >>
                 ELSE <<One(i, p, bad[1]), Valid(i, p), One(i, p, bad[Len(bad)]),
                        One(i, p, bad[(Len(bad) + 1) \div 2]), Clear, Valid(i, p), Clear>>
    IN <<Valid(i, p), Clear>> \o chain \o g(1)
SweepInit == \E i \in Rows : \E p \in Table[i].p :
                s = [st |-> 0, w |-> FALSE, late |-> FALSE] /\ hist = SweepOf(i, p)
SweepSpec == SweepInit /\ [][FALSE]_vars
SweepEmit == PrintT("SCRIPT " \o ToJson(hist))

\* ---- scripts: chains of calls of all functions.
Draw(S) == RandomElement(IF s.late THEN {} ELSE S)
GenNext ==
    \E o \in {LET coin == Draw(1..10)
                  i == Draw(Rows)
                  p == Draw(Table[i].p)
                  C == Changes(i)
                  m == Draw(C)
                  D == {n \in C : Compatible(i, m, n)}
              IN IF s.st # 0 /\ coin <= 6 THEN Clear
                 ELSE IF coin <= 2 \/ C = {} THEN Valid(i, p)
                 ELSE IF coin <= 5 \/ D = {} THEN One(i, p, m)
                 ELSE Two(i, p, m, Draw(D))} :
      /\ hist' = Append(hist, o)
      /\ s' = IF o.op = "clear" THEN [s EXCEPT !.st = 0]
              ELSE [s EXCEPT !.st = CHOOSE e \in Answers(s.st, AsCall(o)) : TRUE]
GenSpec == Init /\ [][GenNext]_vars
Depth == 40
Emit == Len(hist) = Depth => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
