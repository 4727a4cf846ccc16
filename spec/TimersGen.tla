----------------------------- MODULE TimersGen ------------------------------
EXTENDS Timers, Json, IOUtils
CONSTANTS Small, MaxLevel
VARIABLES s, hist

NamesS == IF Small THEN {"A"} ELSE {"A", "B", "A-long-name_for_one_timer_node", "C:d"}
Ready(n, i) == i + 1 <= Len(s.nodes[n].tmr) /\ s.nodes[n].tmr[i + 1].set
\* A push may use slot i when the node has it (or is new and i = 0).
CanPush(p, name, i) ==
    LET F == Find(s, p, name)
    IN IF F = {} THEN i = 0
       ELSE \A k \in F : IF s.nodes[k].tmr = << >> THEN i = 0
                         ELSE i + 1 <= Len(s.nodes[k].tmr)
CanPop(n, i) == n = 1 \/ Ready(n, i)
Idx == IF Small THEN {0, 1} ELSE 0..4
Room == Len(s.nodes) < (IF Small THEN 3 ELSE 12)
Ops ==
    {[op |-> "Tick", n |-> n] : n \in IF Small THEN {1} ELSE {1, 7, 10, 250, 1003}}
    \cup {[op |-> "Push", name |-> q, i |-> i] : q \in NamesS,
            i \in {k \in Idx : Room}} 
    \cup {[op |-> "Pop", i |-> i] : i \in {k \in Idx : CanPop(s.cur, k)}}
    \cup {[op |-> "PopPush", name |-> q, i |-> i] : q \in NamesS,
            i \in {k \in Idx : Room /\ CanPop(s.cur, k)}}
    \cup {[op |-> "Set", name |-> q, n |-> n] : q \in NamesS,
            n \in {k \in (IF Small THEN {2} ELSE {2, 3, 5}) : Room}}
    \cup UNION {
        {[op |-> "TSet", t |-> t, name |-> q, n |-> n] : q \in NamesS,
            n \in {k \in (IF Small THEN {2} ELSE {4, 5}) : Room}}
        \cup {[op |-> "TPush", t |-> t, name |-> q, i |-> i] : q \in NamesS,
            i \in {k \in Idx : Room}}
        \cup {[op |-> "TPop", t |-> t, i |-> i] :
            i \in {k \in Idx : CanPop(s.th[t], k)}}
        \cup {[op |-> "TPopPush", t |-> t, name |-> q, i |-> i] : q \in NamesS,
            i \in {k \in Idx : Room /\ CanPop(s.th[t], k)}}
        : t \in Threads}
    \cup {[op |-> o] : o \in {"Start", "Pause", "Resume", "Restart", "Reset",
                              "Elapsed", "Report"}}
Parent(o) == CASE o.op = "Push" -> s.cur
               [] o.op = "PopPush" -> IF s.cur = 1 THEN 1 ELSE s.nodes[s.cur].parent
               [] o.op = "TPush" -> s.th[o.t]
               [] OTHER -> IF s.th[o.t] = 1 THEN 1 ELSE s.nodes[s.th[o.t]].parent
Legal(o) == o.op \in {"Push", "PopPush", "TPush", "TPopPush"}
                => CanPush(Parent(o), o.name, o.i)

Init == s = Init0 /\ hist = << >>
Next == \E o \in Ops : Legal(o) /\ s' = Apply(s, o) /\ hist' = << >>
Bound == TLCGet("level") <= MaxLevel
Spec == Init /\ [][Next]_<<s, hist>>

\* Depends on the state, so that TLC draws afresh in every step.
Draw(S) == RandomElement(IF s.now < 0 THEN {} ELSE S)
GenNext ==
    \E n \in {Draw({"Tick", "Tick", "Tick2", "Push", "Push2", "Pop", "PopPush",
                             "TPush", "TPush2", "TPop", "TPopPush", "Set", "TSet",
                             "Report", "One", "One", "One", "One"})} :
      \E onlyOp \in {Draw({"Start", "Pause", "Resume", "Resume2", "Elapsed",
                                     "Elapsed2", "Restart", "Reset"})} :
      \E A \in {{o \in Ops : Legal(o) /\
              CASE n = "Tick2" -> o.op = "Tick"
                [] n = "Push2" -> o.op = "Push"
                [] n = "TPush2" -> o.op = "TPush"
                [] n = "One" -> o.op = (CASE onlyOp = "Resume2" -> "Resume"
                                     [] onlyOp = "Elapsed2" -> "Elapsed" [] OTHER -> onlyOp)
                [] OTHER -> o.op = n}} :
        \E o \in {IF A = {} THEN [op |-> "Tick", n |-> 3] ELSE Draw(A)} :
          s' = Apply(s, o) /\ hist' = Append(hist, o)
GenSpec == Init /\ [][GenNext]_<<s, hist>>
Depth == 40
Emit == Len(hist) = Depth => PrintT("SCRIPT " \o
            ToJson(Append(hist, [op |-> "Report"])))
InvTree == TreeOk(s)
InvNames == NamesOk(s)
InvTime == TimeOk(s)
InvRoot == RootOk(s)
=============================================================================
