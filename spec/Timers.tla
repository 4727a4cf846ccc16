------------------------------- MODULE Timers -------------------------------
(***************************************************************************)
(* Stop-watches and the timer hierarchy, over an integer clock `now`       *)
(* (milliseconds). A state is                                              *)
(*   nodes: sequence of tree nodes; node 1 is the root;                    *)
(*   cur  : the node that implicit push/pop calls refer to;                *)
(*   th   : per explicit user (thread) the node that it holds;             *)
(*   one  : a stand-alone stop-watch.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Null == [set |-> FALSE, run |-> FALSE, start |-> 0, el |-> 0]
NewTimer == [set |-> TRUE, run |-> FALSE, start |-> 0, el |-> 0]

El(w, now) == IF ~w.set THEN 0 ELSE IF w.run THEN w.el + now - w.start ELSE w.el
Pause(w, now) == IF w.run THEN [w EXCEPT !.el = El(w, now), !.run = FALSE] ELSE w
Restart(w, now) == [w EXCEPT !.run = TRUE, !.start = now]
Resume(w, now) == IF w.run THEN w ELSE Restart(w, now)

Threads == 1..2
Init0 == [now |-> 0, cur |-> 1, one |-> NewTimer, th |-> [t \in Threads |-> 1],
          nodes |-> <<[parent |-> 0, name |-> "",
                       tmr |-> <<Resume(NewTimer, 0)>>]>>]

Children(s, n) == {k \in 1..Len(s.nodes) : s.nodes[k].parent = n}
Find(s, n, name) == {k \in Children(s, n) : s.nodes[k].name = name}

Ensure(s, n, name) ==
    IF Find(s, n, name) # {} THEN s
    ELSE [s EXCEPT !.nodes = Append(@, [parent |-> n, name |-> name,
                                        tmr |-> << >>])]
At(s, n, name) == CHOOSE k \in Find(s, n, name) : TRUE

Slots(s, n, num) ==
    IF s.nodes[n].tmr # << >> THEN s
    ELSE [s EXCEPT !.nodes[n].tmr = [i \in 1..num |-> Null]]

RunIdx(s, n, i) ==
    [s EXCEPT !.nodes[n].tmr[i + 1] =
        Resume(IF @.set THEN @ ELSE NewTimer, s.now)]

\* [s, n]: new state and the node that is now being timed.
PushAt(s, parent, name, i) ==
    LET s1 == Ensure(s, parent, name)
        n == At(s1, parent, name)
    IN [s |-> RunIdx(Slots(s1, n, 1), n, i), n |-> n]

PopAt(s, n, i) ==
    IF n = 1 THEN [s |-> s, n |-> 1]
    ELSE [s |-> [s EXCEPT !.nodes[n].tmr[i + 1] = Pause(@, s.now)],
          n |-> s.nodes[n].parent]

SetAt(s, parent, name, num) ==
    LET s1 == Ensure(s, parent, name)
    IN Slots(s1, At(s1, parent, name), num)

Apply(s, o) ==
  CASE o.op = "Tick" -> [s EXCEPT !.now = @ + o.n]
    [] o.op = "Push" -> LET r == PushAt(s, s.cur, o.name, o.i)
                        IN [r.s EXCEPT !.cur = r.n]
    [] o.op = "Pop" -> LET r == PopAt(s, s.cur, o.i) IN [r.s EXCEPT !.cur = r.n]
    [] o.op = "PopPush" -> LET r == PopAt(s, s.cur, o.i)
                               q == PushAt(r.s, r.n, o.name, o.i)
                           IN [q.s EXCEPT !.cur = q.n]
    [] o.op = "Set" -> SetAt(s, s.cur, o.name, o.n)
    [] o.op = "TSet" -> SetAt(s, s.th[o.t], o.name, o.n)
    [] o.op = "TPush" -> LET r == PushAt(s, s.th[o.t], o.name, o.i)
                         IN [r.s EXCEPT !.th[o.t] = r.n]
    [] o.op = "TPop" -> LET r == PopAt(s, s.th[o.t], o.i)
                        IN [r.s EXCEPT !.th[o.t] = r.n]
    [] o.op = "TPopPush" -> LET r == PopAt(s, s.th[o.t], o.i)
                                q == PushAt(r.s, r.n, o.name, o.i)
                            IN [q.s EXCEPT !.th[o.t] = q.n]
    [] o.op = "Start" -> [s EXCEPT !.one = Restart([@ EXCEPT !.el = 0], s.now)]
    [] o.op = "Pause" -> [s EXCEPT !.one = Pause(@, s.now)]
    [] o.op = "Resume" -> [s EXCEPT !.one = Resume(@, s.now)]
    [] o.op = "Restart" -> [s EXCEPT !.one = Restart(@, s.now)]
    [] o.op = "Reset" -> [s EXCEPT !.one = NewTimer]
    \* Reading a running timer books the time so far, so that a later restart keeps it.
    [] o.op = "Elapsed" -> [s EXCEPT !.one = IF @.run THEN Restart(Pause(@, s.now), s.now)
                                             ELSE @]
    [] o.op = "Report" -> s

Ret(s, o) == CASE o.op \in {"Set", "TSet", "TPush", "TPop", "TPopPush"} -> 1
               [] o.op = "Elapsed" -> El(s.one, s.now)
               [] OTHER -> 0

\* ---- the report: a depth-first listing of the tree.
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Times(s, n) == [i \in 1..Len(s.nodes[n].tmr) |-> El(s.nodes[n].tmr[i], s.now)]
MaxTime(s, n) == LET q == Times(s, n) IN Max({q[i] : i \in DOMAIN q})

RECURSIVE SortQ(_)
SortQ(q) == IF Len(q) <= 1 THEN q
            ELSE LET m == CHOOSE i \in DOMAIN q : \A j \in DOMAIN q : q[i] <= q[j]
                 IN <<q[m]>> \o SortQ(SubSeq(q, 1, m - 1) \o SubSeq(q, m + 1, Len(q)))

Symbols == <<"+", "-", "*">>
PctOk(x, total) ==
    total > 0 =>
      LET d == x.pc * total - 1000 * x.ms
      IN 2 * (IF d < 0 THEN -d ELSE d) <= total + 2
LineOk(x, d, sy, name, t, total) ==
    x.d = d /\ x.sy = sy /\ x.n = name /\ x.ms = t /\ PctOk(x, total)

\* Position after the listing of what is below node n, or 0 if it is wrong.
RECURSIVE Below(_, _, _, _, _), Kids(_, _, _, _, _, _)
Below(s, rep, n, depth, pos) ==
    LET p == Kids(s, rep, n, depth, pos, Children(s, n))
        total == MaxTime(s, n)
        RECURSIVE SumT(_)
        SumT(C) == IF C = {} THEN 0
                   ELSE LET c == CHOOSE x \in C : TRUE
                        IN MaxTime(s, c) + SumT(C \ {c})
        sum == SumT(Children(s, n))
        line == p # 0 /\ p <= Len(rep) /\
                LineOk(rep[p], (depth + 1) * 2, Symbols[(depth % 3) + 1],
                       "(unaccounted time)", total - sum, total)
    IN IF p = 0 THEN 0
       ELSE IF 100 * sum < 99 * total THEN (IF line THEN p + 1 ELSE 0)
       ELSE IF 100 * sum = 99 * total /\ line THEN p + 1
       ELSE p
Kids(s, rep, n, depth, pos, C) ==
    IF C = {} THEN pos
    ELSE IF pos > Len(rep) THEN 0
    ELSE LET x == rep[pos]
             top == {c \in C : \A k \in C : MaxTime(s, k) <= MaxTime(s, c)}
             m == {c \in top : s.nodes[c].name = x.n}
         IN IF m = {} THEN 0
            ELSE LET c == CHOOSE k \in m : TRUE
                     total == MaxTime(s, n)
                     q == SortQ(Times(s, c))
                     num == Len(q)
                     qu == num \div 4
                     d2 == (depth + 2) * 2
                     head == LineOk(x, (depth + 1) * 2,
                                Symbols[(depth % 3) + 1], s.nodes[c].name,
                                MaxTime(s, c), total)
                     stats == num > 1 =>
                        /\ pos + 4 <= Len(rep)
                        /\ LineOk(rep[pos + 1], d2, ">", "Minimum", q[1], total)
                        /\ LineOk(rep[pos + 2], d2, ">", "Maximum", q[num], total)
                        /\ LineOk(rep[pos + 3], d2, ">", "Median",
                                  q[num \div 2 + 1], total)
                        /\ rep[pos + 4].n = "Interquartile range"
                        /\ rep[pos + 4].ms = q[3 * qu + 1] - q[qu + 1]
                     p1 == IF num > 1 THEN pos + 5 ELSE pos + 1
                 IN IF ~head \/ ~stats THEN 0
                    ELSE LET p2 == IF Children(s, c) = {} THEN p1
                                   ELSE Below(s, rep, c, depth + 1, p1)
                         IN IF p2 = 0 THEN 0
                            ELSE Kids(s, rep, n, depth, p2, C \ {c})

ReportOk(s, rep) ==
    /\ Len(rep) >= 1
    /\ rep[1].d = 0 /\ rep[1].ms = MaxTime(s, 1) /\ rep[1].pc = -1
    /\ Below(s, rep, 1, 0, 2) = Len(rep) + 1

\* ---- invariants of the model
TreeOk(s) == \A k \in 2..Len(s.nodes) : s.nodes[k].parent \in 1..(k - 1)
NamesOk(s) == \A j, k \in 2..Len(s.nodes) :
                 (j # k /\ s.nodes[j].parent = s.nodes[k].parent)
                    => s.nodes[j].name # s.nodes[k].name
\* A timer never shows more than the time that has passed.
TimeOk(s) == \A k \in 1..Len(s.nodes) : \A i \in DOMAIN s.nodes[k].tmr :
                 El(s.nodes[k].tmr[i], s.now) \in 0..s.now
RootOk(s) == El(s.nodes[1].tmr[1], s.now) = s.now
=============================================================================
