------------------------------- MODULE LogGen -------------------------------
(* Exhaustive exploration of module Log: libraries that write a line in one piece, or in
   pieces that other threads may come between; a clock that is read once, or twice. *)
EXTENDS Log, TLC
CONSTANTS Kind, NMsg, MaxLevel
VARIABLES s, lib, clock
vars == <<s, lib, clock>>
\* A thread's call: idle, or its message and how many pieces are out, and the time it took.
\* out: the pieces in the stream so far: <<thread, message, piece>>; sent: per thread.
Idle == [n |-> 0, lvl |-> 0, k |-> 0, at |-> 0, sec |-> 0, from |-> 0]
Two == {0, 1}
Pieces == IF Kind = "pieces" THEN 2 ELSE 1
MLevels == {1, 2, 4}
Init == /\ s = Begin("none") /\ clock = 0
        /\ lib = [call |-> [t \in Two |-> Idle], out |-> << >>, sent |-> [t \in Two |-> 0], refused |-> FALSE]
\* Three ticks to a second.
Sec(c) == c \div 3
Time(c) == <<Sec(c), c % 3>>
Tick == clock < 5 /\ clock' = clock + 1 /\ UNCHANGED <<s, lib>>
Call(t, v) ==
    /\ lib.call[t].n = 0 /\ lib.sent[t] < NMsg
    /\ lib' = [lib EXCEPT !.sent[t] = @ + 1,
                          !.call[t] = [n |-> lib.sent[t] + 1, lvl |-> v, k |-> 0, at |-> 0, sec |-> Sec(clock),
                                       from |-> clock]]
    /\ UNCHANGED <<s, clock>>
\* The rest of the clock is read; the second may be the one read before.
Read(t) ==
    /\ lib.call[t].n # 0 /\ lib.call[t].k = 0
    /\ lib' = [lib EXCEPT !.call[t].k = 1,
                          !.call[t].at = IF Kind = "twoclocks" THEN 3 * lib.call[t].sec + (clock % 3) ELSE clock]
    /\ UNCHANGED <<s, clock>>
Write(t) ==
    LET c == lib.call[t]
    IN /\ c.n # 0 /\ c.k \in 1..Pieces
       /\ lib' = [lib EXCEPT !.call[t].k = @ + 1,
                             !.out = IF c.lvl < 2 THEN @ ELSE Append(@, [t |-> t, n |-> c.n, k |-> c.k, at |-> c.at,
                                                                        lvl |-> c.lvl])]
       /\ UNCHANGED <<s, clock>>
Return(t) ==
    LET c == lib.call[t]
    IN /\ c.k = Pieces + 1
       /\ lib' = [lib EXCEPT !.call[t] = Idle]
       /\ s' = Send(s, 0, t, [n |-> c.n, lvl |-> c.lvl, from |-> Time(c.from), to |-> Time(clock)])
       /\ UNCHANGED clock
Next == Tick \/ \E t \in Two : (\E v \in MLevels : Call(t, v)) \/ Read(t) \/ Write(t) \/ Return(t)
Bound == TLCGet("level") <= MaxLevel
Spec == Init /\ [][Next]_vars

\* When all calls have returned, the stream is read, line by line.
Whole(k) == \A j \in 1..Pieces : k + j - 1 <= Len(lib.out) /\ lib.out[k + j - 1].t = lib.out[k].t
                                 /\ lib.out[k + j - 1].n = lib.out[k].n /\ lib.out[k + j - 1].k = j
JudgeM(st, t, n, lvl, at) ==   \* as Judge, with the times of this model
    LET P == st.pend[0, t]
    IN P # << >> /\ n = Head(P).n /\ lvl = Head(P).lvl
       /\ NotLater(Head(P).from, Time(at)) /\ NotLater(Time(at), Head(P).to)
RECURSIVE Accept(_, _)
Accept(st, k) == IF k > Len(lib.out) THEN Empty(st)
                 ELSE /\ Whole(k)
                      /\ JudgeM(st, lib.out[k].t, lib.out[k].n, lib.out[k].lvl, lib.out[k].at)
                      /\ Accept(Seen(st, 0, lib.out[k].t), k + Pieces)
Quiet == \A t \in Two : lib.call[t].n = 0
\* A library that writes whole lines and reads the clock once is accepted; the others are
\* refused exactly when lines were mixed, or a second passed between the two readings.
InvGood == Kind = "good" /\ Quiet => Accept(s, 1)
Mixed == \E k \in 1..Len(lib.out) : k % 2 = 1 /\ ~Whole(k)
InvPieces == Kind = "pieces" /\ Quiet => (Accept(s, 1) <=> ~Mixed)
Late == \E t \in Two : \E k \in 1..Len(s.pend[0, t]) : \E j \in 1..Len(lib.out) :
            LET m == s.pend[0, t][k] IN lib.out[j].t = t /\ lib.out[j].n = m.n /\ ~NotLater(m.from, Time(lib.out[j].at))
InvTwo == Kind = "twoclocks" /\ Quiet => (Accept(s, 1) <=> ~Late)

\* ------------------------------------------------ the calendar
\* Days follow each other, through every month of the years that differ, and the epoch is right.
ASSUME DayNo(1970, 1, 1) = 0 /\ DayNo(2000, 3, 1) = 11017 /\ DayNo(2038, 1, 19) = 24855
ASSUME \A y \in 1970..2410 : /\ DayNo(y, 12, 31) + 1 = DayNo(y + 1, 1, 1)
                             /\ \A m \in 1..11 : DayNo(y, m, Month(y, m)) + 1 = DayNo(y, m + 1, 1)
=============================================================================
