-------------------------------- MODULE Log ---------------------------------
(* The library's log. Every message whose level is at least the filter's becomes one
   whole line
       1|time|LEVEL||function|file#line|| text
   in the stream it was sent to, in the order in which its thread sent it; the others
   become nothing. The time is that of the call, in UTC.
   The state: the filter's level, and for every stream and thread the messages that have
   been sent but not yet seen. *)
EXTENDS Util
Streams == 0..2   \* a file of the caller's, the standard output, the standard error
Threads == 0..3
Levels == 0..6
Name(v) == CASE v = 0 -> "UNDEF" [] v = 1 -> "DEBUG" [] v = 2 -> "INFO" [] v = 3 -> "WARNING"
             [] v = 4 -> "ERROR" [] v = 5 -> "CRITICAL" [] OTHER -> "UNKNOWN"
\* The filter named by the environment; INFO when it names none.
Filter(env) == CASE env \in {"DEBUG", "debug"} -> 1 [] env \in {"INFO", "info", "none"} -> 2
                 [] env \in {"WARNING", "warning"} -> 3 [] env \in {"ERROR", "error"} -> 4
                 [] OTHER -> 5
\* The macros choose the stream by the level.
MacroStream(v) == IF v <= 2 THEN 1 ELSE 2

\* ------------------------------------------------ the calendar
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
Month(y, m) == CASE m = 2 -> IF Leap(y) THEN 29 ELSE 28 [] m \in {4, 6, 9, 11} -> 30 [] OTHER -> 31
YearDays(y) == 365 * (y - 1970) + (((y - 1) \div 4) - 492) - (((y - 1) \div 100) - 19) + (((y - 1) \div 400) - 4)
RECURSIVE Before(_, _)
Before(y, m) == IF m = 1 THEN 0 ELSE Before(y, m - 1) + Month(y, m - 1)
DayNo(y, m, d) == YearDays(y) + Before(y, m) + d - 1
ValidTime(t) == /\ t[1] \in 1970..9999 /\ t[2] \in 1..12 /\ t[3] \in 1..Month(t[1], t[2])
                /\ t[4] \in 0..23 /\ t[5] \in 0..59 /\ t[6] \in 0..60 /\ t[7] \in 0..999
\* <<day, millisecond of the day>>
Instant(t) == <<DayNo(t[1], t[2], t[3]), ((t[4] * 60 + t[5]) * 60 + t[6]) * 1000 + t[7]>>
NotLater(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])

\* ------------------------------------------------ the machine
Init0 == [filter |-> 2, pend |-> [q \in Streams \X Threads |-> << >>]]
Begin(env) == [Init0 EXCEPT !.filter = Filter(env)]
Send(st, q, t, m) == IF m.lvl < st.filter THEN st ELSE [st EXCEPT !.pend[q, t] = Append(@, m)]
Seen(st, q, t) == [st EXCEPT !.pend[q, t] = Tail(@)]
\* Why a line in stream q, from thread t, is refused, or "ok".
Judge(st, q, t, n, name, time) ==
    LET P == st.pend[q, t]
    IN IF P = << >> THEN "a line nobody should have written"
       ELSE LET m == Head(P)
            IN IF n # m.n THEN "a message is missing, twice, or out of order"
               ELSE IF name # Name(m.lvl) THEN "another level"
               ELSE IF ~ValidTime(time) THEN "not a time"
               ELSE IF NotLater(m.from, Instant(time)) /\ NotLater(Instant(time), m.to) THEN "ok"
               ELSE "another time"
Empty(st) == \A x \in Streams \X Threads : st.pend[x] = << >>
=============================================================================
