----------------------------- MODULE DataModel ------------------------------
(* The data model of visibilities: what the checks of its arrays say, and what they report.
   An array is [type, shape, gap, loc]: gap is 0 for a C-contiguous array, else the
   dimension whose stride is too large. The three kinds of array are
       uvw      (times, baselines, 3), real and floating point;
       vis      (times, baselines, channels, polarisations), complex;
       weights  (times, baselines, channels, polarisations), not complex.
   "check" asks whether an array is of its kind, has the expected sizes and type (any,
   for VOID), and is where it is expected; "meta" asks for its type, place and sizes.
   The state is the status that is handed from call to call. *)
EXTENDS Util
ERuntime == 1  EInvalid == 2  EType == 3  ELocation == 6
Types == {"char", "int", "float", "double", "cfloat", "cdouble"}
Complex(t) == t \in {"cfloat", "cdouble"}
Real(t) == t \in {"float", "double"}
OfKind(k, t) == CASE k = "uvw" -> Real(t) [] k = "vis" -> Complex(t) [] OTHER -> ~Complex(t)
Dims(k) == IF k = "uvw" THEN 3 ELSE 4
If(c, x) == IF c THEN {x} ELSE {}

\* The codes of the requirements that are not met; any of them may be reported.
WrongCheck(o) ==
    LET want == IF o.kind = "uvw" THEN <<o.want[1], o.want[2], 3>> ELSE o.want
    IN If(~OfKind(o.kind, o.type), EType) \cup If(o.shape # want, EInvalid)
       \cup If(o.loc # o.wloc, ELocation) \cup If(o.wtype # "void" /\ o.wtype # o.type, EType)
       \cup If(o.gap # 0, EInvalid)
WrongMeta(o) ==
    If(~OfKind(o.kind, o.type), EType)
    \cup If(Len(o.shape) # Dims(o.kind), IF o.kind = "weights" THEN ERuntime ELSE EInvalid)
    \cup If(o.kind = "uvw" /\ (Len(o.shape) < 3 \/ o.shape[IF Len(o.shape) < 3 THEN 1 ELSE 3] # 3), EInvalid)
    \cup If(o.gap # 0, EInvalid)
    \cup If(o.kind = "vis" /\ o.asked[6] = 1 /\ Len(o.shape) = 4 /\ o.shape[4] \notin {1, 4}, EInvalid)
Wrong(o) == IF o.op = "Check" THEN WrongCheck(o) ELSE WrongMeta(o)

\* What "meta" reports: type, place, and the sizes; nothing that was not asked for.
TypeNo(t) == CASE t = "char" -> 1 [] t = "int" -> 2 [] t = "float" -> 4 [] t = "double" -> 8
               [] t = "cfloat" -> 36 [] OTHER -> 40
Untouched == -7
Sizes(o) == IF o.kind = "uvw" THEN <<o.shape[1], o.shape[2]>> ELSE o.shape
Report(o) == LET all == <<TypeNo(o.type), o.loc>> \o Sizes(o)
             IN [k \in 1..Len(all) |-> IF o.asked[k] = 1 THEN all[k] ELSE Untouched]
Nothing(o) == [k \in 1..(2 + (IF o.kind = "uvw" THEN 2 ELSE 4)) |-> Untouched]

Init0 == [st |-> 0]
\* Why the outcome (err, out) of call o with status st.st is refused, or "ok".
Judge(st, o, err, out) ==
    LET W == Wrong(o)
    IN IF st.st # 0
       THEN IF err # st.st THEN "the first error was lost"
            ELSE IF o.op = "Meta" /\ out # Nothing(o) THEN "reported after an error" ELSE "ok"
       ELSE IF W = {}
       THEN IF err # 0 THEN "a good array was refused"
            ELSE IF o.op = "Meta" /\ out # Report(o) THEN "reported wrongly" ELSE "ok"
       ELSE IF err = 0 THEN "a bad array was accepted"
            ELSE IF err \notin W THEN "a wrong error code" ELSE "ok"
After(st, err) == [st EXCEPT !.st = IF @ = 0 THEN err ELSE @]
=============================================================================
