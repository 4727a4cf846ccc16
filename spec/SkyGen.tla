------------------------------- MODULE SkyGen -------------------------------
(* 1. Exhaustively: an object's answers depend on nothing but what was done to it.
   2. Scripts for the conformance driver. *)
EXTENDS Sky, Json
CONSTANTS MaxLevel
VARIABLES s, hist
vars == <<s, hist>>
Start == s = S0 /\ hist = << >>
MCOps ==
    {[op |-> "make", i |-> i, t |-> "a", v |-> v] : i \in 1..3, v \in {<<"1", "2">>, <<"3", "4", "5">>}}
    \cup {[op |-> "copy", i |-> i, j |-> j] : i \in 1..3, j \in 1..3}
    \cup {[op |-> "set", i |-> i, v |-> <<v>>] : i \in 1..3, v \in {"7", "8"}}
    \cup {[op |-> "drop", i |-> i] : i \in 1..3}
    \cup {[op |-> "astro", i |-> i, frame |-> f, v |-> <<"5", "6">>] : i \in 1..3, f \in {"icrs", "fk5"}}
    \cup {[op |-> "bad", f |-> "none"]}
MCNext == \E o \in MCOps : Legal(s, o) /\ s' = Act(s, o) /\ hist' = o
MCSpec == Start /\ [][MCNext]_vars
Bound == TLCGet("level") <= MaxLevel
View == s
InvWhole == \A i \in Slots : Len(s[i].v) = 3 /\ (s[i].live = 0 => s[i] = None)
\* Only the object that is meant changes, whatever its origin; a failure changes nothing.
Own == [][\A i \in Slots : (s'[i] # s[i] => ~Failing(hist') /\ hist'.i = i)]_vars
CopyIs == [][hist'.op = "copy" => s'[hist'.i] = s[hist'.j]]_vars

Draw(S) == RandomElement(IF s[1].live > 5 THEN {} ELSE S)
Live == {i \in Slots : s[i].live = 1}
Types == {"icrs", "ICRS", "azel", "", "a", "galactic coordinates, in a long text that says so", "fk5", "icr",
          "xxxxxxxxxxxxxxxxxxxxxxxx", "horizon, seen from a place on the ground", "yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy"}
Frames == {"icrs", "fk5", "galactic", "fk4", "cirs"}
Bads == {"none", "number", "text", "tuple", "nothing", "two", "array", "nonascii", "dict"}
Ask(op) == LET S == IF op = "copy" THEN {i \in Live : s[i].c = 0} ELSE Live
           IN IF S = {} THEN [op |-> "make", i |-> Draw(Slots), t |-> Draw(Types), n |-> Draw({2, 3})]
              ELSE CASE op = "copy" -> [op |-> op, i |-> Draw(Slots), j |-> Draw(S)]
                     [] op = "value" -> [op |-> op, i |-> Draw(S), n |-> Draw({0, 1, 2, 0, 1, 2, 3, -1, 4, 1000000, -3})]
                     [] OTHER -> [op |-> op, i |-> Draw(S)]
GenOp ==
    LET c == Draw(1..40)
    IN CASE c <= 4 -> [op |-> "make", i |-> Draw(Slots), t |-> Draw(Types), n |-> Draw({2, 3})]
         [] c <= 7 -> [op |-> "cmake", i |-> Draw(Slots), t |-> Draw(Types), n |-> 3]
         [] c <= 10 -> [op |-> "astro", i |-> Draw(Slots), frame |-> Draw({"icrs", Draw(Frames)})]
         [] c <= 14 -> Ask("copy")
         [] c <= 22 -> Ask("value")
         [] c <= 26 -> Ask("epoch")
         [] c <= 30 -> Ask("set")
         [] c <= 33 -> Ask("type")
         [] c <= 35 -> Ask("drop")
         [] c <= 38 -> [op |-> "bad", f |-> Draw(Bads)]
         [] OTHER -> [op |-> "null", f |-> Draw({"epoch", "value", "type", "set", "free"})]
Fill(o) == CASE o.op \in {"make", "cmake"} -> [v |-> <<"1", "2", "3">>] @@ o
             [] o.op \in {"astro", "set"} -> [v |-> <<"1", "2">>] @@ o
             [] OTHER -> o
GenNext == \E o \in {GenOp} : s' = Act(s, Fill(o)) /\ hist' = Append(hist, o)
GenSpec == Start /\ [][GenNext]_vars
\* Everything is asked at the end.
RECURSIVE AskFrom(_)
AskFrom(i) == IF i > 4 THEN << >>
    ELSE (IF s[i].live = 1 THEN <<[op |-> "value", i |-> i, n |-> 0], [op |-> "value", i |-> i, n |-> 1],
                  [op |-> "value", i |-> i, n |-> 2], [op |-> "epoch", i |-> i], [op |-> "type", i |-> i]>>
          ELSE << >>) \o AskFrom(i + 1)
Depth == 60
Emit == Len(hist) = Depth => PrintT("SCRIPT " \o ToJson(hist \o AskFrom(1)))
=============================================================================
