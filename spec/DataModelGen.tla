---------------------------- MODULE DataModelGen ----------------------------
(* Exhaustive exploration of module DataModel for small arrays, and its scripts. *)
EXTENDS DataModel, Json, IOUtils, TLC
CONSTANTS MaxSize, MaxLevel
VARIABLES s, hist
vars == <<s, hist>>

\* ------------------------------------------------ the model
Kinds == {"uvw", "vis", "weights"}
Sz == 1..MaxSize
Shapes == UNION {[1..d -> Sz] : d \in 2..5}
Arr(t, sh, g, l) == [type |-> t, shape |-> sh, gap |-> g, loc |-> l]
AskAll == [k \in 1..6 |-> 1]
Meta(k, a, asked) == [op |-> "Meta", kind |-> k, type |-> a.type, shape |-> a.shape, gap |-> a.gap,
                      loc |-> a.loc, asked |-> asked]
Check(k, a, want, wtype, wloc) ==
    [op |-> "Check", kind |-> k, type |-> a.type, shape |-> a.shape, gap |-> a.gap, loc |-> a.loc,
     want |-> want, wtype |-> wtype, wloc |-> wloc]
\* One step looks at one array with one status; hist holds them.
Init == s = Init0 /\ hist = << >>
Next ==
    /\ Len(hist) = 0
    /\ \E t \in Types : \E sh \in Shapes : \E g \in {0, 1, 2} : \E l \in {0, 1} : \E st \in {0, 4} :
         s' = [st |-> st] /\ hist' = <<Arr(t, sh, g, l)>>
Bound == TLCGet("level") <= MaxLevel
Spec == Init /\ [][Next]_vars

Ok(o) == Wrong(o) = {}
\* An array is accepted exactly as what it says about itself, and as nothing else.
InvSame == hist = << >> \/ \A k \in Kinds :
    LET a == hist[1]
        m == Meta(k, a, AskAll)
        r == Report(m)
        own == SubSeq(r, 3, Len(r))
    IN Ok(m) => /\ Ok(Check(k, a, own, a.type, a.loc))
                /\ Ok(Check(k, a, own, "void", a.loc))
                /\ ~Ok(Check(k, a, own, a.type, 1 - a.loc))
                /\ \A t \in Types \ {a.type} : ~Ok(Check(k, a, own, t, a.loc))
                /\ \A j \in 1..Len(own) : ~Ok(Check(k, a, [own EXCEPT ![j] = @ + 1], a.type, a.loc))
\* What no question about sizes can make good.
InvBad == hist = << >> \/ \A k \in Kinds :
    LET a == hist[1]
    IN a.gap # 0 \/ ~OfKind(k, a.type) \/ Len(a.shape) # Dims(k)
       => /\ ~Ok(Meta(k, a, AskAll))
          /\ \A w \in [1..Dims(k) -> Sz] : ~Ok(Check(k, a, w, "void", a.loc))
\* Complex arrays are visibilities only.
InvKinds == hist = << >> \/ (Complex(hist[1].type) <=>
                ~Ok(Meta("weights", [hist[1] EXCEPT !.shape = <<1, 1, 1, 1>>, !.gap = 0], AskAll)))
\* Whatever a call does, a status that holds an error is kept.
InvKeep == hist = << >> \/ \A k \in Kinds : \A e \in {0, 1, 2, 3, 6} :
    LET m == Meta(k, hist[1], AskAll)
    IN s.st # 0 => /\ Judge(s, m, e, Nothing(m)) = "ok" => e = s.st
                   /\ After(s, e).st = s.st

\* ------------------------------------------------ scripts
Draw(S) == RandomElement(IF Len(hist) < 0 THEN {} ELSE S)
GenInit == s = Init0 /\ hist = << >>
Depth == 40
GenNext ==
    \E new \in {Draw(1..4)} : \E op \in {Draw({"Check", "Meta"})} : \E k \in {Draw(Kinds)} :
    \E flaw \in {Draw(1..10)} : \E flaw2 \in {Draw(1..12)} :
    \E t \in {Draw({x \in Types : OfKind(k, x)})} : \E t2 \in {Draw(Types)} :
    \E n \in {[j \in 1..5 |-> Draw({j - j + 1, 2, 3, 4, 5, 7})]} : \E np \in {Draw({1, 4})} :
    \E d \in {Draw(1..5)} : \E g \in {Draw(1..5)} : \E l \in {Draw({0, 0, 1})} :
    \E ask \in {[j \in 1..6 |-> Draw({j - j, 1})]} : \E all \in {Draw({0, 1})} : \E wt \in {Draw({0, 1})} :
      LET good == IF k = "uvw" THEN <<n[1], n[2], 3>>
                  ELSE <<n[1], n[2], n[3], IF flaw2 = 1 THEN n[4] ELSE np>>
          Flawed(f, sh) == IF f = 1 THEN [j \in 1..d |-> IF j <= Len(sh) THEN sh[j] ELSE n[5]]
                           ELSE IF f = 2 THEN [sh EXCEPT ![1 + (d % Len(sh))] = n[5]] ELSE sh
          sh == Flawed(flaw, good)
          a == Arr(IF flaw = 3 THEN t2 ELSE t, sh, IF flaw = 4 THEN 1 + (g % Len(sh)) ELSE 0, l)
          w == IF k = "uvw" THEN <<good[1], good[2]>> ELSE good
          o == IF op = "Meta" THEN Meta(k, a, IF all = 1 THEN AskAll ELSE ask)
               ELSE Check(k, a, IF flaw = 5 THEN [w EXCEPT ![1 + (d % Len(w))] = @ + 1] ELSE w,
                          IF flaw = 6 THEN t2 ELSE IF wt = 1 THEN a.type ELSE "void",
                          IF flaw = 7 THEN 1 - l ELSE l)
      IN /\ hist' = IF new > 1 /\ s.st # 0 THEN hist \o <<[op |-> "Reset"], o>> ELSE Append(hist, o)
         /\ s' = LET b == IF new > 1 THEN 0 ELSE s.st
                 IN [st |-> IF b # 0 \/ Ok(o) THEN b ELSE CHOOSE e \in Wrong(o) : TRUE]
GenSpec == GenInit /\ [][Len(hist) < Depth /\ GenNext]_vars
Emit == Len(hist) >= Depth => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
