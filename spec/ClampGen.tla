------------------------------ MODULE ClampGen ------------------------------
(* Exhaustive bounded check: the closed form meets the definition for every
   coordinate sign, bounds and range, and adjacent bounds partition the channels.
   The state walks through the adjacent intervals of an axis, handing out channels. *)
EXTENDS Clamp
CONSTANTS X, F0, DF, MaxB, MaxCh
VARIABLES x, f0, df, s, e, at, given, bad
vars == <<x, f0, df, s, e, at, given, bad>>
Init == /\ x \in (-X)..X /\ f0 \in 0..F0 /\ df \in 0..DF
        /\ s \in 0..1 /\ e \in 0..MaxCh /\ at = -MaxB /\ given = {} /\ bad = FALSE
Next == /\ at < MaxB
        /\ \E hi \in (at + 1)..MaxB :
             LET r == Clamped(x, f0, df, at, hi, s, e)
                 R == Chans(r[1], r[2])
             IN /\ at' = hi
                /\ given' = given \cup R
                /\ bad' = (bad \/ given \cap R # {}
                            \/ ~RangeOk(x, f0, df, at, hi, Chans(s, e), R))
        /\ UNCHANGED <<x, f0, df, s, e>>
Spec == Init /\ [][Next]_vars
Sound == ~bad
Complete == at = MaxB => Strictly(x, f0, df, -MaxB, MaxB, Chans(s, e)) \subseteq given
=============================================================================
