----------------------------- MODULE FlaggerGen -----------------------------
(* Every series of small spectra: flags are only added; only the current and the
   previous time are flagged; a steady spectrum of equal channels is never flagged; a
   wider window flags a superset; scaling the data changes nothing. *)
EXTENDS Flagger
CONSTANTS Vals, NCh, NT, Ths
VARIABLES f, wide, big, qs, g
vars == <<f, wide, big, qs, g>>
Init == /\ f = F0 /\ wide = F0 /\ big = F0 /\ qs = <<>>
        /\ g \in [step : {1, 2}, hist : {1, 2, 3}, a : {1, 4}, win : {0, 1},
                  tm : Ths, tv : Ths, tb : Ths]
Step(q) == /\ f.n < NT
           /\ qs' = Append(qs, q)
           /\ f' = FStep(f, q, g)
           /\ wide' = FStep(wide, q, [g EXCEPT !.win = @ + 1])
           /\ big' = FStep(big, [c \in 1..NCh |-> 3 * q[c]], g)
           /\ UNCHANGED g
Next == \E q \in [1..NCh -> Vals] : Step(q)
Spec == Init /\ [][Next]_vars
Within == f.must \subseteq f.may /\ f.may \subseteq (1..f.n) \X (1..NCh)
Grow == [][f.must \subseteq f'.must /\ \A x \in f'.must \ f.must : x[1] \in {f'.n, f'.n - 1}]_vars
Steady == (\A i \in 1..Len(qs) : \A c \in 1..NCh : qs[i][c] = qs[1][1]) => f.must = {}
Wider == f.must \subseteq wide.must
Scale == f.must = big.must /\ f.may = big.may
=============================================================================
