------------------------------- MODULE Clamp --------------------------------
(* Channel ranges: channel c of a row with coordinate x (per unit frequency) has the
   coordinate x * (f0 + c * df). A clamped range of channels must contain every
   channel strictly inside the bounds, none strictly outside, and ranges for
   adjacent bounds must share the channels out between them. *)
EXTENDS Util
At(x, f0, df, c) == x * (f0 + c * df)
Chans(s, e) == s..(e - 1)
Strictly(x, f0, df, lo, hi, C) == {c \in C : At(x, f0, df, c) > lo /\ At(x, f0, df, c) < hi}
Within(x, f0, df, lo, hi, C) == {c \in C : At(x, f0, df, c) >= lo /\ At(x, f0, df, c) <= hi}
RangeOk(x, f0, df, lo, hi, C, R) ==
    /\ Strictly(x, f0, df, lo, hi, C) \subseteq R
    /\ R \subseteq Within(x, f0, df, lo, hi, C)
(* The closed form: first and last channel from one division each. *)
DivCeil(a, b) == IF b > 0 THEN CeilDiv(a, b) ELSE CeilDiv(-a, -b)
Clamped(x, f0, df, lo, hi, s, e) ==
    LET d == x * df
        u0 == x * f0
        k == DivCeil(lo - u0, d)
        m == DivCeil(hi - u0, d)
        s1 == IF d = 0 THEN (IF lo > u0 \/ hi <= u0 THEN 0 ELSE s)
              ELSE Max(s, IF d > 0 THEN k ELSE m)
        e1 == IF d = 0 THEN (IF lo > u0 \/ hi <= u0 THEN 0 ELSE e)
              ELSE Min(e, IF d > 0 THEN m ELSE k)
    IN <<s1, Max(s1, e1)>>
=============================================================================
