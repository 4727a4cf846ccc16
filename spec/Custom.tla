------------------------------- MODULE Custom -------------------------------
(* Degridding with custom oversampled kernels. Positions are in units of 1/ov cell:
   a sample at rounded position p from the centre of a grid of G cells has its kernel
   centred on cell Home, with fraction row Frac: p/ov + G/2 = Home - Frac/ov. *)
EXTENDS Util
(* Both neighbours of a tie a/b = n + 1/2 are acceptable roundings. *)
Nearest(a, b) == IF (2 * a) % (2 * b) = b THEN {a \div b, a \div b + 1} ELSE {(2 * a + b) \div (2 * b)}
Home(G, ov, p) == (p + (G \div 2 + 1) * ov - 1) \div ov
Frac(ov, p) == ov - 1 - ((p - 1) % ov)
WFrac(ow, p) == ow - 1 - ((p - 1) % ow)            \* p: position in 1/ow of a w step
Within(G, k, home) == home > k \div 2 /\ home < G - k \div 2
First(k, home) == home - k \div 2
=============================================================================
