------------------------------ MODULE ConvGen -------------------------------
(* Bounded exhaustive check: spreading the pixels of the first image one by one in
   any order gives the defining sum, and so does the padded cyclic convolution for
   every power-of-two padding that is large enough. *)
EXTENDS Conv
CONSTANTS MaxN1, MaxN2, Vals
V2 == {0, 1}
VARIABLES n1, n2, a, b, done, out
vars == <<n1, n2, a, b, done, out>>
Ix(n) == 0..(n * n - 1)
Init == /\ n1 \in 1..MaxN1 /\ n2 \in 1..MaxN2
        /\ a \in [Ix(n1) -> Vals] /\ b \in [Ix(n2) -> Vals]
        /\ done = {} /\ out = [k \in Ix(n1) |-> 0]
Spread(p) ==
    /\ done' = done \cup {p}
    /\ out' = [k \in Ix(n1) |->
         out[k] + a[p] * Px(b, n2, k \div n1 - p \div n1 + Centre(n2),
                                   (k % n1) - (p % n1) + Centre(n2))]
    /\ UNCHANGED <<n1, n2, a, b>>
(* In order of position, or in reverse: the sum does not depend on it. *)
Next == \/ \E p \in Ix(n1) \ done : (\A q \in Ix(n1) \ done : p <= q) /\ Spread(p)
        \/ \E p \in Ix(n1) \ done : (\A q \in Ix(n1) \ done : p >= q) /\ Spread(p)
Spec == Init /\ [][Next]_vars
Full == done = Ix(n1)
SpreadIsSum == Full => \A k \in Ix(n1) : out[k] = ConvAt(a, n1, b, n2, k \div n1, k % n1)
CyclicIsSum == done = {} => \A m \in {1, 2, 4, 8} : m >= n1 + n2 - 1 =>
    \A k \in Ix(n1) : Cyclic(a, n1, b, n2, m, k \div n1, k % n1)
                      = ConvAt(a, n1, b, n2, k \div n1, k % n1)
=============================================================================
