------------------------------- MODULE Height -------------------------------
(* How high a tower of w-planes can be: the gridder is tried at growing distances from
   the plane of the sub-grid, k planes away, and is good there when its error is below
   the target. The answer is twice the largest distance found good.

   The search is a state machine (at, by, fast): it tries distance at; while everything
   was good it doubles its stride, after the first bad one it halves it.
   Good(k) \in {0, 1, 2}; 2: too close to the target to tell, both ways are allowed. *)
EXTENDS Util
H0 == [at |-> 1, by |-> 1, fast |-> TRUE, res |-> -1]
Further(h) ==
    IF h.fast THEN [h EXCEPT !.by = 2 * @, !.at = @ + 2 * h.by]
    ELSE IF h.by > 1 THEN [h EXCEPT !.by = @ \div 2, !.at = @ + (h.by \div 2)]
    ELSE [h EXCEPT !.res = 2 * h.at]
Back(h) ==
    IF h.by > 1 THEN [h EXCEPT !.by = @ \div 2, !.at = @ - (h.by \div 2), !.fast = FALSE]
    ELSE [h EXCEPT !.res = 2 * (h.at - 1)]
RECURSIVE Results(_, _)
Results(good, h) ==         \* good: sequence, distances 1, 2, ...; -1: not known
    IF h.res >= 0 THEN {h.res}
    ELSE IF h.at > Len(good) THEN {-1}
    ELSE (IF good[h.at] \in {1, 2} THEN Results(good, Further(h)) ELSE {})
         \cup (IF good[h.at] \in {0, 2} THEN Results(good, Back(h)) ELSE {})

(* The worst case: four sources near the corners of the field of view, in tenths; half
   the field is e pixels, made smaller until it does not divide the image. *)
RECURSIVE Edge(_, _)
Edge(n, e) == IF e > 1 /\ n % e = 0 THEN Edge(n, e - 1) ELSE e
\* fov = theta * p / 1000; as <<row, column, tenths>>
Sources(n, p) ==
    LET e == Edge(n, (n * p) \div 2000)
        c == n \div 2
    IN {<<c + e, c + e, 3>>, <<c - e, c - e, 2>>, <<c + e, c - e - 1, 3>>, <<c - e - 1, c + e, 2>>}
Fits(n, p) == LET e == Edge(n, (n * p) \div 2000)
              IN e >= 1 /\ n \div 2 - e - 1 >= 0 /\ n \div 2 + e < n
=============================================================================
