------------------------------ MODULE SizesGen ------------------------------
(* The priority-queue search as a transition system: extract the smallest
   candidate, insert its products with the primes that stay within twice the target.
   Checked for every target: the search stops at the smallest smooth even number. *)
EXTENDS Sizes
CONSTANT MaxN
VARIABLES n, heap, cur, done
vars == <<n, heap, cur, done>>
Primes == {2, 3, 5, 7, 11}
Init == n \in 1..MaxN /\ heap = {2} /\ cur = 0 /\ done = FALSE
Next == /\ ~done /\ heap # {}
        /\ LET m == CHOOSE x \in heap : \A y \in heap : x <= y
           IN /\ cur' = m
              /\ done' = (m >= n)
              /\ heap' = IF m >= n THEN heap
                         ELSE (heap \ {m}) \cup {x \in {m * p : p \in Primes} : x <= 2 * n}
        /\ UNCHANGED n
Spec == Init /\ [][Next]_vars
Right == done => SmallestSmooth(cur, n, 2)
NeverEmpty == done \/ heap # {}
Increasing == [][cur' > cur]_vars
=============================================================================
