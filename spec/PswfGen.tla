------------------------------ MODULE PswfGen -------------------------------
(* Filling a table from the centre outwards writes every element exactly once except
   the edge element of an even table; a plan keeps the last table it was asked to keep;
   the decimal arithmetic of the specification is consistent with integers. *)
EXTENDS Pswf
CONSTANTS Sizes, Steps
VARIABLES size, written, k, cache, n
vars == <<size, written, k, cache, n>>
Init == size = 0 /\ written = {} /\ k = 0 /\ cache = 0 /\ n = 0
Start(z, keep) == /\ size = 0 /\ n < Steps /\ size' = z /\ k' = 1 /\ n' = n + 1
                  /\ written' = {z \div 2} /\ cache' = IF keep THEN z ELSE cache
Pair == /\ size > 0 /\ k < (size + 1) \div 2
        /\ {size \div 2 + k, size \div 2 - k} \cap written = {}
        /\ written' = written \cup {size \div 2 + k, size \div 2 - k} /\ k' = k + 1
        /\ UNCHANGED <<size, cache, n>>
Done == size > 0 /\ k >= (size + 1) \div 2
Finish == /\ Done /\ size' = 0 /\ written' = {} /\ k' = 0 /\ UNCHANGED <<cache, n>>
Next == (\E z \in Sizes : \E b \in BOOLEAN : Start(z, b)) \/ Pair \/ Finish
Spec == Init /\ [][Next]_vars
Complete == Done => written = IF size % 2 = 1 THEN 0..(size - 1) ELSE 1..(size - 1)
NoClash == size > 0 /\ ~Done => ENABLED Pair
Inside == \A i \in written : 0 <= i /\ i < size
SetOk == size > 0 => written = Written(size, k - 1)
Arith == \A a \in {1, 7, 99, 12345, 65537} : \A b \in {1, -3, 1000, 16383} :
            SciNear(SciMul(SciInt(a), SciInt(b)), SciInt(a * b), 2)
ASSUME Arith
=============================================================================
