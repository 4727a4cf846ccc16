----------------------------- MODULE HeightGen ------------------------------
(* The search, step by step, for every way the errors can be: it ends; when it says 2 k
   then k is good (or 0) and k + 1 is not; and if the error only grows, k is the largest. *)
EXTENDS Height
CONSTANT Far
VARIABLES h, good, seen
vars == <<h, good, seen>>
Init == h = H0 /\ seen = << >> /\ good \in [1..Far -> {0, 1}]
Is(k) == IF k > Far THEN 0 ELSE good[k]
Next == /\ h.res < 0
        /\ h' = IF Is(h.at) = 1 THEN Further(h) ELSE Back(h)
        /\ seen' = Append(seen, h.at) /\ UNCHANGED good
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
K == h.res \div 2
Answer == h.res >= 0 => h.res % 2 = 0 /\ (K = 0 \/ Is(K) = 1) /\ Is(K + 1) = 0
Largest == h.res >= 0 /\ (\A k \in 1..(Far - 1) : good[k] >= good[k + 1]) =>
              \A k \in 1..(Far + 1) : Is(k) = 1 <=> k <= K
Tried == h.at >= 1 /\ (h.res < 0 => \A i \in 1..Len(seen) : seen[i] # h.at)      \* nothing is tried twice
Short == Len(seen) <= 12
Same == h.res >= 0 => Results([k \in 1..(4 * Far + 4) |-> Is(k)], H0) = {h.res}
Ends == <>(h.res >= 0)
\* The worst-case sources are apart, inside, and do not repeat at a divisor of the image.
ASSUME \A n \in 3..70 : \A p \in {30, 100, 333, 500, 750, 801, 950, 1000} : Fits(n, p) =>
          /\ Cardinality({<<q[1], q[2]>> : q \in Sources(n, p)}) = 4
          /\ \A q \in Sources(n, p) : q[1] \in 0..(n - 1) /\ q[2] \in 0..(n - 1)
          /\ LET e == Edge(n, (n * p) \div 2000) IN e = 1 \/ n % e # 0
=============================================================================
