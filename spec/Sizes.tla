------------------------------- MODULE Sizes --------------------------------
(* Sizes with no prime factor above 11. *)
EXTENDS Util
RECURSIVE Strip(_, _)
Strip(n, p) == IF n % p = 0 THEN Strip(n \div p, p) ELSE n
Smooth(n) == n >= 1 /\ Strip(Strip(Strip(Strip(Strip(n, 2), 3), 5), 7), 11) = 1
(* r is the smallest multiple of step that is smooth and at least n *)
SmallestSmooth(r, n, step) ==
    /\ r >= n /\ r % step = 0 /\ Smooth(r)
    /\ \A k \in Max(n, 1)..(r - 1) : k % step # 0 \/ ~Smooth(k)
=============================================================================
