-------------------------------- MODULE Pswf --------------------------------
(* Prolate spheroidal wave function of order 0 for mode m and parameter c = s pi/20.
   It is the positive decreasing even eigenfunction of
       I(x) = integral over [-1, 1] of (1 - t^2)^(m/2) S(t) cos(c x t) dt,
       (1 - x^2)^(m/2) I(x) = nu S(x),   S(0) = (2m - 1)!!
   ev: S at k/64, k = 0..64, over its peak, in millionths. *)
EXTENDS Trig, Sci
RECURSIVE SqBis(_, _, _)
SqBis(x, lo, hi) == IF hi - lo <= 1 THEN lo
                    ELSE LET c == (lo + hi) \div 2
                         IN IF MulM(c, c) <= x THEN SqBis(x, c, hi) ELSE SqBis(x, lo, c)
SqrtM(x) == IF x <= 0 THEN 0 ELSE IF x >= 1000000 THEN 1000000 ELSE SqBis(x, 0, 1000000)
OneLess(k) == RDiv((4096 - k * k) * 15625, 64)        \* 1 - (k/64)^2, millionths
Factor(m, k) == CASE m = 0 -> 1000000 [] m = 1 -> SqrtM(OneLess(k)) [] OTHER -> OneLess(k)
Simpson(k, n) == IF k = 0 \/ k = n THEN 1 ELSE IF k % 2 = 1 THEN 4 ELSE 2
(* c (j/64)(k/64) in millionths of a turn *)
Turn(s, j, k) == RDiv(((s * j * k) % 163840) * 3125, 512)
Integral(ev, wt, s, j) ==
    LET f(i) == Simpson(i - 1, 64) * MulM(MulM(ev[i], wt[i - 1]), CosMt(Turn(s, j, i - 1)))
    IN RDiv(SumTo(f, 65), 192)
Eigen(ev, m, s, pts) ==
    LET wt == TLCEval([k \in 0..64 |-> Factor(m, k)])
        nu == Integral(ev, wt, s, 0)
    IN \A j \in pts : Near(MulM(Integral(ev, wt, s, j), wt[j]), MulM(nu, ev[j + 1]), 12)
Shape(ev) == /\ ev[1] = 1000000
             /\ \A k \in 1..64 : ev[k] >= ev[k + 1] /\ ev[k + 1] >= 0
(* A table of a given size: element i is S at 2 (i - size/2) / size; the first element
   of a table of even size is at the edge and is zero, or tiny when corrected. *)
TableOk(q, ref, size, endc, tol) ==
    \A i \in 0..(size - 1) :
        IF i = 0 /\ size % 2 = 0
        THEN IF endc = 1 THEN SciNear(SciAt(q, 0), <<1000000, -15>>, tol) ELSE SciAt(q, 0) = <<0, 0>>
        ELSE SciNear(SciAt(q, i), SciAt(ref, i), tol)
(* The order in which a table is filled: the centre, then pairs outwards. *)
Written(size, steps) == {size \div 2} \cup UNION {{size \div 2 + i, size \div 2 - i} : i \in 1..steps}
=============================================================================
