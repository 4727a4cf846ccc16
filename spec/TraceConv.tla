----------------------------- MODULE TraceConv ------------------------------
EXTENDS TraceBase, Conv
I0 == 0
Img(d, n, p) == [k \in 0..(n * n - 1) |-> d[2 * k + p]]
Ok(e) ==
    LET ar == Img(e.a, e.n1, 1)
        ai == Img(e.a, e.n1, 2)
        br == Img(e.b, e.n2, 1)
        bi == Img(e.b, e.n2, 2)
        C(x, y, i, j) == ConvAt(x, e.n1, y, e.n2, i, j)
    IN \A k \in 0..(e.n1 * e.n1 - 1) :
        LET i == k \div e.n1
            j == k % e.n1
        IN /\ Near(e.out[2 * k + 1], e.scale * (C(ar, br, i, j) - C(ai, bi, i, j)), e.tol)
           /\ Near(e.out[2 * k + 2], e.scale * (C(ar, bi, i, j) + C(ai, br, i, j)), e.tol)
Why(st, e) == IF e.err # 0 THEN "failed"
              ELSE IF e.same # 1 THEN "an input was modified"
              ELSE IF Ok(e) THEN "ok" ELSE "convolution"
Apply(st, e) == st
Init == TInit(I0)
Next == TNext(I0, Why, Apply)
Spec == Init /\ [][Next]_tvars
=============================================================================
