------------------------------ MODULE TraceFFT ------------------------------
EXTENDS TraceBase, FFT
I0 == 0
(* Batch b of an interleaved array: real or imaginary parts. *)
Part(e, d, b, p) == LET n == Prod(e.sh) IN [j \in 1..n |-> d[2 * ((b - 1) * n + j - 1) + p]]
Chk(e, x) == [j \in DOMAIN x |-> x[j] * Checker(e.sh, j - 1)]
(* Results are recorded in thousandths. *)
FftOk(e) ==
    LET n == Prod(e.sh)
        sign == IF e.fwd = 1 THEN 1 ELSE -1
        div == 1000 * (IF e.norm = 1 THEN n ELSE 1)
    IN \A b \in 1..e.nb :
        LET re == IF e.shift = 1 THEN Chk(e, Part(e, e.in, b, 1)) ELSE Part(e, e.in, b, 1)
            im == IF e.shift = 1 THEN Chk(e, Part(e, e.in, b, 2)) ELSE Part(e, e.in, b, 2)
            gr == Part(e, e.out, b, 1)
            gi == Part(e, e.out, b, 2)
        IN \A k \in 1..n :
            LET c == IF e.shift = 1 THEN Checker(e.sh, k - 1) ELSE 1
            IN /\ Near(gr[k], c * RDiv(DftRe(e.sh, re, im, sign, k - 1), div), e.tol)
               /\ Near(gi[k], c * RDiv(DftIm(e.sh, re, im, sign, k - 1), div), e.tol)
(* Two-dimensional helpers on their own; thousandths. *)
PhaseOk(e) == \A k \in 1..Prod(e.sh) : \A p \in 1..2 :
    e.out[2 * (k - 1) + p] = 1000 * e.in[2 * (k - 1) + p] * Checker(e.sh, k - 1)
NormOk(e) == \A i \in 1..(2 * Prod(e.sh)) :
    Near(e.out[i], RDiv(1000 * e.in[i], Prod(e.sh)), 1)
Why(st, e) ==
    IF e.err # 0 THEN "failed"
    ELSE IF e.same # 1 THEN "memory outside the output was modified"
    ELSE IF e.e = "Fft" THEN IF FftOk(e) THEN "ok" ELSE "transform"
    ELSE IF e.e = "Phase" THEN IF PhaseOk(e) THEN "ok" ELSE "checkerboard"
    ELSE IF NormOk(e) THEN "ok" ELSE "normalisation"
Apply(st, e) == st
Init == TInit(I0)
Next == TNext(I0, Why, Apply)
Spec == Init /\ [][Next]_tvars
=============================================================================
