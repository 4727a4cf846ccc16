------------------------------ MODULE Swiftly -------------------------------
(* The streaming distributed Fourier transform (SwiFTly), one axis at a time.
   A configuration p is [N, yN, xM]: image, padded facet and padded sub-grid size.
   Data are sequences of complex numbers <<re, im>>, in units of 1/U.
   w: the window at facet resolution, in millionths; fb: its reciprocal, in 1/U.
   Facet offsets are multiples of Step(p) = N / xM, sub-grid offsets of N / yN. *)
EXTENDS GridUtil
U == 10000
MSize(p) == (p.xM * p.yN) \div p.N
Step(p) == p.N \div p.xM
At(x, i) == x[i + 1]
CScale(a, f(_)) == << f(a[1]), f(a[2]) >>
RECURSIVE CSumFrom(_, _)
CSumFrom(q, k) == IF k > Len(q) THEN <<0, 0>> ELSE CAdd(q[k], CSumFrom(q, k + 1))
CTurn(a, n, t) ==      \* a * exp(2 pi i t / n)
    LET c == Cos6(n, t)
        d == Sin6(n, t)
    IN << MulM(a[1], c) - MulM(a[2], d), MulM(a[1], d) + MulM(a[2], c) >>
(* sign = 1: exp(+i); the sum is divided by div *)
Dft(x, sign, div) ==
    LET n == Len(x)
    IN TLCEval([k \in 1..n |->
          LET v == CSumFrom([j \in 1..n |-> IF x[j] = <<0, 0>> THEN x[j]
                                ELSE CTurn(x[j], n, sign * (j - 1) * (k - 1))], 1)
          IN << RDiv(v[1], div), RDiv(v[2], div) >>])
MulFb(a, f) == LET g(v) == RDiv(RDiv(v, 10) * RDiv(f, 10), 100) IN CScale(a, g)
MulFn(a, f) == LET g(v) == MulM(v, f) IN CScale(a, g)
Fn(p, w, i) == At(w, p.yN \div 2 + (i - MSize(p) \div 2) * Step(p))
FbAt(p, fb, n, k) == At(fb, p.yN \div 2 - n \div 2 + k)

\* ---- where things go
FacetPos(p, off, n, k) == (off - n \div 2 + k) % p.yN
(* Entry i of a contribution holds the grid position congruent to i modulo its size
   among the M positions around the sub-grid's centre. *)
ContribPos(p, off, i) ==
    LET m == MSize(p)
        lo == off \div (p.N \div p.yN) - m \div 2
    IN (lo + ((i - lo) % m)) % p.yN
ImagePos(p, off, i) == (i - MSize(p) \div 2 + p.xM \div 2 + off \div Step(p)) % p.xM
ImageFrom(p, off, i) == (i - MSize(p) \div 2 + off \div Step(p)) % MSize(p)
SubgridPos(p, off, n, i) == (i - n \div 2 + off) % p.xM
Shift(x) == LET n == Len(x) IN [i \in 1..n |-> At(x, (i - 1 + n \div 2) % n)]
Zeros(n) == [i \in 1..n |-> <<0, 0>>]

\* ---- facets to sub-grids
PrepareFacet(p, fb, f, off) ==
    LET n == Len(f)
        k(j) == (j - FacetPos(p, off, n, 0)) % p.yN
    IN Dft([j \in 1..p.yN |-> IF k(j - 1) < n
                THEN MulFb(At(f, k(j - 1)), FbAt(p, fb, n, k(j - 1))) ELSE <<0, 0>>],
           1, p.yN)
ExtractFromFacet(p, g, off) ==
    Dft([i \in 1..MSize(p) |-> At(g, ContribPos(p, off, i - 1))], -1, 1)
Windowed(p, w, c, off) ==      \* what a contribution adds to the sub-grid's image
    [j \in 1..p.xM |->
        LET I == {i \in 0..(MSize(p) - 1) : ImagePos(p, off, i) = j - 1}
        IN IF I = {} THEN <<0, 0>>
           ELSE LET i == CHOOSE i \in I : TRUE
                IN MulFn(At(c, ImageFrom(p, off, i)), Fn(p, w, i))]
AddSeq(x, y) == [i \in DOMAIN x |-> CAdd(x[i], y[i])]
AddToSubgrid(p, w, c, img, off) == AddSeq(img, Windowed(p, w, c, off))
FinishSubgrid(p, img, off, n) ==
    LET t == Dft(Shift(img), 1, p.xM)
    IN [i \in 1..n |-> At(t, SubgridPos(p, off, n, i - 1))]

\* ---- sub-grids to facets
PrepareSubgrid(p, sg, off) ==
    LET t == [j \in 1..p.xM |-> At(sg, (j - 1 - SubgridPos(p, off, p.xM, 0)) % p.xM)]
    IN Shift(Dft(t, -1, 1))
CutWindow(p, w, img, off) ==
    [j \in 1..MSize(p) |->
        LET i == CHOOSE i \in 0..(MSize(p) - 1) : ImageFrom(p, off, i) = j - 1
        IN MulFn(At(img, ImagePos(p, off, i)), Fn(p, w, i))]
ExtractFromSubgrid(p, w, img, off) == Dft(CutWindow(p, w, img, off), 1, MSize(p))
AddToFacet(p, c, g, off) ==
    [j \in 1..p.yN |->
        LET I == {i \in 0..(MSize(p) - 1) : ContribPos(p, off, i) = j - 1}
        IN IF I = {} THEN g[j] ELSE CAdd(g[j], At(c, CHOOSE i \in I : TRUE))]
FinishFacet(p, fb, g, off, n) ==
    LET t == Dft(g, -1, 1)
    IN [k \in 1..n |-> MulFb(At(t, FacetPos(p, off, n, k - 1)), FbAt(p, fb, n, k - 1))]

\* ---- both axes: rows, then columns
Transp(a) == TLCEval([j \in 1..Len(a[1]) |-> [i \in 1..Len(a) |-> a[i][j]]])
Both(a, R(_), C(_)) ==
    LET r == TLCEval([i \in 1..Len(a) |-> R(a[i])])
        t == Transp(r)
    IN Transp([j \in 1..Len(t) |-> C(t[j])])
=============================================================================
