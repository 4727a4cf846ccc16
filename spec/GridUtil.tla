------------------------------ MODULE GridUtil ------------------------------
(* Element-wise definitions of the gridding building blocks. Complex numbers are
   pairs <<re, im>> of integers; millionths are used where values are irrational. *)
EXTENDS Trig
CAdd(a, b) == << a[1] + b[1], a[2] + b[2] >>
CSub(a, b) == << a[1] - b[1], a[2] - b[2] >>
CMul(a, b) == << a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1] >>
RECURSIVE CPow(_, _)
CPow(a, n) == IF n = 0 THEN <<1, 0>> ELSE CMul(a, CPow(a, n - 1))
Conj(a) == << a[1], -a[2] >>
(* a ** n for n < 0 of a unit (1, i, -1, -i) *)
UPow(a, n) == IF n >= 0 THEN CPow(a, n) ELSE CPow(Conj(a), -n)
CNear(a, b, tol) == Near(a[1], b[1], tol) /\ Near(a[2], b[2], tol)

(* The cell of a grid of size G that cell i of a sub-grid of size S lies on, when the
   sub-grid is centred off cells from the centre of the grid; edges wrap around. *)
Cell(G, S, off, i) == (i + (G \div 2) - (S \div 2) + off) % G

(* Position of pixel i of n across a field of view theta/den, centred; millionths.
   theta in units of 1/den. *)
PixPos(i, n, theta) == RDiv((i - n \div 2) * theta, n)

(* n is the direction cosine (less 1) of the pixel at (l, m) sheared by (hu, hv):
   (l - hu n)^2 + (m - hv n)^2 + (n + 1)^2 = 1, on the near side of the sphere.
   All in millionths; the left side less 1 is returned. *)
Sphere(l, m, n, hu, hv) ==
    LET a == l - MulM(hu, n)
        b == m - MulM(hv, n)
    IN MulM(a, a) + MulM(b, b) + MulM(n, n) + 2 * n
(* Largest n with Sphere <= 0: by bisection between lo (Sphere <= 0) and hi. *)
RECURSIVE Bis(_, _, _, _, _, _)
Bis(l, m, hu, hv, lo, hi) ==
    IF hi - lo <= 1 THEN lo
    ELSE LET c == (lo + hi) \div 2
         IN IF Sphere(l, m, c, hu, hv) <= 0 THEN Bis(l, m, hu, hv, c, hi)
            ELSE Bis(l, m, hu, hv, lo, c)
NOf(l, m, hu, hv) == Bis(l, m, hu, hv, -700000, 1)

(* Oversampled kernel of a window win[1..s] (millionths): row i in 0..ov, column j;
   position j - s/2 + (ov - i)/ov. *)
KernelAt(win, s, ov, i, j) ==
    LET x == (j - s \div 2) * ov + ov - i
        f(k) == MulM(win[k], Cos6(ov * s, x * (k - 1 - s \div 2)))
    IN RDiv(SumTo(f, s), s)
=============================================================================
