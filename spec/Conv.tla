-------------------------------- MODULE Conv --------------------------------
(* Convolution of square images, the output as large as the first and centred on
   pixel (n2 - 1) / 2 (rounded down) of the second. Images are functions of the
   flat index from 0. *)
EXTENDS Util
Centre(n2) == (n2 - 1) \div 2
Px(img, n, i, j) == IF i >= 0 /\ i < n /\ j >= 0 /\ j < n THEN img[i * n + j] ELSE 0
(* Sum over the second image. *)
ConvAt(a, n1, b, n2, i, j) ==
    LET c == Centre(n2)
        f(k) == LET p == (k - 1) \div n2
                    q == (k - 1) % n2
                IN b[k - 1] * Px(a, n1, i - p + c, j - q + c)
    IN SumTo(f, n2 * n2)
(* Cyclic convolution of size m of the two images, each placed at the middle of the
   padding, then cropped: how it is computed. *)
Cyclic(a, n1, b, n2, m, i, j) ==
    LET ea == (m - n1) \div 2
        eb == (m - n2) \div 2
        r == (i + ea - 1 + m \div 2) % m
        s == (j + ea - 1 + m \div 2) % m
        f(k) == LET p == (k - 1) \div n2 + eb
                    q == ((k - 1) % n2) + eb
                IN b[k - 1] * Px(a, n1, ((r - p) % m) - ea, ((s - q) % m) - ea)
    IN SumTo(f, n2 * n2)
=============================================================================
