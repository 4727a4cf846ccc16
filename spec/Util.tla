-------------------------------- MODULE Util --------------------------------
(* Arithmetic and sequence helpers shared by the specifications. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
NaN == 2000000001
Inexact == 2000000003
Big == 2000000000
Abs(x) == IF x < 0 THEN -x ELSE x
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
(* |a - b| <= tol, without overflowing on sentinel values *)
Near(a, b, tol) == /\ Abs(a) < Big
                   /\ a >= b - tol /\ a <= b + tol
SumTo(f(_), n) == 
   LET RECURSIVE G(_)
       G(k) == IF k = 0 THEN 0 ELSE f(k) + G(k - 1)
   IN G(n)
RECURSIVE SumSeqFrom(_, _)
SumSeqFrom(q, k) == IF k > Len(q) THEN 0 ELSE q[k] + SumSeqFrom(q, k + 1)
SumSeq(q) == SumSeqFrom(q, 1)
SumSet(f(_), S) ==
   LET RECURSIVE G(_)
       G(R) == IF R = {} THEN 0 ELSE LET x == CHOOSE x \in R : TRUE IN f(x) + G(R \ {x})
   IN G(S)
(* floor(a * 10^digits / b) for a >= 0, b > 0, by long division *)
RECURSIVE DivTail(_, _, _, _)
DivTail(q, r, b, digits) ==
    IF digits = 0 THEN q
    ELSE DivTail(q * 10 + (r * 10) \div b, (r * 10) % b, b, digits - 1)
DivScaled(a, b, digits) == DivTail(a \div b, a % b, b, digits)
CeilDiv(a, b) == -((-a) \div b)          \* b > 0
FloorDiv(a, b) == a \div b               \* TLC's \div floors for b > 0
(* Row-major flat index (from 1) of the 0-based multi-index ix in shape sh. *)
RECURSIVE FlatFrom(_, _, _, _)
FlatFrom(sh, ix, k, acc) == IF k > Len(sh) THEN acc
                            ELSE FlatFrom(sh, ix, k + 1, acc * sh[k] + ix[k])
Flat(sh, ix) == FlatFrom(sh, ix, 1, 0) + 1
(* 0-based k-th coordinate of 0-based flat index *)
RECURSIVE ProdFrom(_, _)
ProdFrom(sh, k) == IF k > Len(sh) THEN 1 ELSE sh[k] * ProdFrom(sh, k + 1)
Prod(sh) == ProdFrom(sh, 1)
Coord(sh, flat, k) == (flat \div ProdFrom(sh, k + 1)) % sh[k]
=============================================================================
