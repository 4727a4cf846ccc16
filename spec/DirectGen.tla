----------------------------- MODULE DirectGen ------------------------------
(* Bounded exhaustive check of the direct sums: degridding a single pixel gives the
   conjugate of the phase with which gridding adds to that pixel, so the two are
   adjoint; a pixel at the centre has no phase; moving the sub-grid by whole cells and
   the coordinates with it changes nothing; pixels are handled one at a time and the
   order does not matter. *)
EXTENDS Direct
CONSTANTS T, N, U
UU == {-3, 0, 2, 7}
VARIABLES i, j, w, off, acc, done
vars == <<i, j, w, off, acc, done>>
Init == /\ i \in 0..(N - 1) /\ j \in 0..(N - 1) /\ w \in U \X U \X U
        /\ off \in {<<0, 0, 0>>, <<1, -2, 1>>, <<-3, 0, -1>>} /\ acc = <<0, 0>> /\ done = {}
D == PixDepth(T, N, i, j, 0, 0)
Add(c) == /\ done' = done \cup {c}
          /\ LET t == PixTurn(T, N, i, j, D, Rel(w, c, off, T, 2))
             IN acc' = << acc[1] + TurnRe(<<c, 1>>, t, 1), acc[2] + TurnIm(<<c, 1>>, t, 1) >>
          /\ UNCHANGED <<i, j, w, off>>
Next == \E c \in {1, 2, 3} \ done : Add(c)
Spec == Init /\ [][Next]_vars
Order == done = {1, 2, 3} =>
    LET f(c) == TurnRe(<<c, 1>>, PixTurn(T, N, i, j, D, Rel(w, c, off, T, 2)), 1)
    IN acc[1] = SumTo(f, 3)
Centre == i = N \div 2 /\ j = N \div 2 => PixTurn(T, N, i, j, D, w) = 0
Cells == done = {} => PixTurn(T, N, i, j, D, Rel(<<w[1] + off[1] * T, w[2] + off[2] * T, w[3] + off[3] * 2>>,
                                     1, off, T, 2)) = PixTurn(T, N, i, j, D, w)
Adjoint == done = {} =>
    LET t == PixTurn(T, N, i, j, D, w)
        a == << TurnRe(<<3, 0>>, t, -1), TurnIm(<<3, 0>>, t, -1) >>     \* degrid
        b == << TurnRe(<<2, 5>>, t, 1), TurnIm(<<2, 5>>, t, 1) >>       \* grid
    IN \* <degrid(3), v> = 3 grid(v), real parts, v = 2 + 5i
       Near(2 * a[1] + 5 * a[2], 3 * b[1], 3)
=============================================================================
