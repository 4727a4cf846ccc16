--------------------------- MODULE TraceGridUtil ----------------------------
EXTENDS TraceBase, GridUtil
I0 == 0
C(q, k) == << q[2 * k + 1], q[2 * k + 2] >>   \* k-th (from 0) complex number
AccumOk(e) == \A k \in 0..(e.num - 1) :
    LET x == IF e.exp = 0 \/ e.has2 = 0 THEN <<1, 0>> ELSE UPow(C(e.b, k), e.exp)
        y == CAdd(C(e.pre, k), CMul(C(e.a, k), x))
    IN CNear(C(e.post, k), IF e.real = 1 THEN << C(e.pre, k)[1] + C(e.a, k)[1], 0 >> ELSE y, 0)
(* out * b^exp = a; out in thousandths; rounding errors grow with |b^exp| *)
ScaleOk(e) == \A k \in 0..(e.num - 1) :
    LET x == CPow(C(e.b, k), e.exp)
        y == CMul(C(e.post, k), x)
        a == C(e.a, k)
    IN CNear(y, <<1000 * a[1], 1000 * a[2]>>, 1 + Abs(x[1]) + Abs(x[2]))
CountOk(e) == e.res = Cardinality({k \in 0..(e.num - 1) : C(e.a, k) # <<0, 0>>})
DiffOk(e) == \A k \in 0..(e.num - 1) : C(e.post, k) = CSub(C(e.a, k), C(e.b, k))
RmsOk(e) == e.res = SumTo(LAMBDA k : LET d == CSub(C(e.a, k - 1), C(e.b, k - 1))
                                     IN d[1] * d[1] + d[2] * d[2], e.num)
ShiftOk(e) == \A p \in 0..(e.np - 1) : \A k \in 0..(e.num - 1) :
    C(e.post, p * e.num + k) = IF p = e.np - 1 THEN C(e.pre, p * e.num + k)
                               ELSE C(e.pre, (p + 1) * e.num + k)
CutOk(e) == \A i \in 0..(e.su - 1) : \A j \in 0..(e.sv - 1) :
    C(e.post, i * e.sv + j)
      = C(e.grid, Cell(e.gu, e.su, e.ou, i) * e.gv + Cell(e.gv, e.sv, e.ov, j))
AddOk(e) ==
    LET hit(g, h) == {<<i, j>> \in (0..(e.su - 1)) \X (0..(e.sv - 1)) :
                        Cell(e.gu, e.su, -e.ou, i) = g /\ Cell(e.gv, e.sv, -e.ov, j) = h}
    IN \A g \in 0..(e.gu - 1) : \A h \in 0..(e.gv - 1) :
        LET k == g * e.gv + h
            H == hit(g, h)
            p == C(e.pre, k)
        IN C(e.post, k) = IF H = {} THEN p
                          ELSE LET t == CHOOSE t \in H : TRUE
                                   v == C(e.sub, t[1] * e.sv + t[2])
                               IN << p[1] + e.fac * v[1], p[2] + e.fac * v[2] >>
SumDiffOk(e) == LET lo == IF e.r0 < 0 \/ e.r1 < 0 THEN 0 ELSE e.r0
                    hi == IF e.r0 < 0 \/ e.r1 < 0 THEN e.num ELSE e.r1
                IN e.res = SumTo(LAMBDA k : IF k > lo /\ k <= hi THEN e.a[k] - e.b[k] ELSE 0, e.num)
(* Bounds over every selected channel of every row *)
BoundsOk(e) == \A j \in 1..3 :
    LET V == {e.uvw[3 * (i - 1) + j] * (e.f0 + c * e.df) :
                <<i, c>> \in {x \in (1..e.num) \X (0..e.nch) : e.s[x[1]] <= x[2] /\ x[2] < e.t[x[1]]}}
    IN IF V = {} THEN e.min[j] = Big /\ e.max[j] = -Big
       ELSE /\ e.min[j] = CHOOSE x \in V : \A y \in V : x <= y
            /\ e.max[j] = CHOOSE x \in V : \A y \in V : x >= y
(* Pixels listed in row order: all of them, or (flux given) the non-zero ones. *)
FlmnOk(e) ==
    LET all == [k \in 1..(e.nl * e.nm) |-> k - 1]
        sel == IF e.hasflux = 0 THEN all ELSE SelectSeq(all, LAMBDA k : C(e.img, k) # <<0, 0>>)
    IN /\ Len(sel) = e.num
       /\ \A q \in 1..Len(sel) :
            LET il == sel[q] \div e.nm
                im == sel[q] % e.nm
                ll == PixPos(il, e.nl, e.theta)
                mm == PixPos(im, e.nm, e.theta)
            IN /\ Near(e.lmn[3 * q - 2], ll, 2) /\ Near(e.lmn[3 * q - 1], mm, 2)
               /\ Near(e.lmn[3 * q], NOf(ll, mm, e.hu, e.hv), 8)
               /\ (e.hasflux = 1 => e.flux[q] = C(e.img, sel[q])[1]
                     * (IF e.hastaper = 1 THEN e.taper[il + 1] * e.taper[im + 1] ELSE 1))
PatternOk(e) == \A k \in 0..(e.n * e.n - 1) :
    LET n == NOf(PixPos(k \div e.n, e.n, e.theta), PixPos(k % e.n, e.n, e.theta), e.hu, e.hv)
        t == e.wstep * n
    IN CNear(C(e.post, k), <<CosMt(t), SinMt(t)>>, 30 + 40 * e.wstep)
KernelOk(e) == \A i \in 0..e.ov : \A j \in 0..(e.s - 1) :
    Near(e.post[i * e.s + j + 1], KernelAt(e.win, e.s, e.ov, i, j), e.tol)
(* fov_n = x0 / w_step, with x0 = fov/theta unless given; fov_n is twice the greatest
   depth at the corners of the field; x0 in thousandths, inv = 1/w_step in millionths *)
WStepOk(e) ==
    LET h == e.fov \div 2
        d == Max(Max(-NOf(-h, -h, e.hu, e.hv), -NOf(h, -h, e.hu, e.hv)),
                 Max(-NOf(-h, h, e.hu, e.hv), -NOf(h, h, e.hu, e.hv)))
        x == IF e.x0 # 0 THEN e.x0 * 1000 ELSE DivScaled(e.fov, e.theta, 6)
    IN Near(MulM(e.inv, x), 2 * d, 6)
Ok(e) == CASE e.e = "Accum" -> AccumOk(e) [] e.e = "Scale" -> ScaleOk(e)
           [] e.e = "Count" -> CountOk(e) [] e.e = "Diff" -> DiffOk(e)
           [] e.e = "Rms" -> RmsOk(e) [] e.e = "Shift" -> ShiftOk(e)
           [] e.e = "Cut" -> CutOk(e) [] e.e = "Add" -> AddOk(e)
           [] e.e = "SumDiff" -> SumDiffOk(e) [] e.e = "Bounds" -> BoundsOk(e)
           [] e.e = "Flmn" -> FlmnOk(e) [] e.e = "Pattern" -> PatternOk(e)
           [] e.e = "Kernel" -> KernelOk(e) [] e.e = "WStep" -> WStepOk(e)
Why(st, e) == CASE e.err # 0 -> "failed: " \o e.e
                [] e.same # 1 -> "an input or a gap was modified: " \o e.e
                [] Ok(e) -> "ok"
                [] OTHER -> e.e
Apply(st, e) == st
Init == TInit(I0)
Next == TNext(I0, Why, Apply)
Spec == Init /\ [][Next]_tvars
=============================================================================
