------------------------------- MODULE Binding -------------------------------
(* The Python package as a layer over the C library: what a call of a Python function
   does to the C side, and what the caller gets back.

   One step of a user (calling a function or method, reading a property, making or
   dropping an object) is a sequence of calls of C functions. The state: the memory
   descriptors, handles and sky coordinates that the C side has handed out and that
   have not been released, and the objects the user holds. *)
EXTENDS BindTable, Util, TLC, Integers, FiniteSets

Rows == 1..Len(Table)
RowOf == TLCEval([p \in {Table[i].py : i \in Rows} |-> CHOOSE i \in Rows : Table[i].py = p])
Row(p) == Table[RowOf[p]]
MemKinds == {"mem", "memx", "mem2", "memv", "newvis", "uvw2", "uvw3", "freq"}
KindOf(r, n) == LET ps == r.ps IN ps[CHOOSE k \in 1..Len(ps) : ps[k][1] = n][2]
HasParam(r, n) == \E k \in 1..Len(r.ps) : r.ps[k][1] = n
MemArgs(r) == {k \in 1..Len(r.args) : HasParam(r, r.args[k]) /\ KindOf(r, r.args[k]) \in MemKinds}
Derived == {"own", "zero", "theta_rad.size", "point_x.size", "image_size or 2 * subgrid_size",
            "subgrid_offset[0]", "subgrid_offset[1]", "subgrid_offset[2]", "min_uvw", "max_uvw",
            "min_abs_w", "max_abs_w"}
            \cup {"grid_kernel." \o q : q \in {"image_size", "subgrid_size", "theta", "w_step",
                  "shear_u", "shear_v", "support", "oversampling", "w_support", "w_oversampling"}}
(* Functions that cannot report an error. *)
NoStatus == {"fourier_transforms.padded_fft_size", "grid_data.determine_w_step",
             "visibility.get_uv_range"}

(* The table speaks about parameters that exist, and uses every one of them. *)
ASSUME Cardinality({Table[i].py : i \in Rows}) = Len(Table)
ASSUME \A i \in Rows : \A k \in 1..Len(Table[i].args) :
          HasParam(Table[i], Table[i].args[k]) \/ Table[i].args[k] \in Derived
ASSUME \A i \in Rows : \A k \in 1..Len(Table[i].ps) :
          Table[i].ps[k][2] \in {"tup", "chan", "obj", "i30", "uvw2"} \/ Table[i].py = "visibility.get_uv_range"
          \/ Table[i].ps[k][1] = "image_size"
          \/ \E j \in 1..Len(Table[i].args) : Table[i].args[j] = Table[i].ps[k][1]

DType == [int8 |-> 1, int32 |-> 2, float32 |-> 4, float64 |-> 8, complex64 |-> 36, complex128 |-> 40]
Meaning(n) == CASE n = 1 -> "Generic runtime error"
                [] n = 2 -> "Invalid function argument"
                [] n = 3 -> "Unsupported data type(s)"
                [] n = 4 -> "Memory allocation failure"
                [] n = 5 -> "Memory copy failure"
                [] n = 6 -> "Memory location mismatch"
                [] OTHER -> "Unknown error"
Message(n) == "Error " \o ToString(n) \o ": " \o Meaning(n)

B0 == [mems |-> << >>, hnds |-> << >>, skys |-> << >>, objs |-> << >>]

---------------------------------------------------------------------------
(* What a sequence of C calls does. w.why is "ok", or what was wrong with it; w.eff the
   calls that do something, w.get the inquiries. *)
Walk0(st) == [why |-> "ok", mems |-> st.mems, hnds |-> st.hnds, skys |-> st.skys,
              eff |-> << >>, get |-> << >>]
Stale(w, t) == \/ t \in DOMAIN w.mems /\ ~w.mems[t].live
               \/ t \in DOMAIN w.hnds /\ ~w.hnds[t].live
               \/ t \in DOMAIN w.skys /\ ~w.skys[t].live
One(w, g) ==
    CASE g.k = "mem_new" ->
           IF g.id = "NULL" THEN w
           ELSE [w EXCEPT !.mems = (g.id :> [live |-> TRUE, a |-> g.a, ty |-> g.ty, loc |-> g.loc,
                                    nd |-> g.nd, sh |-> g.sh, st |-> g.st, ro |-> 0]) @@ @]
      [] g.k = "mem_ro" ->
           IF g.id \in DOMAIN w.mems /\ ~Stale(w, g.id) THEN [w EXCEPT !.mems[g.id].ro = g.v]
           ELSE [w EXCEPT !.why = "used a memory descriptor it does not have"]
      [] g.k = "mem_free" ->
           IF g.id \in DOMAIN w.mems /\ ~Stale(w, g.id) THEN [w EXCEPT !.mems[g.id].live = FALSE]
           ELSE [w EXCEPT !.why = "freed a memory descriptor it does not have"]
      [] g.k = "sky_new" ->
           [w EXCEPT !.skys = (g.id :> [live |-> TRUE, ty |-> g.ty, v |-> g.v, ep |-> g.ep]) @@ @]
      [] g.k = "sky_set" ->
           IF g.id \in DOMAIN w.skys /\ ~Stale(w, g.id) THEN [w EXCEPT !.skys[g.id].ep = g.ep]
           ELSE [w EXCEPT !.why = "used a coordinate it does not have"]
      [] g.k = "sky_free" ->
           IF g.id \in DOMAIN w.skys /\ ~Stale(w, g.id) THEN [w EXCEPT !.skys[g.id].live = FALSE]
           ELSE [w EXCEPT !.why = "freed a coordinate it does not have"]
      [] \E k \in 1..Len(g.args) : Stale(w, g.args[k]) ->
           [w EXCEPT !.why = "passed something already released"]
      [] g.k = "new" ->
           [w EXCEPT !.hnds = IF g.ret = "NULL" THEN @ ELSE (g.ret :> [live |-> TRUE]) @@ @,
                     !.eff = Append(@, g)]
      [] g.k = "free" ->
           IF Len(g.args) = 1 /\ g.args[1] \in DOMAIN w.hnds
           THEN [w EXCEPT !.hnds[g.args[1]].live = FALSE, !.eff = Append(@, g)]
           ELSE [w EXCEPT !.why = "freed a handle it does not have"]
      [] g.k = "get" -> [w EXCEPT !.get = Append(@, g)]
      [] OTHER -> [w EXCEPT !.eff = Append(@, g)]
RECURSIVE Walk(_, _, _)
Walk(w, log, k) == IF k > Len(log) \/ w.why # "ok" THEN w ELSE Walk(One(w, log[k]), log, k + 1)

---------------------------------------------------------------------------
(* What the C function must be given for each argument. e.given: what the caller gave. *)
Gave(e, n) == \E k \in 1..Len(e.given) : e.given[k].n = n
Given(e, n) == e.given[CHOOSE k \in 1..Len(e.given) : e.given[k].n = n]
Param(r, n) == r.ps[CHOOSE k \in 1..Len(r.ps) : r.ps[k][1] = n]
IsNone(e, n) == ~Gave(e, n) \/ Given(e, n).k = "none"

DescribesArray(w, t, g) ==
    /\ t \in DOMAIN w.mems
    /\ LET m == w.mems[t]
       IN IF g.k = "none" THEN m.a = "0" /\ m.ty = 0 /\ m.nd = 0 /\ m.loc = 0
          ELSE /\ m.a = g.a /\ m.ty = DType[g.ty] /\ m.loc = 0 /\ m.nd = Len(g.sh)
               /\ m.sh = g.sh /\ m.st = g.st /\ m.ro = g.ro
DescribesNewVis(w, t, e) ==
    /\ t \in DOMAIN w.mems
    /\ LET m == w.mems[t]
       IN /\ m.ty = DType.complex128 /\ m.loc = 0 /\ m.nd = 2 /\ m.ro = 0
          /\ m.sh = <<Given(e, "uvws").sh[1], Given(e, "ch_count").t>>
          /\ m.st = <<ToString(16 * Given(e, "ch_count").i), "16">>
DescribesSky(w, t, g) == t \in DOMAIN w.skys /\ w.skys[t].ty = g.ty /\ w.skys[t].v = g.v /\ w.skys[t].ep = g.ep

AbsSet(q) == {Abs(q[k]) : k \in 1..Len(q)}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Most(S) == CHOOSE x \in S : \A y \in S : x >= y
LastGet(w, f, h) == LET S == {k \in 1..Len(w.get) : w.get[k].f = f /\ w.get[k].args = <<h>>}
                    IN IF S = {} THEN "not asked" ELSE w.get[Most(S)].ret
KernelGet == [q \in {"image_size", "subgrid_size", "theta", "w_step", "shear_u", "shear_v", "support",
                     "oversampling", "w_support", "w_oversampling"} |-> "sdp_gridder_wtower_uvw_" \o q]

(* t: the text of an argument as the C function saw it. *)
ArgOk(st, w, r, e, n, t) ==
    CASE n = "own" -> t = st.objs[e.h].id
      [] n = "zero" -> t = "0"
      [] n = "theta_rad.size" -> t = ToString(Given(e, "theta_rad").sz)
      [] n = "point_x.size" -> t = ToString(Given(e, "point_x").sz)
      [] n = "image_size or 2 * subgrid_size" ->
           IF IsNone(e, "image_size") \/ Given(e, "image_size").t = "0"
           THEN t = ToString(2 * Given(e, "subgrid_size").i) ELSE t = Given(e, "image_size").t
      [] n = "subgrid_offset[0]" -> t = Given(e, "subgrid_offset").v[1]
      [] n = "subgrid_offset[1]" -> t = Given(e, "subgrid_offset").v[2]
      [] n = "subgrid_offset[2]" -> t = Given(e, "subgrid_offset").v[3]
      [] n \in {"min_uvw", "max_uvw"} -> t = "&3"
      [] n = "min_abs_w" ->
           t = IF Given(e, "do_w_stacking").t = "0" THEN "0"
               ELSE ToString(Least(AbsSet(Given(e, "uvw").w)) * Given(e, "freq_hz").w[1])
      [] n = "max_abs_w" ->
           t = IF Given(e, "do_w_stacking").t = "0" THEN "0"
               ELSE ToString(Most(AbsSet(Given(e, "uvw").w))
                             * Given(e, "freq_hz").w[Len(Given(e, "freq_hz").w)])
      [] \E q \in DOMAIN KernelGet : n = "grid_kernel." \o q ->
           LET q == CHOOSE q \in DOMAIN KernelGet : n = "grid_kernel." \o q
           IN t = LastGet(w, KernelGet[q], st.objs[Given(e, "grid_kernel").slot].id)
      [] OTHER ->
           LET p == Param(r, n)
           IN CASE p[2] = "newvis" /\ IsNone(e, n) -> DescribesNewVis(w, t, e)
                [] p[2] \in MemKinds -> DescribesArray(w, t, Given(e, n))
                [] p[2] = "sky" -> DescribesSky(w, t, Given(e, n))
                [] p[2] = "pint" -> t = "&" \o Given(e, n).t
                [] ~Gave(e, n) -> t = p[3]
                [] Given(e, n).k = "none" -> t = p[4]
                [] OTHER -> t = Given(e, n).t

ArgsWhy(st, w, r, e, g) ==
    IF Len(g.args) # Len(r.args) THEN "number of arguments"
    ELSE LET B == {k \in 1..Len(r.args) : ~ArgOk(st, w, r, e, r.args[k], g.args[k])}
         IN IF B = {} THEN "ok" ELSE "argument " \o r.args[Least(B)]

(* The call the C library may not see. *)
WrongChannels(r, e) == /\ \E k \in 1..Len(r.ps) : r.ps[k][2] = "memv"
                       /\ Given(e, "ch_count").i # 0
                       /\ ToString(Given(e, "ch_count").i) # Given(e, "vis").sh[2]
MemFails(r, e) == e.memfail > 0 /\ e.memfail <= Cardinality(MemArgs(r))
Raised(e, x, t) == e.res.k = "exc" /\ e.res.x = x /\ (t = "" \/ e.res.t = t)

ResultWhy(st, w, r, e, g) ==
    CASE r.ret = "none" -> IF e.res.k = "none" THEN "ok" ELSE "something came back"
      [] r.ret = "num" -> IF e.res.k = "num" /\ e.res.t = g.ret THEN "ok" ELSE "value that came back"
      [] r.ret = "facet" -> IF IsNone(e, "facet") THEN (IF e.res.k = "none" THEN "ok" ELSE "something came back")
                            ELSE IF e.res.k = "arr" /\ e.res.a = Given(e, "facet").a THEN "ok"
                            ELSE "array that came back"
      [] r.ret = "vis" ->
           IF ~IsNone(e, "vis") THEN (IF e.res.k = "none" THEN "ok" ELSE "something came back")
           ELSE IF e.res.k = "arr" /\ e.res.zero = 1
                   /\ \E k \in 1..Len(g.args) : r.args[k] = "vis" /\ e.res.a = w.mems[g.args[k]].a
                THEN "ok" ELSE "visibilities that came back"
      [] r.ret = "bounds" -> IF e.res.k = "list" /\ e.res.v = g.outs THEN "ok" ELSE "bounds that came back"
OutsWhy(r, e, g) ==
    IF \E k \in 1..Len(r.ps) : r.ps[k][2] = "pint" /\ Len(g.outs) = 1 /\ e.after # g.outs[1]
    THEN "number written by the library" ELSE "ok"

First2(a, b) == IF a # "ok" THEN a ELSE b
CallWhy(st, w, r, e) ==
    IF e.bad # "" THEN
        IF w.eff # << >> THEN "called the library with an array it cannot describe"
        ELSE IF Raised(e, "TypeError", "") THEN "ok" ELSE "unsupported array: no TypeError"
    ELSE IF WrongChannels(r, e) THEN
        IF w.eff # << >> THEN "called the library with a wrong number of channels"
        ELSE IF Raised(e, "RuntimeError", "") THEN "ok" ELSE "wrong number of channels: no RuntimeError"
    ELSE IF MemFails(r, e) THEN
        IF w.eff # << >> THEN "went on after a descriptor could not be made"
        ELSE IF Raised(e, "CError", Message(e.memerr)) THEN "ok" ELSE "failure to describe an array"
    ELSE IF r.c = "" THEN "ok"
    ELSE IF Len(w.eff) # 1 THEN "number of calls of the library"
    ELSE LET g == w.eff[1]
         IN IF g.f # r.c THEN "called " \o g.f
            ELSE IF g.in \notin {"0", "-"} THEN "status on entry"
            ELSE LET a == ArgsWhy(st, w, r, e, g)
                 IN IF a # "ok" THEN a
                    ELSE IF e.err # 0 /\ r.py \notin NoStatus THEN
                        IF Raised(e, "CError", Message(e.err)) THEN "ok" ELSE "error not raised"
                    ELSE IF r.kind = "new" /\ g.ret = "NULL" THEN
                        IF Raised(e, "RuntimeError", "") THEN "ok" ELSE "null handle: no RuntimeError"
                    ELSE IF e.res.k = "exc" THEN "raised " \o e.res.x
                    ELSE First2(ResultWhy(st, w, r, e, g), OutsWhy(r, e, g))

SwiftlyGet(o, q) ==
    CASE q = "fourier_transforms.swiftly.Swiftly.image_size" -> o.sw.image_size.t
      [] q = "fourier_transforms.swiftly.Swiftly.facet_size" -> o.sw.yN_size.t
      [] q = "fourier_transforms.swiftly.Swiftly.subgrid_size" -> o.sw.xM_size.t
      [] q = "fourier_transforms.swiftly.Swiftly.contribution_size" ->
            ToString((o.sw.xM_size.i * o.sw.yN_size.i) \div o.sw.image_size.i)
      [] q = "fourier_transforms.swiftly.Swiftly.pswf_parameter" -> o.sw.W.t
GetWhy(st, w, r, e) ==
    IF w.eff # << >> THEN "an inquiry changed something"
    ELSE IF e.res.k # "num" THEN "value that came back"
    ELSE IF r.c = "" THEN (IF e.res.t = SwiftlyGet(st.objs[e.h], r.py) THEN "ok" ELSE "value that came back")
    ELSE IF e.res.t = LastGet(w, r.c, st.objs[e.h].id) THEN "ok" ELSE "value that came back"
RangeWhy(e) ==
    LET u == Given(e, "uvw").w
        f == Given(e, "freq_hz").w
    IN IF e.res.k = "num" /\ e.res.t = ToString(Most(AbsSet(u)) * f[Len(f)]) THEN "ok" ELSE "range of uv"
DropWhy(st, w, e) ==
    LET o == st.objs[e.h]
    IN IF Len(w.eff) # 1 THEN "number of calls on dropping an object"
       ELSE IF w.eff[1].f # Row(o.py).free \/ w.eff[1].args # <<o.id>> THEN "freed something else"
       ELSE "ok"
EndWhy(w) ==
    IF w.eff # << >> THEN "called the library after the last object was dropped"
    ELSE IF \E m \in DOMAIN w.mems : w.mems[m].live THEN "memory descriptor never freed"
    ELSE IF \E m \in DOMAIN w.hnds : w.hnds[m].live THEN "handle never freed"
    ELSE IF \E m \in DOMAIN w.skys : w.skys[m].live THEN "coordinate never freed"
    ELSE "ok"

StepWhy(st, e) ==
    LET w == Walk(Walk0(st), e.log, 1)
    IN IF w.why # "ok" THEN w.why
       ELSE CASE e.op \in {"call", "meth", "new"} ->
                   IF e.f = "visibility.get_uv_range" /\ e.bad = "" THEN RangeWhy(e)
                   ELSE CallWhy(st, w, Row(e.f), e)
              [] e.op = "get" -> GetWhy(st, w, Row(e.f), e)
              [] e.op = "drop" -> DropWhy(st, w, e)
              [] e.op = "rest" -> IF w.eff = << >> THEN "ok" ELSE "called the library on its own"
              [] e.op = "end" -> EndWhy(w)
StepTo(st, e) ==
    LET w == Walk(Walk0(st), e.log, 1)
        o == IF e.op = "new" /\ e.res.k # "exc"
             THEN (e.h :> [py |-> e.f, id |-> w.eff[1].ret,
                           sw |-> IF e.f = "fourier_transforms.swiftly.Swiftly"
                                  THEN [n \in {"image_size", "yN_size", "xM_size", "W"} |-> Given(e, n)]
                                  ELSE << >>]) @@ st.objs
             ELSE IF e.op = "drop" THEN [k \in DOMAIN st.objs \ {e.h} |-> st.objs[k]]
             ELSE st.objs
    IN [mems |-> [k \in {k \in DOMAIN w.mems : w.mems[k].live} |-> w.mems[k]],
        hnds |-> [k \in {k \in DOMAIN w.hnds : w.hnds[k].live} |-> w.hnds[k]],
        skys |-> [k \in {k \in DOMAIN w.skys : w.skys[k].live} |-> w.skys[k]], objs |-> o]
=============================================================================
