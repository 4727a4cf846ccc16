------------------------------ MODULE PureGen -------------------------------
(* Scripts of calls for module Pure, and what the specification tells apart: libraries
   that compute every outcome afresh (Kind "pure"), that keep the last outcome of a
   function and return it again without looking at all arguments ("memo"), that work in
   storage shared by all calls of a function ("scratch"), and that leave something behind
   in a plan ("plan"). A library's outcome for variant v of a function is <<v>>. *)
EXTENDS Pure, Json, IOUtils, TLC
CONSTANTS Kind, NFun, NVar, MaxLevel
VARIABLES s, lib, hist
vars == <<s, lib, hist>>

\* ------------------------------------------------ the model
Funs == 1..NFun
Vars == 0..(NVar - 1)
TwoThreads == 1..2
Known == LET RECURSIVE g(_, _)
             g(st, S) == IF S = {} THEN st
                         ELSE LET x == CHOOSE x \in S : TRUE
                              IN g(Learn(st, x[1], "d", x[2], 0, <<9 * x[2]>>), S \ {x})
         IN g(Init0, Funs \X Vars)
\* lib: memo[f] (0 or v + 1), scratch[f] (v), plan[f] (calls made with it); wrong: a wrong
\* outcome was returned; refused: the specification has refused one.
Lib0 == [memo |-> [f \in Funs |-> 0], scratch |-> [f \in Funs |-> 0], plan |-> [f \in Funs |-> 0],
         wrong |-> FALSE, refused |-> FALSE]
Init == s = Known /\ lib = Lib0 /\ hist = << >>
MStart(t, f, v) ==
    /\ s.run[t] = 0
    /\ s' = Begin(s, t, RefOf(s, f, "d", v))
    /\ lib' = [lib EXCEPT !.scratch[f] = v]
    /\ UNCHANGED hist
MEnd(t, used) ==
    /\ s.run[t] # 0
    /\ LET r == s.ref[s.run[t]]
           got == CASE Kind = "memo" /\ lib.memo[r.f] # 0 -> lib.memo[r.f] - 1
                    [] Kind = "scratch" -> lib.scratch[r.f]
                    [] Kind = "plan" /\ used -> r.v + lib.plan[r.f]
                    [] OTHER -> r.v
       IN /\ lib' = [lib EXCEPT !.memo[r.f] = got + 1,
                                !.plan[r.f] = IF used /\ Kind = "plan" THEN 1 ELSE @,
                                !.wrong = @ \/ got # r.v,
                                !.refused = @ \/ Judge(s, t, 0, <<9 * got>>, 1) # "ok"]
          /\ s' = Finish(s, t)
    /\ UNCHANGED hist
Next == ~lib.refused /\
        \E t \in TwoThreads : \/ \E f \in Funs : \E v \in Vars : MStart(t, f, v)
                              \/ \E u \in BOOLEAN : MEnd(t, u)
Bound == TLCGet("level") <= MaxLevel
Spec == Init /\ [][Next]_vars
InvExact == lib.refused = lib.wrong
InvPure == Kind = "pure" => ~lib.refused

\* ------------------------------------------------ scripts
Both == << "accumulate", "bounds", "clamp_single", "clamp_uv", "compare", "convolution", "correct_pswf",
           "correct_wstack", "dipole", "direct_correct", "direct_degrid", "direct_grid", "examples", "fft_1d",
           "fft_exec", "fft_norm_phase", "fft_shift", "flagger", "flmn", "harp", "hogbom", "kernels",
           "mem_copy", "msclean", "rotate", "station", "subgrids", "tower_correct", "tower_degrid",
           "tower_grid", "weighting", "wstack_degrid", "wstack_grid" >>
Double == << "degrid_custom", "dft", "gdft", "gidft", "height", "padded_size", "pswf_array", "pswf_plan",
             "sw_2d", "sw_facet", "sw_subgrid", "tiles", "w_step", "worst_case" >>
All == Both \o Double
Precs(f) == IF f \in {Both[k] : k \in 1..Len(Both)} THEN {"d", "s"} ELSE {"d"}
NBatch == 9
\* A script draws on three functions; functions that share a kind of plan are drawn together.
Family(f) ==
    CASE f \in {"tower_grid", "tower_degrid", "tower_correct"} -> <<"tower_grid", "tower_degrid", "tower_correct">>
      [] f \in {"direct_grid", "direct_degrid", "direct_correct"} -> <<"direct_grid", "direct_degrid", "direct_correct">>
      [] f \in {"sw_2d", "sw_facet", "sw_subgrid"} -> <<"sw_2d", "sw_facet", "sw_subgrid">>
      [] OTHER -> << >>
Draw(S) == RandomElement(IF Len(hist) < 0 THEN {} ELSE S)
Entry(b, f, p, v) == [op |-> f, f |-> f, p |-> p, v |-> v, b |-> b, omp |-> Draw({1, 1, 3}), used |-> Draw({0, 1})]
\* hist: the calls so far; the first step draws the functions.
GenInit == s = [pool |-> << >>, b |-> 0] /\ lib = 0 /\ hist = << >>
First ==
    /\ s.b = 0
    /\ \E f1 \in {Draw(1..Len(All))} : \E f2 \in {Draw(1..Len(All))} : \E f3 \in {Draw(1..Len(All))} :
       \E alone \in {Draw(1..3)} :
         LET F == Family(All[f1])
             P == IF F # << >> THEN F ELSE <<All[f1], All[IF alone = 1 THEN f1 ELSE f2], All[f3]>>
         IN \E p1 \in {Draw(Precs(P[1]))} : \E p2 \in {Draw(Precs(P[2]))} : \E p3 \in {Draw(Precs(P[3]))} :
              s' = [pool |-> <<<<P[1], p1>>, <<P[2], p2>>, <<P[3], p3>>>>, b |-> 1]
    /\ UNCHANGED <<lib, hist>>
Batch ==
    /\ s.b \in 1..NBatch
    /\ \E k \in {Draw({1, 2, 3, 4})} : \E a \in {Draw(1..4)} : \E v1 \in {Draw(0..5)} : \E d \in {Draw(1..5)} :
       \E w \in {Draw(1..3)} : \E v3 \in {Draw(0..5)} :
         LET F == s.pool[IF a = 4 THEN 1 ELSE a]
             G == s.pool[w]
             one == <<Entry(s.b, F[1], F[2], v1)>>
             two == <<Entry(s.b, F[1], F[2], (v1 + d) % 6)>>
             three == <<Entry(s.b, G[1], G[2], v3)>>
         IN hist' = hist \o (CASE k = 1 \/ s.b = 1 -> one
                               [] k = 2 \/ s.b = 2 -> one \o two
                               [] k = 3 -> one \o three
                               [] OTHER -> one \o two \o three)
    /\ s' = [s EXCEPT !.b = @ + 1]
    /\ UNCHANGED lib
Stop == s.b = NBatch + 1 /\ s' = [s EXCEPT !.b = @ + 1] /\ UNCHANGED <<lib, hist>>
GenSpec == GenInit /\ [][First \/ Batch \/ Stop]_vars
Emit == s.b = NBatch + 1 => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
