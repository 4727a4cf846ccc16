------------------------------ MODULE ArgTable ------------------------------
(* What every processing function requires of its arguments.
   F(name, precisions, code of a valid call, arguments); A(argument, what is refused,
   what is allowed); R(code, changes answered by that code). A change is one departure
   from a valid call:
     prec    the element type of the other precision
     kind    complex for real or real for complex
     int, real, char   32-bit integers, doubles, bytes
     ro      write-protected      gpu   said to be in GPU memory
     gap     elements not next to each other (an extra gap in the innermost stride)
     dimup   one dimension too many      dimdown   the last two dimensions made one
     moreK, lessK   one element more or fewer in dimension K
   and for a scalar argument (its name starts with "=") the value given.
   What is in neither set is left to the caller by the function and not judged here. *)
EXTENDS Util
TC == {"prec", "kind", "int", "real", "char"}
TR == {"prec", "kind", "int", "char"}
RANK == {"dimup", "dimdown"}
More == <<"more0", "more1", "more2", "more3", "more4">>
Less == <<"less0", "less1", "less2", "less3", "less4">>
LEN(n) == {More[k] : k \in 1..n} \cup {Less[k] : k \in 1..n}
SH(n) == RANK \cup LEN(n)
DS == {"d", "s"}
F(f, p, base, args) == [f |-> f, p |-> p, base |-> base, args |-> args]
A(a, rules, ok) == [a |-> a, rules |-> rules, ok |-> ok]
R(c, h) == [c |-> c, h |-> h]
Table == <<
    F("accumulate", DS, 0, <<
        A("out", <<R(6, {"gpu"}), R(3, {"char", "int"}), R(2, RANK \cup {"ro"})>>, {"gap", "kind", "prec", "real"}),
        A("in1", <<R(6, {"gpu"}), R(3, {"char", "int"}), R(2, RANK)>>, {"gap", "kind", "prec", "real", "ro"}),
        A("in2", <<R(6, {"gpu"}), R(3, TC), R(2, RANK)>>, {"gap", "ro"})>>),
    F("accumulate_plain", DS, 0, <<
        A("out", <<R(6, {"gpu"}), R(3, {"char", "int"}), R(2, RANK \cup {"ro"})>>, {"gap", "kind", "prec", "real"}),
        A("in1", <<R(6, {"gpu"}), R(3, {"char", "int"}), R(2, RANK)>>, {"gap", "kind", "prec", "real", "ro"})>>),
    F("add_to_facet", DS, 0, <<
        A("a", <<R(6, {"gpu"}), R(3, TC), R(2, SH(2) \cup {"ro"})>>, {"gap"}),
        A("b", <<R(6, {"gpu"}), R(3, TC), R(2, SH(2) \cup {"ro"})>>, {"gap"})>>),
    F("add_to_subgrid", DS, 0, <<
        A("a", <<R(6, {"gpu"}), R(3, TC), R(2, SH(2) \cup {"ro"})>>, {"gap"}),
        A("b", <<R(6, {"gpu"}), R(3, TC), R(2, SH(2) \cup {"ro"})>>, {"gap"})>>),
    F("add_to_subgrid_2d", DS, 0, <<
        A("a", <<R(6, {"gpu"}), R(3, TC), R(2, SH(2) \cup {"ro"})>>, {"gap"}),
        A("b", <<R(6, {"gpu"}), R(3, TC), R(2, SH(2) \cup {"ro"})>>, {"gap"})>>),
    F("bounds", DS, 0, <<
        A("uvw", <<R(6, {"gpu"}), R(3, {"char", "int", "kind"}), R(2, RANK)>>, {"gap", "prec", "ro"}),
        A("start", <<R(6, {"gpu"}), R(3, {"char", "real"}), R(2, {"dimup"})>>, {"gap", "ro"}),
        A("end", <<R(6, {"gpu"}), R(3, {"char", "real"}), R(2, {"dimup"})>>, {"gap", "ro"})>>),
    F("briggs", DS, 0, <<
        A("uvw", <<R(6, {"gpu"}), R(3, TR), R(2, SH(3) \cup {"gap"})>>, {"ro"}),
        A("freq", <<R(6, {"gpu"}), R(3, TR), R(2, LEN(1) \cup {"dimdown", "gap"})>>, {"ro"}),
        A("grid", <<R(6, {"gpu"}), R(3, TR), R(2, SH(3) \cup {"gap", "ro"})>>, {}),
        A("weights", <<R(6, {"gpu"}), R(3, TR), R(2, LEN(4) \cup {"gap"}), R(1, RANK)>>, {"ro"}),
        A("out", <<R(6, {"gpu"}), R(3, TR), R(2, LEN(4) \cup {"gap", "ro"}), R(1, RANK)>>, {})>>),
    F("bucket_sort", DS, 0, <<
        A("uvw", <<R(6, {"gpu"}), R(3, TR), R(2, SH(3) \cup {"gap"})>>, {"ro"}),
        A("freq", <<R(6, {"gpu"}), R(3, TR), R(2, {"gap"})>>, {"ro"}),
        A("vis", <<R(6, {"gpu"}), R(3, TC), R(2, SH(4) \cup {"gap"})>>, {"ro"}),
        A("weights", <<R(6, {"gpu"}), R(3, TR), R(2, SH(4) \cup {"gap"})>>, {"ro"}),
        A("uu", <<R(6, {"gpu"}), R(3, TR), R(2, {"gap", "ro"})>>, {}),
        A("vv", <<R(6, {"gpu"}), R(3, TR), R(2, {"gap", "ro"})>>, {}),
        A("sweight", <<R(6, {"gpu"}), R(3, TR), R(2, {"gap", "ro"})>>, {}),
        A("tile", <<R(6, {"gpu"}), R(3, {"char", "real"}), R(2, {"gap", "ro"})>>, {}),
        A("svis", <<R(6, {"gpu"}), R(3, TC), R(2, {"gap", "ro"})>>, {}),
        A("offsets", <<R(6, {"gpu"}), R(3, {"char", "real"}), R(2, {"gap", "ro"})>>, {})>>),
    F("clamp_single", DS, 0, <<
        A("uvw", <<R(6, {"gpu"}), R(3, {"char", "int", "kind"}), R(2, RANK)>>, {"gap", "prec", "ro"}),
        A("start", <<R(6, {"gpu"}), R(3, {"char", "real"}), R(2, {"dimup"})>>, {"gap", "ro"}),
        A("end", <<R(6, {"gpu"}), R(3, {"char", "real"}), R(2, {"dimup"})>>, {"gap", "ro"}),
        A("start_out", <<R(6, {"gpu"}), R(3, {"char", "real"}), R(2, {"dimup", "ro"})>>, {"gap"}),
        A("end_out", <<R(6, {"gpu"}), R(3, {"char", "real"}), R(2, {"dimup", "ro"})>>, {"gap"})>>),
    F("clamp_uv", DS, 0, <<
        A("uvw", <<R(6, {"gpu"}), R(3, {"char", "int", "kind"}), R(2, RANK)>>, {"gap", "prec", "ro"}),
        A("start", <<R(6, {"gpu"}), R(3, {"char", "real"}), R(2, {"dimup"})>>, {"gap", "ro"}),
        A("end", <<R(6, {"gpu"}), R(3, {"char", "real"}), R(2, {"dimup"})>>, {"gap", "ro"}),
        A("start_out", <<R(6, {"gpu"}), R(3, {"char", "real"}), R(2, {"dimup", "ro"})>>, {"gap"}),
        A("end_out", <<R(6, {"gpu"}), R(3, {"char", "real"}), R(2, {"dimup", "ro"})>>, {"gap"})>>),
    F("convolution", DS, 0, <<
        A("in1", <<R(6, {"gpu"}), R(3, TC \cup LEN(2) \cup {"dimdown"}), R(2, {"dimup", "gap"})>>, {"ro"}),
        A("in2", <<R(6, {"gpu"}), R(3, TC \cup LEN(2) \cup {"dimdown"}), R(2, {"dimup", "gap"})>>, {"ro"}),
        A("out", <<R(6, {"gpu"}), R(3, TC), R(2, SH(2) \cup {"gap"}), R(1, {"ro"})>>, {})>>),
    F("correct_pswf", DS, 0, <<
        A("facet", <<R(6, {"gpu"}), R(3, {"char", "int"}), R(2, RANK \cup {"ro"})>>, LEN(2) \cup {"gap", "kind", "prec", "real"})>>),
    F("correct_wstack", DS, 0, <<
        A("facet", <<R(3, {"char", "int", "kind", "real"}), R(2, RANK \cup {"ro"}), R(1, {"gpu"})>>, LEN(2) \cup {"gap", "prec"})>>),
    F("count_nonzero", DS, 0, <<
        A("image", <<R(6, {"gpu"}), R(3, {"char", "int"}), R(2, RANK)>>, LEN(2) \cup {"gap", "kind", "prec", "real", "ro"})>>),
    F("degrid_custom", DS, 0, <<
        A("grid", <<R(6, {"gpu"}), R(3, TC), R(2, RANK \cup {"gap", "less0", "less1", "less4", "more0", "more4"})>>, {"ro"}),
        A("uvw", <<R(6, {"gpu"}), R(3, TR), R(2, SH(3) \cup {"gap"})>>, {"ro"}),
        A("uvkernel", <<R(6, {"gpu"}), R(3, TR), R(2, {"gap"})>>, {"ro"}),
        A("wkernel", <<R(6, {"gpu"}), R(3, TR), R(2, {"gap", "more1"})>>, {"ro"}),
        A("vis", <<R(6, {"gpu"}), R(3, TC), R(2, SH(4) \cup {"gap", "ro"})>>, {})>>),
    F("dft0", DS, 0, <<
        A("directions", <<R(6, {"gpu"}), R(3, TR), R(2, SH(2) \cup {"gap"})>>, {"ro"}),
        A("fluxes", <<R(6, {"gpu"}), R(3, TC), R(2, SH(3) \cup {"gap"})>>, {"ro"}),
        A("uvw", <<R(6, {"gpu"}), R(3, TR), R(2, SH(4) \cup {"gap"})>>, {"ro"}),
        A("vis", <<R(6, {"gpu"}), R(3, {"char", "int", "kind", "real"}), R(2, SH(4) \cup {"gap", "ro"})>>, {"prec"})>>),
    F("dft1", DS, 0, <<
        A("directions", <<R(6, {"gpu"}), R(3, TR), R(2, LEN(2) \cup {"dimdown", "gap"})>>, {"ro"}),
        A("fluxes", <<R(6, {"gpu"}), R(3, TC), R(2, SH(3) \cup {"gap"})>>, {"ro"}),
        A("uvw", <<R(6, {"gpu"}), R(3, TR), R(2, SH(3) \cup {"gap"})>>, {"ro"}),
        A("vis", <<R(6, {"gpu"}), R(3, {"char", "int", "kind", "real"}), R(2, SH(4) \cup {"gap", "ro"})>>, {"prec"})>>),
    F("dipole", DS, 0, <<
        A("theta", <<R(6, {"gpu"}), R(3, TR), R(2, {"gap"})>>, {"ro"}),
        A("phi", <<R(6, {"gpu"}), R(3, TR), R(2, {"gap"})>>, {"ro"}),
        A("beam", <<R(6, {"gpu"}), R(3, TC), R(2, {"gap", "ro"})>>, {})>>),
    F("direct_degrid", {"d"}, 0, <<
        A("subgrid", <<R(6, {"gpu"}), R(3, {"char", "int"}), R(2, RANK)>>, {"gap", "kind", "prec", "real", "ro"}),
        A("uvw", <<R(6, {"gpu"}), R(3, TR), R(2, RANK)>>, {"gap", "ro"}),
        A("start", <<R(6, {"gpu"}), R(3, {"char", "real"}), R(2, {"dimup"})>>, {"gap", "ro"}),
        A("end", <<R(6, {"gpu"}), R(3, {"char", "real"}), R(2, {"dimup"})>>, {"gap", "ro"}),
        A("vis", <<R(6, {"gpu"}), R(3, TC), R(2, RANK \cup {"ro"})>>, {"gap"})>>),
    F("direct_degrid", {"s"}, 0, <<
        A("subgrid", <<R(6, {"gpu"}), R(3, {"char", "int", "prec", "real"}), R(2, RANK)>>, {"gap", "kind", "ro"}),
        A("uvw", <<R(6, {"gpu"}), R(3, TR), R(2, RANK)>>, {"gap", "ro"}),
        A("start", <<R(6, {"gpu"}), R(3, {"char", "real"}), R(2, {"dimup"})>>, {"gap", "ro"}),
        A("end", <<R(6, {"gpu"}), R(3, {"char", "real"}), R(2, {"dimup"})>>, {"gap", "ro"}),
        A("vis", <<R(6, {"gpu"}), R(3, TC), R(2, RANK \cup {"ro"})>>, {"gap"})>>),
    F("direct_degrid_correct", DS, 0, <<
        A("facet", <<R(6, {"gpu"}), R(3, {"char", "int"}), R(2, RANK \cup {"ro"})>>, LEN(2) \cup {"gap", "kind", "prec", "real"})>>),
    F("direct_grid", DS, 0, <<
        A("vis", <<R(6, {"gpu"}), R(3, TC), R(2, RANK)>>, {"gap", "ro"}),
        A("uvw", <<R(6, {"gpu"}), R(3, TR), R(2, RANK)>>, {"gap", "ro"}),
        A("start", <<R(6, {"gpu"}), R(3, {"char", "real"}), R(2, {"dimup"})>>, {"gap", "ro"}),
        A("end", <<R(6, {"gpu"}), R(3, {"char", "real"}), R(2, {"dimup"})>>, {"gap", "ro"}),
        A("subgrid", <<R(6, {"gpu"}), R(3, TC), R(2, RANK \cup {"ro"})>>, {"gap"})>>),
    F("direct_grid_correct", DS, 0, <<
        A("facet", <<R(6, {"gpu"}), R(3, {"char", "int"}), R(2, RANK \cup {"ro"})>>, LEN(2) \cup {"gap", "kind", "prec", "real"})>>),
    F("es_create", {"d"}, 6, <<
        A("uvw", <<R(3, TR), R(2, LEN(2) \cup {"dimdown", "gap"})>>, {"dimup", "gpu", "ro"}),
        A("freq", <<R(3, TR), R(2, LEN(1) \cup {"dimdown", "gap"})>>, {"dimup", "gpu", "ro"}),
        A("vis", <<R(3, TC), R(2, LEN(2) \cup {"dimdown", "gap"})>>, {"dimup", "gpu", "ro"}),
        A("weight", <<R(3, TR), R(2, LEN(2) \cup {"dimdown", "gap"})>>, {"dimup", "gpu", "ro"}),
        A("image", <<R(3, TR), R(2, LEN(2) \cup {"dimdown", "gap", "ro"})>>, {"dimup", "gpu"})>>),
    F("es_create", {"s"}, 6, <<
        A("uvw", <<R(3, {"kind", "prec"}), R(2, LEN(2) \cup {"dimdown", "gap"})>>, {"char", "dimup", "gpu", "int", "ro"}),
        A("freq", <<R(3, TR), R(2, LEN(1) \cup {"dimdown", "gap"})>>, {"dimup", "gpu", "ro"}),
        A("vis", <<R(3, TC), R(2, LEN(2) \cup {"dimdown", "gap"})>>, {"dimup", "gpu", "ro"}),
        A("weight", <<R(3, TR), R(2, LEN(2) \cup {"dimdown", "gap"})>>, {"dimup", "gpu", "ro"}),
        A("image", <<R(3, TR), R(2, LEN(2) \cup {"dimdown", "gap", "ro"})>>, {"dimup", "gpu"})>>),
    F("extract_from_facet", DS, 0, <<
        A("a", <<R(6, {"gpu"}), R(3, TC), R(2, SH(2) \cup {"ro"})>>, {"gap"}),
        A("b", <<R(6, {"gpu"}), R(3, TC), R(2, SH(2) \cup {"ro"})>>, {"gap"})>>),
    F("extract_from_subgrid", DS, 0, <<
        A("a", <<R(6, {"gpu"}), R(3, TC), R(2, SH(2) \cup {"ro"})>>, {"gap"}),
        A("b", <<R(6, {"gpu"}), R(3, TC), R(2, SH(2) \cup {"ro"})>>, {"gap"})>>),
    F("extract_from_subgrid_2d", DS, 0, <<
        A("a", <<R(6, {"gpu"}), R(3, TC), R(2, SH(2) \cup {"ro"})>>, {"gap"}),
        A("b", <<R(6, {"gpu"}), R(3, TC), R(2, SH(2) \cup {"ro"})>>, {"gap"})>>),
    F("fft_create", DS, 0, <<
        A("in", <<R(6, {"gpu"}), R(3, TC), R(1, SH(2) \cup {"gap"})>>, {"ro"}),
        A("out", <<R(6, {"gpu"}), R(3, TC), R(1, SH(2) \cup {"gap", "ro"})>>, {}),
        A("=dims", <<R(1, {"-1", "0", "3"})>>, {"1"})>>),
    F("fft_exec", DS, 0, <<
        A("in", <<R(6, {"gpu"}), R(3, TC), R(1, SH(2) \cup {"gap"})>>, {"ro"}),
        A("out", <<R(6, {"gpu"}), R(3, TC), R(1, SH(2) \cup {"gap", "ro"})>>, {})>>),
    F("fft_exec_shift", DS, 0, <<
        A("data", <<R(3, {"char", "int", "kind", "real"}), R(1, SH(2) \cup {"gap", "gpu", "prec", "ro"})>>, {})>>),
    F("fft_norm", DS, 0, <<
        A("data", <<R(3, {"char", "int", "kind", "real"}), R(2, RANK \cup {"ro"}), R(1, {"gpu"})>>, LEN(2) \cup {"gap", "prec"})>>),
    F("fft_phase", DS, 0, <<
        A("data", <<R(3, {"char", "int", "kind", "real"}), R(2, RANK \cup {"ro"}), R(1, {"gpu"})>>, LEN(2) \cup {"gap", "prec"})>>),
    F("finish_facet", DS, 0, <<
        A("a", <<R(6, {"gpu"}), R(3, TC), R(2, SH(2) \cup {"ro"})>>, {"gap"}),
        A("b", <<R(6, {"gpu"}), R(3, TC), R(2, RANK \cup {"less0", "more0", "ro"})>>, {"gap", "less1", "more1"})>>),
    F("finish_subgrid", DS, 0, <<
        A("a", <<R(6, {"gpu"}), R(3, TC), R(2, SH(2) \cup {"ro"})>>, {"gap"}),
        A("b", <<R(6, {"gpu"}), R(3, TC), R(2, RANK \cup {"less0", "more0", "ro"})>>, {"gap", "less1", "more1"})>>),
    F("finish_subgrid_inplace", DS, 0, <<
        A("a", <<R(6, {"gpu"}), R(3, TC), R(2, RANK \cup {"less1", "more1", "ro"})>>, {"gap", "less0", "more0"})>>),
    F("finish_subgrid_inplace_2d", DS, 0, <<
        A("a", <<R(6, {"gpu"}), R(3, TC), R(2, SH(2) \cup {"ro"})>>, {"gap"})>>),
    F("flagger", DS, 0, <<
        A("vis", <<R(6, {"gpu"}), R(3, {"char", "int", "kind", "real"}), R(1, SH(4) \cup {"gap"})>>, {"prec", "ro"}),
        A("flags", <<R(6, {"gpu"}), R(3, {"char", "real"}), R(1, SH(4) \cup {"gap", "ro"})>>, {}),
        A("=step", <<R(2, {"-1", "0", "50"})>>, {"5"}),
        A("=history", <<R(2, {"-1", "0"})>>, {"50"})>>),
    F("flmn", {"d"}, 0, <<
        A("image", <<R(6, {"gpu"}), R(3, {"char", "int"}), R(2, RANK)>>, {"gap", "kind", "prec", "real", "ro"}),
        A("taper", <<R(6, {"gpu"}), R(3, TR), R(2, {"dimup"})>>, {"gap", "ro"}),
        A("flux", <<R(6, {"gpu"}), R(3, TR), R(2, {"dimup", "ro"})>>, {"gap"}),
        A("lmn", <<R(6, {"gpu"}), R(3, TR), R(2, RANK \cup {"ro"})>>, {"gap"})>>),
    F("flmn", {"s"}, 0, <<
        A("image", <<R(6, {"gpu"}), R(3, {"char", "int", "kind"}), R(2, RANK)>>, {"gap", "prec", "real", "ro"}),
        A("taper", <<R(6, {"gpu"}), R(3, TR), R(2, {"dimup"})>>, {"gap", "ro"}),
        A("flux", <<R(6, {"gpu"}), R(3, TR), R(2, {"dimup", "ro"})>>, {"gap"}),
        A("lmn", <<R(6, {"gpu"}), R(3, {"char", "int", "kind"}), R(2, RANK \cup {"ro"})>>, {"gap", "prec"})>>),
    F("gdft", {"d"}, 0, <<
        A("uvw", <<R(6, {"gpu"}), R(3, TR), R(2, RANK)>>, {"gap", "ro"}),
        A("start", <<R(6, {"gpu"}), R(3, {"char", "real"}), R(2, {"dimup"})>>, {"gap", "ro"}),
        A("end", <<R(6, {"gpu"}), R(3, {"char", "real"}), R(2, {"dimup"})>>, {"gap", "ro"}),
        A("flux", <<R(6, {"gpu"}), R(3, TR), R(2, {"dimup"})>>, {"gap", "ro"}),
        A("lmn", <<R(6, {"gpu"}), R(3, TR), R(2, RANK)>>, {"gap", "ro"}),
        A("vis", <<R(6, {"gpu"}), R(3, TC), R(2, RANK \cup {"ro"})>>, {"gap"})>>),
    F("gidft", {"d"}, 0, <<
        A("uvw", <<R(6, {"gpu"}), R(3, TR), R(2, RANK)>>, {"gap", "ro"}),
        A("vis", <<R(6, {"gpu"}), R(3, TC), R(2, RANK)>>, {"gap", "ro"}),
        A("start", <<R(6, {"gpu"}), R(3, {"char", "real"}), R(2, {"dimup"})>>, {"gap", "ro"}),
        A("end", <<R(6, {"gpu"}), R(3, {"char", "real"}), R(2, {"dimup"})>>, {"gap", "ro"}),
        A("lmn", <<R(6, {"gpu"}), R(3, TR), R(2, RANK)>>, {"gap", "ro"}),
        A("taper", <<R(6, {"gpu"}), R(3, TR), R(2, {"dimup"})>>, {"gap", "ro"}),
        A("image", <<R(6, {"gpu"}), R(3, TC), R(2, RANK \cup {"ro"})>>, {"gap"})>>),
    F("harp", DS, 0, <<
        A("theta", <<R(6, {"gpu"}), R(3, TR), R(2, {"gap"})>>, {"ro"}),
        A("phix", <<R(6, {"gpu"}), R(3, TR), R(2, {"gap"})>>, {"ro"}),
        A("phiy", <<R(6, {"gpu"}), R(3, TR), R(2, {"gap"})>>, {"ro"}),
        A("coeffs", <<R(6, {"gpu"}), R(3, TC), R(2, {"gap"})>>, {"ro"}),
        A("beam", <<R(6, {"gpu"}), R(3, TC \cup RANK \cup {"less1", "more1"}), R(2, {"gap", "ro"})>>, {})>>),
    F("hogbom", DS, 0, <<
        A("dirty", <<R(6, {"gpu"}), R(3, TR), R(2, {"dimup", "gap"}), R(1, LEN(2) \cup {"dimdown"})>>, {"ro"}),
        A("psf", <<R(6, {"gpu"}), R(3, TR), R(2, {"dimup", "gap"}), R(1, LEN(2) \cup {"dimdown"})>>, {"ro"}),
        A("cbeam", <<R(6, {"gpu"}), R(3, TR), R(2, {"gap"}), R(1, LEN(1) \cup {"dimdown"})>>, {"ro"}),
        A("model", <<R(6, {"gpu"}), R(3, TR), R(2, {"dimup", "gap", "less1", "more1", "ro"}), R(1, {"dimdown", "less0", "more0"})>>, {}),
        A("residual", <<R(6, {"gpu"}), R(3, TR), R(2, {"dimup", "gap", "less1", "more1", "ro"}), R(1, {"dimdown", "less0", "more0"})>>, {}),
        A("skymodel", <<R(6, {"gpu"}), R(3, TR), R(2, {"dimup", "gap", "less1", "more1"}), R(1, {"dimdown", "less0", "more0", "ro"})>>, {}),
        A("=cycles", <<R(1, {"-1", "0"})>>, {}),
        A("=gain", <<R(1, {"-1", "0"})>>, {"1"})>>),
    F("make_kernel", DS, 0, <<
        A("window", <<R(6, {"gpu"}), R(3, TR), R(2, SH(1))>>, {"gap", "ro"}),
        A("kernel", <<R(6, {"gpu"}), R(3, TR), R(2, RANK \cup {"less1", "more1", "ro"})>>, {"gap"})>>),
    F("make_pswf_kernel", DS, 0, <<
        A("kernel", <<R(6, {"gpu"}), R(3, {"char", "int", "kind"}), R(2, RANK \cup {"ro"})>>, LEN(2) \cup {"gap", "prec"})>>),
    F("msclean", DS, 0, <<
        A("dirty", <<R(6, {"gpu"}), R(3, TR), R(2, {"dimup", "gap", "less1", "more1"}), R(1, {"dimdown", "less0", "more0"})>>, {"ro"}),
        A("psf", <<R(6, {"gpu"}), R(3, TR), R(2, SH(2) \cup {"gap"})>>, {"ro"}),
        A("cbeam", <<R(6, {"gpu"}), R(3, TR), R(2, {"gap"}), R(1, LEN(1) \cup {"dimdown"})>>, {"ro"}),
        A("scales", <<R(6, {"gpu"}), R(3, {"char", "real"}), R(2, {"gap"})>>, {"ro"}),
        A("model", <<R(6, {"gpu"}), R(3, TR), R(2, {"dimup", "gap", "less1", "more1", "ro"}), R(1, {"dimdown", "less0", "more0"})>>, {}),
        A("residual", <<R(6, {"gpu"}), R(3, TR), R(2, {"dimup", "gap", "less1", "more1", "ro"}), R(1, {"dimdown", "less0", "more0"})>>, {}),
        A("skymodel", <<R(6, {"gpu"}), R(3, TR), R(2, {"dimup", "gap", "less1", "more1"}), R(1, {"dimdown", "less0", "more0", "ro"})>>, {})>>),
    F("opt_indexed", {"d"}, 6, <<
        A("uvw", <<R(3, TR)>>, SH(3) \cup {"gap", "gpu", "ro"}),
        A("vis", << >>, TC \cup SH(4) \cup {"gap", "gpu", "ro"}),
        A("weights", <<R(3, TR)>>, SH(4) \cup {"gap", "gpu", "ro"}),
        A("tile", << >>, SH(1) \cup {"char", "gap", "gpu", "real", "ro"}),
        A("uu", << >>, TR \cup SH(1) \cup {"gap", "gpu", "ro"}),
        A("vv", << >>, TR \cup SH(1) \cup {"gap", "gpu", "ro"}),
        A("index", << >>, SH(1) \cup {"char", "gap", "gpu", "real", "ro"}),
        A("offsets", << >>, SH(1) \cup {"char", "gap", "gpu", "real", "ro"}),
        A("points", << >>, SH(1) \cup {"char", "gap", "gpu", "real", "ro"}),
        A("out", << >>, TR \cup SH(4) \cup {"gap", "gpu", "ro"})>>),
    F("opt_weighting", {"d"}, 6, <<
        A("uvw", <<R(3, TR)>>, SH(3) \cup {"gap", "gpu", "ro"}),
        A("freq", <<R(3, TR)>>, SH(1) \cup {"gap", "gpu", "ro"}),
        A("vis", << >>, TC \cup SH(4) \cup {"gap", "gpu", "ro"}),
        A("weights", <<R(3, TR)>>, SH(4) \cup {"gap", "gpu", "ro"}),
        A("uu", << >>, TR \cup SH(1) \cup {"gap", "gpu", "ro"}),
        A("vv", << >>, TR \cup SH(1) \cup {"gap", "gpu", "ro"}),
        A("sweight", << >>, TR \cup SH(1) \cup {"gap", "gpu", "ro"}),
        A("tile", << >>, SH(1) \cup {"char", "gap", "gpu", "real", "ro"}),
        A("offsets", << >>, SH(1) \cup {"char", "gap", "gpu", "real", "ro"}),
        A("points", << >>, SH(1) \cup {"char", "gap", "gpu", "real", "ro"}),
        A("out", << >>, TR \cup SH(4) \cup {"gap", "gpu", "ro"})>>),
    F("prepare_facet", DS, 0, <<
        A("a", <<R(6, {"gpu"}), R(3, TC), R(2, RANK \cup {"less0", "more0", "ro"})>>, {"gap", "less1", "more1"}),
        A("b", <<R(6, {"gpu"}), R(3, TC), R(2, SH(2) \cup {"ro"})>>, {"gap"})>>),
    F("prepare_subgrid_inplace", DS, 0, <<
        A("a", <<R(6, {"gpu"}), R(3, TC), R(2, RANK \cup {"less1", "more1", "ro"})>>, {"gap", "less0", "more0"})>>),
    F("prepare_subgrid_inplace_2d", DS, 0, <<
        A("a", <<R(6, {"gpu"}), R(3, TC), R(2, SH(2) \cup {"ro"})>>, {"gap"})>>),
    F("pswf", DS, 0, <<
        A("out", <<R(6, {"gpu"}), R(3, {"char", "int"}), R(2, {"dimup", "ro"})>>, LEN(1) \cup {"dimdown", "gap", "kind", "prec"}),
        A("=size", <<R(2, {"5", "9"})>>, {}),
        A("=noout", <<R(2, {"1"})>>, {})>>),
    F("pswf_old", DS, 0, <<
        A("out", <<R(6, {"gpu"}), R(3, {"char", "int"}), R(2, {"dimup", "ro"})>>, LEN(1) \cup {"dimdown", "gap", "kind", "prec"})>>),
    F("residual", {"d"}, 0, <<
        A("a", <<R(6, {"gpu"}), R(2, TC \cup SH(2))>>, {"gap", "ro"}),
        A("b", <<R(6, {"gpu"}), R(3, {"char", "int", "kind", "real"}), R(2, SH(2))>>, {"gap", "prec", "ro"}),
        A("out", <<R(6, {"gpu"}), R(2, TC \cup SH(2) \cup {"ro"})>>, {"gap"})>>),
    F("residual", {"s"}, 0, <<
        A("a", <<R(6, {"gpu"}), R(2, TC \cup SH(2))>>, {"gap", "ro"}),
        A("b", <<R(6, {"gpu"}), R(3, TC), R(2, SH(2))>>, {"gap", "ro"}),
        A("out", <<R(6, {"gpu"}), R(2, TC \cup SH(2) \cup {"ro"})>>, {"gap"})>>),
    F("rms_diff", {"d"}, 0, <<
        A("a", <<R(6, {"gpu"}), R(3, TC), R(2, SH(2))>>, {"gap", "ro"}),
        A("b", <<R(6, {"gpu"}), R(3, {"char", "int", "kind", "real"}), R(2, SH(2))>>, {"gap", "prec", "ro"})>>),
    F("rms_diff", {"s"}, 0, <<
        A("a", <<R(6, {"gpu"}), R(3, {"char", "int", "kind", "real"}), R(2, SH(2))>>, {"gap", "prec", "ro"}),
        A("b", <<R(6, {"gpu"}), R(3, TC), R(2, SH(2))>>, {"gap", "ro"})>>),
    F("rotate_uvw", DS, 0, <<
        A("in", <<R(6, {"gpu"}), R(3, TR), R(2, SH(3) \cup {"gap"})>>, {"ro"}),
        A("out", <<R(6, {"gpu"}), R(3, TR), R(2, SH(3) \cup {"gap", "ro"})>>, {})>>),
    F("rotate_vis", DS, 0, <<
        A("uvw", <<R(6, {"gpu"}), R(3, TR), R(2, SH(3) \cup {"gap"})>>, {"ro"}),
        A("in", <<R(6, {"gpu"}), R(3, TC), R(2, SH(4) \cup {"gap"})>>, {"ro"}),
        A("out", <<R(6, {"gpu"}), R(3, TC), R(2, SH(4) \cup {"gap", "ro"})>>, {})>>),
    F("scale_inv", {"d"}, 0, <<
        A("out", <<R(6, {"gpu"}), R(3, TC), R(2, RANK \cup {"ro"})>>, {"gap"}),
        A("in1", <<R(6, {"gpu"}), R(3, {"char", "int", "prec"}), R(2, RANK)>>, {"gap", "kind", "real", "ro"}),
        A("in2", <<R(6, {"gpu"}), R(3, TC), R(2, RANK)>>, {"gap", "ro"})>>),
    F("scale_inv", {"s"}, 0, <<
        A("out", <<R(6, {"gpu"}), R(3, TC), R(2, RANK \cup {"ro"})>>, {"gap"}),
        A("in1", <<R(6, {"gpu"}), R(3, {"char", "int", "prec", "real"}), R(2, RANK)>>, {"gap", "kind", "ro"}),
        A("in2", <<R(6, {"gpu"}), R(3, TC), R(2, RANK)>>, {"gap", "ro"})>>),
    F("shift_subgrids", DS, 0, <<
        A("subgrids", <<R(3, {"char", "int", "kind", "real"}), R(2, RANK \cup {"ro"}), R(1, {"gpu"})>>, {"gap", "prec"})>>),
    F("station", DS, 0, <<
        A("weights", <<R(6, {"gpu"}), R(3, TC), R(2, {"gap"})>>, {"ro"}),
        A("ex", <<R(6, {"gpu"}), R(3, TR), R(2, {"gap"})>>, {"ro"}),
        A("ey", <<R(6, {"gpu"}), R(3, TR), R(2, {"gap"})>>, {"ro"}),
        A("ez", <<R(6, {"gpu"}), R(3, TR), R(2, {"gap"})>>, {"ro"}),
        A("px", <<R(6, {"gpu"}), R(3, TR), R(2, {"gap"})>>, {"ro"}),
        A("py", <<R(6, {"gpu"}), R(3, TR), R(2, {"gap"})>>, {"ro"}),
        A("pz", <<R(6, {"gpu"}), R(3, TR), R(2, {"gap"})>>, {"ro"}),
        A("index", <<R(6, {"gpu"}), R(3, {"char", "real"}), R(2, {"gap"})>>, {"ro"}),
        A("element", <<R(6, {"gpu"}), R(3, TC), R(2, {"gap"})>>, {"ro"}),
        A("beam", <<R(6, {"gpu"}), R(3, TC), R(2, {"gap", "ro"})>>, {})>>),
    F("subgrid_add", DS, 0, <<
        A("grid", <<R(6, {"gpu"}), R(3, TC), R(2, RANK \cup {"ro"})>>, LEN(2) \cup {"gap"}),
        A("subgrid", <<R(6, {"gpu"}), R(3, TC), R(2, RANK)>>, LEN(2) \cup {"gap", "ro"})>>),
    F("subgrid_cut_out", DS, 0, <<
        A("grid", <<R(6, {"gpu"}), R(3, TC), R(2, RANK)>>, LEN(2) \cup {"gap", "ro"}),
        A("subgrid", <<R(6, {"gpu"}), R(3, TC), R(2, RANK \cup {"ro"})>>, LEN(2) \cup {"gap"})>>),
    F("sum_diff", DS, 0, <<
        A("a", <<R(6, {"gpu"}), R(3, {"char", "real"}), R(2, SH(1))>>, {"gap", "ro"}),
        A("b", <<R(6, {"gpu"}), R(3, {"char", "real"}), R(2, SH(1))>>, {"gap", "ro"})>>),
    F("swiftly_create", DS, 0, <<
        A("=N", <<R(2, {"-64", "0", "48", "50"})>>, {}),
        A("=yN", <<R(2, {"-32", "0", "128", "31", "96"})>>, {}),
        A("=xM", <<R(2, {"-16", "0", "128", "15", "20"})>>, {})>>),
    F("tile_count", {"d"}, 0, <<
        A("uvw", <<R(6, {"gpu"}), R(3, TR), R(2, SH(3) \cup {"gap"})>>, {"ro"}),
        A("freq", <<R(6, {"gpu"}), R(3, TR), R(2, {"gap"})>>, {"ro"}),
        A("vis", <<R(6, {"gpu"}), R(3, {"char", "int", "kind", "real"}), R(2, RANK \cup {"gap", "less0", "less1", "less3", "more0", "more1", "more3"})>>, {"prec", "ro"}),
        A("offsets", <<R(6, {"gpu"}), R(3, {"char", "real"}), R(2, {"gap", "ro"})>>, {}),
        A("points", <<R(6, {"gpu"}), R(3, {"char", "real"}), R(2, {"gap", "ro"})>>, {}),
        A("skipped", <<R(6, {"gpu"}), R(3, {"char", "real"}), R(2, {"gap", "ro"})>>, {})>>),
    F("tile_index", DS, 0, <<
        A("uvw", <<R(6, {"gpu"}), R(3, TR), R(2, SH(3) \cup {"gap"})>>, {"ro"}),
        A("freq", <<R(6, {"gpu"}), R(3, TR), R(2, {"gap"})>>, {"ro"}),
        A("tile", <<R(6, {"gpu"}), R(3, {"char", "real"}), R(2, {"gap", "ro"})>>, {}),
        A("uu", <<R(6, {"gpu"}), R(3, TR), R(2, {"gap", "ro"})>>, {}),
        A("vv", <<R(6, {"gpu"}), R(3, TR), R(2, {"gap", "ro"})>>, {}),
        A("index", <<R(6, {"gpu"}), R(3, {"char", "real"}), R(2, {"gap", "ro"})>>, {}),
        A("offsets", <<R(6, {"gpu"}), R(3, {"char", "real"}), R(2, {"gap", "ro"})>>, {})>>),
    F("uniform", DS, 0, <<
        A("uvw", <<R(6, {"gpu"}), R(3, TR), R(2, SH(3) \cup {"gap"})>>, {"ro"}),
        A("freq", <<R(6, {"gpu"}), R(3, TR), R(2, LEN(1) \cup {"dimdown", "gap"})>>, {"ro"}),
        A("grid", <<R(6, {"gpu"}), R(3, TR), R(2, SH(3) \cup {"gap", "ro"})>>, {}),
        A("weights", <<R(6, {"gpu"}), R(3, TR), R(2, LEN(4) \cup {"gap"}), R(1, RANK)>>, {"ro"}),
        A("out", <<R(6, {"gpu"}), R(3, TR), R(2, LEN(4) \cup {"gap", "ro"}), R(1, RANK)>>, {})>>),
    F("w_pattern", DS, 0, <<
        A("pattern", <<R(6, {"gpu"}), R(3, TC), R(2, RANK \cup {"ro"})>>, {"gap"})>>),
    F("worst_case_image", {"d"}, 0, <<
        A("image", <<R(6, {"gpu"}), R(3, TC), R(2, SH(2) \cup {"ro"})>>, {"gap"})>>),
    F("wstack_degrid", {"d"}, 0, <<
        A("image", <<R(6, {"gpu"}), R(3, {"char", "int"}), R(2, SH(2))>>, {"gap", "kind", "prec", "ro"}),
        A("uvw", <<R(6, {"gpu"}), R(3, TR), R(2, SH(2))>>, {"gap", "ro"}),
        A("vis", <<R(6, {"gpu"}), R(3, {"char", "int", "kind", "real"}), R(2, RANK \cup {"less0", "more0", "ro"})>>, {"gap", "prec"}),
        A("=height", <<R(2, {"0"})>>, {})>>),
    F("wstack_degrid", {"s"}, 0, <<
        A("image", <<R(6, {"gpu"}), R(3, {"char", "int"}), R(2, SH(2))>>, {"gap", "kind", "prec", "ro"}),
        A("uvw", <<R(6, {"gpu"}), R(3, {"char", "int", "kind"}), R(2, SH(2))>>, {"gap", "prec", "ro"}),
        A("vis", <<R(6, {"gpu"}), R(3, TC), R(2, RANK \cup {"less0", "more0", "ro"})>>, {"gap"}),
        A("=height", <<R(2, {"0"})>>, {})>>),
    F("wstack_grid", {"d"}, 0, <<
        A("vis", <<R(6, {"gpu"}), R(3, {"char", "int", "kind", "real"}), R(2, RANK \cup {"less0", "more0"})>>, {"gap", "prec", "ro"}),
        A("uvw", <<R(6, {"gpu"}), R(3, TR), R(2, SH(2))>>, {"gap", "ro"}),
        A("image", <<R(6, {"gpu"}), R(3, {"char", "int"}), R(2, SH(2) \cup {"ro"})>>, {"gap", "kind", "prec"}),
        A("=height", <<R(2, {"0"})>>, {})>>),
    F("wstack_grid", {"s"}, 0, <<
        A("vis", <<R(6, {"gpu"}), R(3, TC), R(2, RANK \cup {"less0", "more0"})>>, {"gap", "ro"}),
        A("uvw", <<R(6, {"gpu"}), R(3, {"char", "int", "kind"}), R(2, SH(2))>>, {"gap", "prec", "ro"}),
        A("image", <<R(6, {"gpu"}), R(3, {"char", "int"}), R(2, SH(2) \cup {"ro"})>>, {"gap", "kind", "prec"}),
        A("=height", <<R(2, {"0"})>>, {})>>),
    F("wtower_create", DS, 0, <<
        A("=subgrid", <<R(2, {"0", "15"})>>, {})>>),
    F("wtower_degrid", {"d"}, 0, <<
        A("subgrid", <<R(6, {"gpu"}), R(3, {"char", "int", "prec"}), R(2, RANK)>>, {"gap", "kind", "real", "ro"}),
        A("uvw", <<R(6, {"gpu"}), R(3, TR), R(2, RANK)>>, {"gap", "ro"}),
        A("start", <<R(6, {"gpu"}), R(3, {"char", "real"}), R(2, {"dimup"})>>, {"gap", "ro"}),
        A("end", <<R(6, {"gpu"}), R(3, {"char", "real"}), R(2, {"dimup"})>>, {"gap", "ro"}),
        A("vis", <<R(6, {"gpu"}), R(3, TC), R(2, RANK \cup {"ro"})>>, {"gap"})>>),
    F("wtower_degrid", {"s"}, 0, <<
        A("subgrid", <<R(6, {"gpu"}), R(3, {"char", "int", "prec", "real"}), R(2, RANK)>>, {"gap", "kind", "ro"}),
        A("uvw", <<R(6, {"gpu"}), R(3, {"char", "int", "kind"}), R(2, RANK)>>, {"gap", "prec", "ro"}),
        A("start", <<R(6, {"gpu"}), R(3, {"char", "real"}), R(2, {"dimup"})>>, {"gap", "ro"}),
        A("end", <<R(6, {"gpu"}), R(3, {"char", "real"}), R(2, {"dimup"})>>, {"gap", "ro"}),
        A("vis", <<R(6, {"gpu"}), R(3, TC), R(2, RANK \cup {"ro"})>>, {"gap"})>>),
    F("wtower_degrid_correct", DS, 0, <<
        A("facet", <<R(6, {"gpu"}), R(3, {"char", "int"}), R(2, RANK \cup {"ro"})>>, LEN(2) \cup {"gap", "kind", "prec", "real"})>>),
    F("wtower_grid", {"d"}, 0, <<
        A("vis", <<R(6, {"gpu"}), R(3, {"char", "int", "kind", "real"}), R(2, RANK)>>, {"gap", "prec", "ro"}),
        A("uvw", <<R(6, {"gpu"}), R(3, TR), R(2, RANK)>>, {"gap", "ro"}),
        A("start", <<R(6, {"gpu"}), R(3, {"char", "real"}), R(2, {"dimup"})>>, {"gap", "ro"}),
        A("end", <<R(6, {"gpu"}), R(3, {"char", "real"}), R(2, {"dimup"})>>, {"gap", "ro"}),
        A("subgrid", <<R(6, {"gpu"}), R(3, {"char", "int"}), R(2, RANK \cup {"ro"})>>, {"gap", "kind", "prec", "real"})>>),
    F("wtower_grid", {"s"}, 0, <<
        A("vis", <<R(6, {"gpu"}), R(3, TC), R(2, RANK)>>, {"gap", "ro"}),
        A("uvw", <<R(6, {"gpu"}), R(3, {"char", "int", "kind"}), R(2, RANK)>>, {"gap", "prec", "ro"}),
        A("start", <<R(6, {"gpu"}), R(3, {"char", "real"}), R(2, {"dimup"})>>, {"gap", "ro"}),
        A("end", <<R(6, {"gpu"}), R(3, {"char", "real"}), R(2, {"dimup"})>>, {"gap", "ro"}),
        A("subgrid", <<R(6, {"gpu"}), R(3, {"char", "int"}), R(2, RANK \cup {"ro"})>>, {"gap", "kind", "prec", "real"})>>),
    F("wtower_grid_correct", DS, 0, <<
        A("facet", <<R(6, {"gpu"}), R(3, {"char", "int"}), R(2, RANK \cup {"ro"})>>, LEN(2) \cup {"gap", "kind", "prec", "real"})>>),
    F("vector_add", DS, 0, <<
        A("a", <<R(6, {"gpu"}), R(3, TR), R(2, {"gap"}), R(1, LEN(1))>>, {"ro", "dimup"}),
        A("b", <<R(6, {"gpu"}), R(3, TR), R(2, {"gap"}), R(1, LEN(1))>>, {"ro", "dimup"}),
        A("out", <<R(6, {"gpu"}), R(3, TR), R(2, {"gap"}), R(1, {"ro"} \cup LEN(1))>>, {"dimup"})>>),
    F("example_a_create", DS, 0, <<
        A("=a", <<R(2, {"10"})>>, {"9", "11"})>>),
    F("example_a", DS, 0, <<
        A("out", <<R(6, {"gpu"}), R(3, TR \cup {"real"}), R(1, {"less0", "ro"})>>, {"more0", "dimup"})>>)
>>
=============================================================================
