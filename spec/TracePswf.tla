----------------------------- MODULE TracePswf ------------------------------
EXTENDS TraceBase, Pswf
I0 == << 0, <<>> >>                \* size and contents of the kept table
Pts == {0, 1, 7, 16, 25, 40, 52, 63, 64}
Why(st, e) ==
    CASE e.e = "Create" ->
        IF e.par_c # e.s \/ e.par_m # e.m THEN "plan parameter"
        ELSE IF e.end # <<0, 0, 0, 0>> THEN "not zero outside (-1, 1)"
        ELSE IF ~Shape(e.ev) THEN "not a positive decreasing function of |x| with the right peak"
        ELSE IF ~Eigen(e.ev, e.m, e.s, Pts) THEN "not an eigenfunction of the band-limiting integral"
        ELSE "ok"
      [] e.e = "Gen" ->
        IF e.gaps # 1 THEN "wrote outside the elements"
        ELSE IF e.mode = 0 THEN
            IF e.err # 2 THEN "expected INVALID_ARGUMENT"
            ELSE IF <<e.nc, e.cache>> # st THEN "kept table changed" ELSE "ok"
        ELSE IF e.mode = 1 THEN
            IF e.err # 0 THEN "failed"
            ELSE IF e.nc # e.size THEN "size of the kept table"
            ELSE IF ~TableOk(e.cache, e.ref, e.size, e.endc, 1) THEN "kept table value"
            ELSE "ok"
        ELSE IF <<e.nc, e.cache>> # st THEN "kept table changed"
        ELSE IF e.int = 1 THEN (IF e.err = 3 THEN "ok" ELSE "expected DATA_TYPE")
        ELSE IF e.err # 0 THEN "failed"
        ELSE IF e.imag # 0 THEN "imaginary part"
        ELSE IF ~TableOk(e.vals, e.ref, e.size, e.endc, IF e.dbl = 1 THEN 1 ELSE 3) THEN "table value"
        ELSE "ok"
Apply(st, e) == IF e.e = "Gen" THEN << e.nc, e.cache >> ELSE st
Init == TInit(I0)
Next == TNext(I0, Why, Apply)
Spec == Init /\ [][Next]_tvars
=============================================================================
