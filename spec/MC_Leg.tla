------------------------------- MODULE MC_Leg -------------------------------
(* The legacy histograms, templates and stacks. *)
EXTENDS Calls
LNew(id, kind, dim, bk, nb, rng, edges) ==
    [op |-> "lh_new", id |-> id, kind |-> kind, dim |-> dim, bk |-> bk, nb |-> nb, rng |-> rng, edges |-> edges, hasdata |-> FALSE,
     cols |-> IF dim = 1 THEN << <<>> >> ELSE << <<>>, <<>> >>, hasw |-> FALSE, w |-> <<>>, junk |-> FALSE, nonfin |-> FALSE]
LFillC(id, cols, hasw, w) == [op |-> "lh_fill", id |-> id, hasdata |-> TRUE, cols |-> cols, hasw |-> hasw, w |-> w, junk |-> FALSE, nonfin |-> FALSE]
Scale(id, c) == [op |-> "lh_scale", id |-> id, c |-> c]
LObs(id) == [op |-> "lh_obs", id |-> id]
R03 == << <<"0.0", "3.0">> >>
E3 == <<"0.0", "0.5", "2.0", "4.0">>
Setup1 == << LNew("a", "hist", 1, "int", <<3>>, R03, << <<>> >>) >>
Menu1 == << LFillC("a", << <<"0.0", "1.0", "2.0", "3.0">> >>, FALSE, <<>>), LFillC("a", << <<"0.5", "0.5", "2.5", "-0.5", "3.5">> >>, TRUE, <<"2.0", "-1.0", "0.5", "4.0", "4.0">>),
            LFillC("a", << <<"1.0", "2.0">> >>, TRUE, <<"3.0">>), Scale("a", "2.0"), Scale("a", "0.0"),
            LNew("b", "1d", 1, "edges", <<3>>, << <<"0.0", "4.0">> >>, <<E3>>), LFillC("b", << <<"0.5", "1.9", "2.0", "4.0">> >>, TRUE, <<"0.25", "1.0", "2.0", "8.0">>),
            [op |-> "lh_binned", id |-> "d", edges |-> <<E3>>, counts |-> <<"3.0", "0.0", "7.0">>, haserr |-> TRUE, errs |-> <<"1.5", "0.0", "2.0">>],
            LFillC("d", << <<"0.5", "3.0">> >>, TRUE, <<"0.5", "7.0">>),
            [LNew("e", "hist", 1, "int", <<2>>, R03, << <<>> >>) EXCEPT !.hasdata = TRUE, !.cols = << <<"0.0", "1.5", "3.0", "4.0">> >>, !.hasw = TRUE, !.w = <<"1.0", "2.0", "4.0", "8.0">>],
            Scale("e", "0.5"), LFillC("e", << <<"1.4">> >>, TRUE, <<"3.0">>) >>
Tail1 == << LObs("a"), LObs("b"), LObs("d"), LObs("e") >>

R2 == << <<"0.0", "2.0">>, <<"-1.0", "1.0">> >>
Setup2 == << LNew("a", "2d", 2, "int", <<2, 3>>, R2, << <<>>, <<>> >>) >>
Menu2 == << LFillC("a", << <<"0.0", "1.0", "2.0", "0.5", "2.0">>, <<"-1.0", "0.0", "1.0", "0.5", "2.0">> >>, FALSE, <<>>),
            LFillC("a", << <<"0.5", "1.5", "1.5", "-0.5">>, <<"0.9", "0.9", "-0.4", "0.0">> >>, TRUE, <<"1.0", "2.0", "0.5", "16.0">>),
            LFillC("a", << <<"0.5", "1.5">>, <<"0.9", "0.9">> >>, TRUE, <<"1.0">>),
            LNew("b", "2d", 2, "edges", <<3, 1>>, << <<"0.0", "4.0">>, <<"0.0", "1.0">> >>, <<E3, <<"0.0", "1.0">> >>),
            LFillC("b", << <<"0.5", "4.0", "1.9">>, <<"0.0", "1.0", "0.5">> >>, TRUE, <<"2.0", "3.0", "0.25">>) >>
Tail2 == << LObs("a"), LObs("b") >>

\* ---- templates and stacks ----
X1 == <<"0.25", "0.5", "1.5", "1.75", "0.75">>
X2 == <<"0.5", "1.25", "1.5", "0.125">>
LTC(op, id, var, nb, hi, x, w) ==
    [op |-> op, id |-> id, name |-> "n" \o id, var |-> var, dim |-> 1, bk |-> "int", nb |-> <<nb>>, rng |-> << <<"0.0", hi>> >>, edges |-> << <<>> >>,
     cols |-> <<x>>, w |-> w]
T1 == LTC("lt_new", "a", "vx", 2, "2.0", X1, <<"1.0", "2.0", "1.0", "3.0", "0.5">>)
T2 == LTC("lt_new", "b", "vx", 2, "2.0", X2, <<"4.0", "2.0", "1.0", "0.25">>)
Bad(id, var, nb, hi) == LTC("lt_new", id, var, nb, hi, X2, <<"4.0", "2.0", "1.0", "0.25">>)
LAdd(tid, t) == [op |-> "ls_add", id |-> "s", tid |-> tid, t |-> t]
LSet(id, v) == [op |-> "lt_set", id |-> id, v |-> v]
LCov(id, m) == [op |-> "lt_addcov", id |-> id, m |-> m]
LUpd(x, dx) == [op |-> "ls_update", id |-> "s", x |-> x, dx |-> dx]
\* the likelihood is made once
LCall(x) == [op |-> "ln_call", id |-> "s", data |-> <<"7.0", "3.0">>, x |-> x, kept |-> "k"]
XA == <<"9.0", "0.5", "-0.25">>
XB == <<"9.0", "4.0", "0.5", "-0.25", "1.0", "0.0">>
Setup3 == << T1, T2, Bad("v", "vy", 2, "2.0"), Bad("w", "vx", 3, "2.0"), Bad("u", "vx", 2, "3.0"),
             [op |-> "ls_new", id |-> "s", var |-> "vx", dim |-> 1, bk |-> "int", nb |-> <<2>>, rng |-> << <<"0.0", "2.0">> >>, edges |-> << <<>> >>],
             LAdd("k", "a") >>
Menu3 == << LAdd("l", "b"), LAdd("k", "b"), LAdd("z", "v"), LAdd("z", "w"), LAdd("z", "u"),
            [LTC("ls_create", "s", "vx", 2, "2.0", X2, <<"1.0", "1.0", "1.0", "1.0">>) EXCEPT !.name = "l"] @@ [tid |-> "l", t |-> "c"],
            LSet("a", <<"5.0", "0.5", "1.0">>), LSet("b", <<"6.0", "-0.5", "0.0">>), [op |-> "lt_reset", id |-> "a"], LCov("a", << <<"2.0", "1.0">>, <<"1.0", "2.0">> >>),
            LUpd(XA, <<"3.0", "0.5", "0.25">>), LUpd(XB, <<"3.0", "2.0", "0.5", "0.25", "0.75", "1.0">>), LUpd(<<"8.0", "1.0">>, <<"3.0", "0.5">>), [op |-> "ls_reset", id |-> "s"],
            LCall(XA), LCall(XB), [op |-> "pl_ls", id |-> "s"], [op |-> "pl_lt", t |-> "a"],
            [op |-> "ln_toystat", id |-> "s", what |-> "s", n |-> 40, seed |-> 5] >>
Tail3 == << [op |-> "ls_obs", id |-> "s"], [op |-> "lt_obs", id |-> "a"], [op |-> "lt_obs", id |-> "b"], [op |-> "lt_obs", id |-> "c"], LCall(XA), LCall(XB) >>
=============================================================================
