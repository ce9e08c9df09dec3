------------------------------- MODULE MC_Fit -------------------------------
(* Settings of fitters and everything that depends on them, on a quadratic
   cost function of the four parameters of a model.                           *)
EXTENDS Calls
Par(i) == [n |-> "", i |-> i]
ParN(n) == [n |-> n, i |-> 0]
FNewC(id, min, q) == [op |-> "f_new", id |-> id, m |-> "m", min |-> min, hasq |-> TRUE, q |-> q]
FixC(id, par) == [op |-> "f_fix", id |-> id, par |-> par]
BndC(id, par, b) == [op |-> "f_bounds", id |-> id, par |-> par, b |-> b]
FixNuiC(id) == [op |-> "f_fixnui", id |-> id]
FitC(id, update) ==
    [op |-> "f_fit", id |-> id, update |-> update, fixnui |-> FALSE, haslim |-> FALSE, lim |-> <<>>, hesse |-> TRUE, alts |-> <<>>]
FailC(id, update, n) ==
    [op |-> "f_failfit", id |-> id, failat |-> n, update |-> update, fixnui |-> FALSE, haslim |-> FALSE, lim |-> <<>>, hesse |-> TRUE, alts |-> <<>>]
ProfC(id, par, points, fixnui) ==
    [op |-> "f_profile", id |-> id, par |-> par, points |-> points, sigma |-> "1.5", sub |-> fixnui, fixnui |-> fixnui, haslim |-> FALSE, lim |-> <<>>, ncpu |-> 2]
ResC(id) == [op |-> "f_result", id |-> id]
SigC(id, proc, fixnui) == [op |-> "f_signif", id |-> id, proc |-> proc, fixnui |-> fixnui, haslim |-> FALSE, lim |-> <<>>]

E1 == <<"0.0", "1.0">>
Q1 == [A |-> << <<"0.04", "0.01", "0.0625", "0.0">>, <<"0.01", "0.01", "0.0", "-0.0625">>,
                <<"0.0625", "0.0", "2.0", "0.5">>, <<"0.0", "-0.0625", "0.5", "4.0">> >>,
       c |-> <<"60.0", "150.0", "0.5", "-0.25">>, k |-> "12.5"]
X0 == <<"50.0", "140.0", "0.0", "0.25">>
X1 == <<"70.0", "120.0", "0.5", "-0.5">>
Base == << HOf("h", E1, <<"4.0">>), HOf("g", E1, <<"9.0">>), TNewC("s", "h", "ns"), TNewC("b", "g", "nb"), MNewC("m"),
           ChanC("m", "A", 1, "0.0", "1.0"), ProcC("m", "p"), ProcC("m", "q"),
           TemplC("m", "A", "p", "s", "1.0"), TemplC("m", "A", "q", "b", "1.0"), UpdC("m", X0) >>
Items(id) == <<
    FixC(id, ParN("p_yield")), FixC(id, Par(2)), FixC(id, ParN("A_q_bin_0")), FixC(id, Par(4)), FixNuiC(id),
    BndC(id, ParN("q_yield"), <<"100.0", "145.0">>), BndC(id, ParN("q_yield"), <<"none", "170.0">>), BndC(id, Par(3), <<"-1.0", "none">>),
    BndC(id, ParN("nosuch"), <<"0.0", "1.0">>),
    FitC(id, FALSE), FitC(id, TRUE), [FitC(id, TRUE) EXCEPT !.fixnui = TRUE], [FitC(id, FALSE) EXCEPT !.haslim = TRUE, !.lim = <<"-0.75", "0.75">>],
    FailC(id, TRUE, 1), FailC(id, TRUE, 4), SigC(id, "p", FALSE), SigC(id, "q", TRUE), ProfC(id, ParN("p_yield"), 3, FALSE), ProfC(id, Par(0), 4, TRUE) >>
More(other) == << UpdC("m", X1), FNewC("e", other, Q1), FitC("e", TRUE), ResetC("m"), ResC("f") >>
Setup1 == Base \o << FNewC("f", "iminuit", Q1) >>
Menu1 == Items("f") \o More("scipy")
Tail1 == << MObs("m"), ResC("f"), FitC("f", FALSE) >>
Setup2 == Base \o << FNewC("f", "scipy", Q1) >>
Menu2 == Items("f") \o More("iminuit")
Tail2 == Tail1

FitsOk == FittersOk
=============================================================================
