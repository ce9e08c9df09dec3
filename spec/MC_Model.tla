------------------------------ MODULE MC_Model ------------------------------
EXTENDS Calls

\* ---- 1: registration, in any order, with everything that has to be rejected ----
EA == <<"0.0", "1.0", "2.0", "3.0">>
EB == <<"0.0", "0.5", "2.0">>
EW == <<"0.0", "1.0", "2.0", "4.0">>      \* bins like A, other range
HistA == HOf("ha", EA, <<"4.0", "5.0", "1.0">>)
HistB == HOf("hb", EB, <<"2.0", "6.0">>)
HistW == HOf("hw", EW, <<"2.0", "6.0", "1.0">>)
Ch(name, nb, lo, hi) == ChanC("m", name, nb, lo, hi)
Setup1 == << HistA, HistB, HistW, TNewC("a", "ha", "ta"), TNewC("a2", "ha", "ta2"), TNewC("b", "hb", "tb"), TNewC("w", "hw", "tw"),
             MNewC("m"), Ch("A", 3, "0.0", "3.0"), ProcC("m", "p") >>
Menu1 == << Ch("B", 2, "0.0", "2.0"), ProcC("m", "q"), ProcC("m", "p"),
            TemplC("m", "A", "p", "a", "1.0"), TemplC("m", "A", "q", "a2", "0.5"), TemplC("m", "B", "q", "b", "0.25"),
            [TemplC("m", "B", "p", "b", "1.0") EXCEPT !.eff = "2.0"],
            TemplC("m", "A", "p", "w", "1.0"), TemplC("m", "Z", "p", "a", "1.0"), TemplC("m", "A", "z", "a", "1.0"),
            TemplC("m", "B", "p", "a", "1.0"), TemplC("m", "A", "p", "b", "1.0"),
            Ch("A", 3, "0.0", "3.0"),
            DataC("m", << <<"A", "ha">> >>), DataC("m", << <<"A", "hw">> >>), DataC("m", << <<"B", "hb">>, <<"Z", "hb">> >>),
            DataC("m", << <<"A", "ha">>, <<"B", "hw">> >>), DataC("m", << <<"B", "hb">>, <<"A", "ha">> >>),
            ConstrC("m", "p", "10.0", "2.0"), ConstrC("m", "p", "12.0", "1.0"), ConstrC("m", "z", "1.0", "1.0"),
            SetYC("m", "z", "1.0"), GetYC("m", "z"), IndexC("m", "z"), ChObs("m", "Z") >>
Tail1 == << MObs("m"), ChObs("m", "A"), ChObs("m", "B"), IndexC("m", "q"), IndexC("m", "p") >>

\* ---- 2: yields, parameters, routing, plots of a model in which every channel
\* has its own order of processes and each lacks one of them ----
X1 == <<"30.0", "12.0", "5.0", "0.5", "-0.25", "1.0", "0.0", "0.125", "-1.0", "0.75", "0.0", "0.25", "-0.5">>
X2 == <<"8.0", "0.0", "21.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "1.0", "1.0", "1.0">>
Names2 == <<"p_yield", "q_yield", "r_yield", "A_q_bin_0", "A_q_bin_1", "A_p_bin_0", "A_p_bin_1",
            "B_p_bin_0", "B_p_bin_1", "B_p_bin_2", "B_r_bin_0", "B_r_bin_1", "B_r_bin_2">>
Cov2 == [i \in 1 .. 13 |-> [j \in 1 .. 13 |-> IF i = j THEN IF i <= 3 THEN "4.0" ELSE "1.0" ELSE IF i + j = 9 THEN "-0.25" ELSE "0.125"]]
Err2 == [i \in 1 .. 13 |-> IF i <= 3 THEN "2.0" ELSE IF i % 2 = 0 THEN "1.0" ELSE "0.5"]
Built(e1, e2, e3, e4) ==
    << HOf("hq", <<"0.0", "1.0", "2.0">>, <<"4.0", "5.0">>), HOf("hp", <<"0.0", "1.0", "2.0">>, <<"1.0", "8.0">>),
       HOf("hb", EA, <<"4.0", "0.5", "2.0">>), HOf("hr", EA, <<"1.0", "3.0", "9.0">>),
       TNewC("tq", "hq", "nq"), TNewC("tp", "hp", "np"), TNewC("tb", "hb", "nb"), TNewC("tr", "hr", "nr"),
       MNewC("m"), ProcC("m", "p"), Ch("A", 2, "0.0", "2.0"), ProcC("m", "q"), Ch("B", 3, "0.0", "3.0"), ProcC("m", "r"),
       TemplC("m", "A", "q", "tq", e1), TemplC("m", "B", "p", "tb", e2), TemplC("m", "B", "r", "tr", e3), TemplC("m", "A", "p", "tp", e4),
       HOf("da", <<"0.0", "1.0", "2.0">>, <<"14.0", "9.0">>), HOf("db", EA, <<"11.0", "5.0", "7.0">>) >>
Setup2 == Built("0.5", "0.25", "1.0", "1.0") \o << NNewC("n", "m") >>
Menu2 == << SetYC("m", "p", "20.0"), SetYC("m", "r", "0.0"), SetYC("m", "q", "7.5"), UpdC("m", X1), UpdC("m", X2), UpdC("m", <<"3.0", "4.0">>), ResetC("m"),
            TSetP("tb", <<"3.0", "0.5", "0.0", "-0.5">>), TResetC("tp"), TCov("tr", << <<"2.0", "1.0", "0.0">>, <<"1.0", "2.0", "0.5">>, <<"0.0", "0.5", "1.0">> >>),
            DataC("m", << <<"B", "db">> >>), HFillC("db", << <<"0.5", "2.5">> >>, <<"2.0", "3.0">>), SetYC("m", "z", "3.0"),
            ChUpd("m", "A", <<"3.0", "5.0">>, <<"0.25", "0.5", "-0.5", "1.0">>), ChRst("m", "A"), ChRst("m", "B"),
            ChUpd("m", "B", <<"0.0", "9.0">>, <<"0.0", "0.5", "-0.5", "1.0", "0.0", "-0.125">>) >>
Tail2 == << MObs("m"), ChObs("m", "A"), ChObs("m", "B"), GetYC("m", "p"), GetYC("m", "q"), GetYC("m", "r"), RouteC("m", X1), CountsC("m", "A", X1), CountsC("m", "B", X2), NObs("n"),
            PropC("m", "B", Names2, X1, Cov2), PropC("m", "A", Names2, X2, Cov2) >>

\* ---- 3: the likelihood after every change that may or may not affect it ----
Y1 == <<"30.0", "12.0", "0.5", "-0.25", "1.0", "0.0", "0.125", "-1.0">>
Y2 == <<"8.0", "21.0", "0.0", "0.0", "0.0", "0.5", "0.0", "0.0">>
Y3 == Y1 \o <<"0.5", "-0.5">>
SetupC0 == << HOf("hq", <<"0.0", "1.0", "2.0">>, <<"4.0", "5.0">>), HOf("hp", <<"0.0", "1.0", "2.0">>, <<"1.0", "8.0">>),
             HOf("hb", EB, <<"4.0", "0.5">>),
             TNewC("tq", "hq", "nq"), TNewC("tp", "hp", "np"), TNewC("tb", "hb", "nb"), TNewC("tc", "hb", "nc"),
             MNewC("m"), Ch("A", 2, "0.0", "2.0"), ProcC("m", "p"), ProcC("m", "q"), Ch("B", 2, "0.0", "2.0"),
             TemplC("m", "A", "q", "tq", "0.5"), TemplC("m", "A", "p", "tp", "1.0"), TemplC("m", "B", "p", "tb", "0.25"),
             HOf("da", <<"0.0", "1.0", "2.0">>, <<"14.0", "9.0">>), HOf("db", EB, <<"11.0", "5.0">>), HOf("de", EB, <<"0.0", "3.0">>),
             DataC("m", << <<"A", "da">>, <<"B", "db">> >>), NNewC("n", "m") >>
Menu3 == << CallC("n", Y1, <<"M04", "M05">>), CallC("n", Y2, <<"M04", "M05">>), CallC("n", Y3, <<"M04", "M05">>),
            TCov("tq", << <<"2.0", "1.0">>, <<"1.0", "2.0">> >>), TVar("tb", <<"0.25", "1.0">>, <<"5.0", "0.5">>, <<"3.0", "1.0">>),
            HFillC("da", << <<"0.5">> >>, <<"3.0">>), HFillC("hq", << <<"1.5">> >>, <<"3.0">>), DataC("m", << <<"B", "de">> >>),
            ConstrC("m", "p", "25.0", "4.0"), ConstrC("m", "p", "20.0", "2.0"), ConstrC("m", "q", "10.0", "1.0"),
            TemplC("m", "B", "q", "tc", "2.0"), SetYC("m", "p", "33.0"), UpdC("m", Y2), ResetC("m"), TSetN("tq", <<"1.0", "1.0">>),
            ConstrC("m", "z", "1.0", "1.0"), DataC("m", << <<"B", "hz">> >>),
            ChNllC("m", "A", <<"30.0", "12.0">>, <<"0.5", "-0.25", "1.0", "0.0">>), ChUpd("m", "A", <<"11.0", "3.0">>, <<"0.0", "0.5", "0.0", "-0.5">>) >>
Setup3 == SetupC0 \o << HOf("hz", EA, <<"1.0", "1.0", "1.0">>) >>
Tail3 == << CallC("n", Y1, <<"M04", "M05">>), CallC("n", Y3, <<"M04", "M05">>), MObs("m"),
            ChNllC("m", "A", <<"20.0", "2.0">>, <<"0.5", "-0.25", "1.0", "0.0">>), ChNllC("m", "B", <<"5.0">>, <<"0.0", "-0.5">>),
            ChNllC("m", "B", <<"5.0", "3.0">>, <<"0.0", "-0.5", "0.25", "0.0">>) >>

\* ---- 4: Asimov and toy data ----
Setup4 == Built("0.5", "0.25", "1.0", "1.0") \o << NNewC("n", "m") >>
Menu4 == << SetYC("m", "p", "20.0"), UpdC("m", X1), UpdC("m", X2), ResetC("m"), TSetP("tb", <<"3.5", "0.5", "0.0", "-0.5">>),
            AsimovC("m", FALSE, "f"), AsimovC("m", TRUE, "i"), AsimovC("m", FALSE, "g"), ToyC("m", "s", 7), ToyC("m", "u", 7), ToyC("m", "v", 8),
            DataC("m", << <<"A", "fA">>, <<"B", "fB">> >>), DataC("m", << <<"A", "sA">>, <<"B", "iB">> >>),
            HFillC("fA", << <<"0.5">> >>, <<"2.0">>), HFillC("hp", << <<"0.5">> >>, <<"2.0">>) >>
Tail4 == << MObs("m"), HObs("fA"), HObs("iB"), HObs("sA"), HObs("gB"), CallC("n", X1, <<"M04", "M06">>) >>

\* ---- 5: plots of the model of part 2 ----
Setup5 == Setup2
Menu5 == Menu2
Tail5 == << PlStack("m", "A", "now", <<>>, <<>>, <<>>, <<>>), PlStack("m", "B", "now", <<>>, <<>>, <<>>, <<>>),
            PlStack("m", "B", "propagate", Names2, X1, Cov2, Err2), PlStack("m", "A", "scale", Names2, X1, Cov2, Err2) >>
=============================================================================
