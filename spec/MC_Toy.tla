------------------------------- MODULE MC_Toy -------------------------------
(* Toy studies and linearity tests between changes of the model. *)
EXTENDS Calls

YNewC(y, m, min) == [op |-> "y_new", id |-> y, m |-> m, min |-> min]
\* kinds: the course of the attempts ("ok", "gen", "fit")
YRunC(y, n, max, kinds, pre, seed) ==
    [op |-> "y_run", id |-> y, n |-> n, max |-> max, kinds |-> kinds,
     plan |-> [a \in 1 .. Len(kinds) |-> kinds[a] # "ok"], pre |-> pre, seed |-> seed, hesse |-> TRUE]
YLinC(y, proc, lo, hi, npts, nexp, pre, seed) ==
    [op |-> "y_lin", id |-> y, proc |-> proc, lim |-> <<lo, hi>>, npts |-> npts, nexp |-> nexp, pre |-> pre, seed |-> seed]
YResC(y, proc) == [op |-> "y_results", id |-> y, proc |-> proc]
YPullC(y, proc) == [op |-> "y_pulls", id |-> y, proc |-> proc]

\* two channels, the processes in different orders and with efficiencies that
\* do not add up to one
ToySetup ==
    << HOf("hs", <<"0.0", "1.0", "2.0", "3.0">>, <<"20.0", "400.0", "30.0">>), HOf("hb", <<"0.0", "1.0", "2.0", "3.0">>, <<"300.0", "90.0", "310.0">>),
       HOf("hc", <<"0.0", "0.5", "2.0">>, <<"40.0", "300.0">>), HOf("hd", <<"0.0", "0.5", "2.0">>, <<"500.0", "60.0">>),
       TNewC("ts", "hs", "ns"), TNewC("tb", "hb", "nb"), TNewC("tc", "hc", "nc"), TNewC("td", "hd", "nd"),
       MNewC("m"), ChanC("m", "A", 3, "0.0", "3.0"), ProcC("m", "p"), ProcC("m", "q"),
       TemplC("m", "A", "q", "tb", "0.75"), TemplC("m", "A", "p", "ts", "1.0") >>
Second == << ChanC("m", "B", 2, "0.0", "2.0"), TemplC("m", "B", "p", "tc", "0.5"), TemplC("m", "B", "q", "td", "1.0") >>
T1 == <<"500.0", "700.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0">>
T2 == <<"900.0", "400.0", "0.5", "0.0", "-0.5", "0.0", "0.25", "0.0">>
Start(x) == << UpdC("m", x), YNewC("y", "m", "iminuit") >>
ToyMenu == << YRunC("y", 2, 2, <<>>, "a", 11), YRunC("y", 2, 3, <<"fit", "gen", "ok", "fit", "ok">>, "b", 12),
              YRunC("y", 2, 2, <<"ok", "gen", "fit">>, "c", 13), YRunC("y", 1, 1, <<>>, "a", 11),
              YLinC("y", "p", "500.0", "900.0", 2, 2, "d", 14), YLinC("y", "q", "800.0", "400.0", 3, 2, "e", 15),
              YResC("y", "p"), YPullC("y", "q"), SetYC("m", "p", "650.0"), ResetC("m") >>
Setup1 == ToySetup \o Start(T1)
Menu1 == ToyMenu \o << UpdC("m", T2) >>
Tail1 == << YResC("y", "p"), YResC("y", "q"), YPullC("y", "p"), YPullC("y", "q"), YPullC("y", "z"), MObs("m") >>
Setup2 == ToySetup \o Second \o Start(<<"500.0", "700.0">> \o [i \in 1 .. 10 |-> "0.0"])
Menu2 == ToyMenu
Tail2 == Tail1

\* results exist exactly if the last study came to its end
LastStudy == SelectSeq(Made, LAMBDA e : e.op \in {"y_run", "y_lin"})
AvailableOk == k = Len(Setup) => Y["y"].fitted = (LastStudy # <<>> /\ LET e == LastStudy[Len(LastStudy)] IN
                                    e.op = "y_lin" \/ ToyCourse(e.n, e.max, e.plan, 0, <<>>).ok)
\* a linearity test leaves the model at its last point
LinState == [][CallOf.op = "y_lin" =>
    LET m == M["m"] IN
    /\ DClose(ProcYield(m, T', CallOf.proc), DMul(CallOf.lim[2], EffSum(m, CallOf.proc)), "1e-28", "1e-28")
    /\ \A t \in DOMAIN T : T'[t].th = VZero(TSize(T[t]))]_mvars
=============================================================================
