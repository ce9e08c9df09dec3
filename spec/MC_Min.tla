------------------------------- MODULE MC_Min -------------------------------
(* Minimisers and parameter containers alone. *)
EXTENDS Calls
Par(i) == [n |-> "", i |-> i]
ParN(n) == [n |-> n, i |-> 0]
Q3 == [A |-> << <<"4.0", "1.0", "-0.5">>, <<"1.0", "1.0", "0.25">>, <<"-0.5", "0.25", "2.0">> >>, c |-> <<"1.0", "-2.0", "0.5">>, k |-> "3.25"]
X0 == <<"0.5", "-0.5", "1.0">>
ZFixC(par) == [op |-> "z_fix", id |-> "z", par |-> par]
ZBndC(par, b) == [op |-> "z_bounds", id |-> "z", par |-> par, b |-> b]
ZMinC(x0, hesse) == [op |-> "z_min", id |-> "z", x0 |-> x0, hesse |-> hesse, alts |-> << <<"0.0", "0.0", "0.0">>, Q3.c >>]
ZNewC(min) == << [op |-> "z_new", id |-> "z", names |-> <<"a", "x1", "x10">>, min |-> min, q |-> Q3] >>
Items == << ZFixC(ParN("a")), ZFixC(Par(1)), ZFixC(ParN("x10")), ZFixC(ParN("x")), ZFixC(Par(3)),
            ZBndC(ParN("x1"), <<"-1.0", "none">>), ZBndC(Par(1), <<"-3.0", "0.0">>), ZBndC(ParN("a"), <<"0.0", "2.0">>), ZBndC(ParN("a"), <<"none", "0.75">>),
            ZBndC(Par(5), <<"0.0", "1.0">>), [op |-> "z_release", id |-> "z"], ZMinC(X0, TRUE), ZMinC(X0, FALSE) >>
Setup1 == ZNewC("iminuit")
Menu1 == Items
Tail1 == << ZMinC(X0, TRUE) >>
Setup2 == ZNewC("scipy")
Menu2 == Items
Tail2 == << ZMinC(X0, TRUE) >>

Get(par) == [op |-> "p_get", id |-> "p", par |-> par]
SetV(v) == [op |-> "p_setvals", id |-> "p", v |-> v]
SetE(v) == [op |-> "p_seterrs", id |-> "p", v |-> v]
Setup3 == << [op |-> "p_new", id |-> "p", names |-> <<"b", "a", "1", "b2">>] >>
Menu3 == << SetV(<<"1.0", "2.0", "3.0", "4.0">>), SetV(<<"-1.0", "0.0", "0.5", "1e3">>), SetV(<<"1.0", "2.0", "3.0">>), SetV(<<"1.0", "2.0", "3.0", "4.0", "5.0">>),
            SetE(<<"0.5", "0.25", "0.0", "7.0">>), SetE(<<"0.5">>), Get(Par(-1)), Get(Par(4)), Get(ParN("c")), Get(ParN("b")), Get(Par(3)),
            [op |-> "p_new", id |-> "r", names |-> <<"a", "b">>], [op |-> "p_setvals", id |-> "r", v |-> <<"9.0", "8.0">>] >>
Tail3 == << Get(Par(0)), Get(ParN("a")), Get(ParN("1")), Get(Par(2)), Get(ParN("b2")), [op |-> "p_obs", id |-> "p"], [op |-> "p_obs", id |-> "r"] >>
=============================================================================
