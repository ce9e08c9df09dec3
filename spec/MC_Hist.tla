------------------------------ MODULE MC_Hist ------------------------------
EXTENDS MC
\* one histogram with equal bins on [0, 3], one with edges 0, 0.5, 2, 4, a two-dimensional one
New(id, dim, bk, nb, rng, edges) ==
    [op |-> "h_new", id |-> id, dim |-> dim, bk |-> bk, nb |-> nb, rng |-> rng, edges |-> edges,
     hasdata |-> FALSE, cols |-> IF dim = 1 THEN << <<>> >> ELSE << <<>>, <<>> >>, hasw |-> FALSE, w |-> <<>>, junk |-> FALSE, nonfin |-> FALSE]
Fill(id, cols, hasw, w, cd, cw) ==
    [op |-> "h_fill", id |-> id, hasdata |-> TRUE, cols |-> cols, hasw |-> hasw, w |-> w, junk |-> FALSE, nonfin |-> FALSE,
     cd |-> cd, cw |-> cw]
NewFilled(id, dim, bk, nb, rng, edges, cols, hasw, w) ==
    [New(id, dim, bk, nb, rng, edges) EXCEPT !.hasdata = TRUE, !.cols = cols, !.hasw = hasw, !.w = w]
Obs(id) == [op |-> "h_obs", id |-> id]

R03 == << <<"0.0", "3.0">> >>
E1 == <<"0.0", "0.5", "2.0", "4.0">>
Setup1 == << New("a", 1, "int", <<3>>, R03, << <<>> >>) >>
Menu1 == <<
    Fill("a", << <<"0.0", "1.0", "2.0", "3.0">> >>, FALSE, <<>>, "nd", "nd"),                  \* edges
    Fill("a", << <<"0.5", "0.5", "2.5", "-0.5", "3.5">> >>, TRUE, <<"2.0", "-1.0", "0.5", "4.0", "4.0">>, "list", "nd"),
    Fill("a", << <<>> >>, FALSE, <<>>, "nd", "nd"),
    Fill("a", << <<"1.0", "2.0">> >>, TRUE, <<"3.0">>, "nd", "nd"),                            \* rejected
    Fill("a", << <<"1.0", "3.0">> >>, TRUE, <<"3.0", "50000.0">>, "ilist", "int"),
    [Fill("a", << <<"1.0">> >>, TRUE, <<"1.0">>, "nd", "nd") EXCEPT !.junk = TRUE],            \* rejected
    New("b", 1, "edges", <<3>>, << <<"0.0", "4.0">> >>, <<E1>>),
    NewFilled("c", 1, "tuple", <<2>>, R03, << <<>> >>, << <<"0.25", "1.5", "3.0">> >>, TRUE, <<"1.0", "2.0", "4.0">>),
    NewFilled("d", 1, "int", <<2>>, R03, << <<>> >>, << <<"0.25", "1.5", "3.0">> >>, TRUE, <<"1.0">>),   \* rejected
    Fill("b", << <<"0.5", "1.9999", "2.0", "4.0">> >>, TRUE, <<"0.25", "1.0", "2.0", "8.0">>, "series", "list"),
    [op |-> "h_binned", id |-> "e", edges |-> <<E1>>, counts |-> <<"3.0", "0.0", "7.0">>, haserr |-> TRUE,
     errs |-> <<"1.5", "0.0", "2.0">>, cc |-> "nd", cs |-> "nd", cb |-> "nd"],
    Fill("e", << <<"0.5", "3.0">> >>, TRUE, <<"0.5", "-7.0">>, "nd", "nd"),
    [op |-> "scribble", id |-> "e"], [op |-> "scribble", id |-> "b"] >>
Tail1 == <<Obs("a"), Obs("b"), Obs("c"), Obs("e"), [op |-> "args", id |-> "e"], [op |-> "args", id |-> "a"]>>

\* ---- two dimensions ----
R2 == << <<"0.0", "2.0">>, <<"-1.0", "1.0">> >>
XY(n) == IF n = 1 THEN << <<"0.0", "1.0", "2.0", "0.5", "2.0">>, <<"-1.0", "0.0", "1.0", "0.5", "2.0">> >>
         ELSE << <<"0.5", "1.5", "1.5", "-0.5">>, <<"0.9", "0.9", "-0.4", "0.0">> >>
Setup2 == << New("a", 2, "int", <<2, 3>>, R2, << <<>>, <<>> >>) >>
Menu2 == <<
    Fill("a", XY(1), FALSE, <<>>, "nd", "nd"),
    Fill("a", XY(2), TRUE, <<"1.0", "2.0", "-0.5", "16.0">>, "list", "list"),
    Fill("a", XY(2), TRUE, <<"1.0", "2.0">>, "nd", "nd"),                                      \* rejected
    Fill("a", << <<"0.5">>, <<"0.5", "0.6">> >>, FALSE, <<>>, "list", "list"),                 \* rejected
    Fill("a", << <<>>, <<>> >>, FALSE, <<>>, "nd", "nd"),
    [op |-> "h_proj", id |-> "x", src |-> "a", axis |-> 1],
    [op |-> "h_proj", id |-> "y", src |-> "a", axis |-> 2],
    Fill("x", << <<"0.5", "2.0">> >>, TRUE, <<"3.0", "4.0">>, "nd", "nd"),
    New("b", 2, "edges", <<3, 1>>, << <<"0.0", "4.0">>, <<"0.0", "1.0">> >>, <<E1, <<"0.0", "1.0">> >>),
    Fill("b", << <<"0.5", "4.0", "1.9">>, <<"0.0", "1.0", "0.5">> >>, TRUE, <<"2.0", "3.0", "0.25">>, "series", "series"),
    [op |-> "h_binned", id |-> "e", edges |-> << <<"0.0", "1.0", "3.0">>, <<"0.0", "2.0">> >>, counts |-> <<"3.0", "7.0">>, haserr |-> FALSE,
     errs |-> <<>>, cc |-> "nd", cs |-> "nd", cb |-> "nd"],
    Fill("e", << <<"0.5", "1.0">>, <<"1.0", "1.5">> >>, TRUE, <<"0.5", "-7.0">>, "nd", "nd"),
    [op |-> "scribble", id |-> "e"],
    [op |-> "h_proj", id |-> "p", src |-> "e", axis |-> 1] >>
Tail2 == <<Obs("a"), Obs("x"), Obs("y"), Obs("b"), Obs("e"), Obs("p"), [op |-> "args", id |-> "e"]>>
=============================================================================
