------------------------------ MODULE MC_Tmpl ------------------------------
EXTENDS MC
Obs(id) == [op |-> "t_obs", id |-> id]
New(id, h) == [op |-> "t_new", id |-> id, h |-> h, name |-> "n" \o id]
SetY(id, v) == [op |-> "t_setyield", id |-> id, v |-> v]
SetN(id, v) == [op |-> "t_setnui", id |-> id, v |-> v]
SetP(id, v) == [op |-> "t_setparams", id |-> id, v |-> v]
Reset(id) == [op |-> "t_reset", id |-> id]
Cov(id, m) == [op |-> "t_addcov", id |-> id, m |-> m]
Var(id, cols, up, dn) == [op |-> "t_addvar", id |-> id, cols |-> cols, up |-> up, dn |-> dn]
Frac(id, th) == [op |-> "t_frac", id |-> id, th |-> th]
Hist(id, dim, edges, cols, w) ==
    [op |-> "h_new", id |-> id, dim |-> dim, bk |-> "edges", nb |-> [a \in 1 .. dim |-> Len(edges[a]) - 1],
     rng |-> [a \in 1 .. dim |-> <<edges[a][1], edges[a][Len(edges[a])]>>], edges |-> edges, hasdata |-> TRUE,
     cols |-> cols, hasw |-> TRUE, w |-> w, junk |-> FALSE, nonfin |-> FALSE]
Fill(id, cols, w) ==
    [op |-> "h_fill", id |-> id, hasdata |-> TRUE, cols |-> cols, hasw |-> TRUE, w |-> w, junk |-> FALSE, nonfin |-> FALSE]

\* one dimension, bins of variable width; two templates of one histogram
X1 == <<"0.1", "0.2", "1.0", "1.5", "1.5", "3.0", "3.5", "3.9">>
W1 == <<"1.0", "2.0", "1.0", "0.5", "3.0", "2.0", "2.5", "4.0">>
Up1 == <<"1.5", "2.0", "1.0", "0.5", "3.5", "1.0", "2.0", "4.0">>
Dn1 == <<"0.5", "2.5", "0.5", "0.5", "3.0", "2.5", "2.5", "5.0">>
C1 == << <<"2.0", "1.0", "0.0">>, <<"1.0", "3.0", "-0.5">>, <<"0.0", "-0.5", "1.0">> >>
Setup1 == << Hist("h", 1, << <<"0.0", "0.5", "2.0", "4.0">> >>, <<X1>>, W1), New("t", "h") >>
Menu1 == <<
    SetY("t", <<"25.0">>), SetN("t", <<"0.5", "-1.0", "0.25">>), SetP("t", <<"-4.0", "0.0", "1.0", "0.0">>), Reset("t"),
    SetN("t", <<"1.0", "2.0">>), SetP("t", <<"1.0", "0.0">>), SetY("t", <<"1.0", "2.0">>),       \* rejected
    Cov("t", C1), Var("t", <<X1>>, Up1, Dn1), Cov("t", << <<"1.0">> >>),                          \* the last one rejected
    Fill("h", << <<"1.0", "3.5">> >>, <<"8.0", "16.0">>), New("u", "h"), SetP("u", <<"7.0", "1.0", "1.0", "1.0">>),
    Var("u", <<X1>>, Dn1, Up1), Frac("t", <<"1.0", "0.0", "-0.5">>), [op |-> "scribble", id |-> "t"] >>
Tail1 == <<Obs("t"), Obs("u"), [op |-> "args", id |-> "t"]>>

\* two dimensions, 2 x 2 cells, one of them empty
X2 == << <<"0.5", "0.5", "1.5", "1.5", "1.7">>, <<"0.5", "0.6", "0.5", "1.5", "1.0">> >>
W2 == <<"2.0", "1.0", "3.0", "4.0", "1.0">>
Up2 == <<"2.5", "1.0", "2.0", "4.5", "1.0">>
Dn2 == <<"1.0", "1.0", "3.5", "3.0", "2.0">>
Setup2 == << Hist("h", 2, << <<"0.0", "1.0", "2.0">>, <<"0.0", "1.0", "3.0">> >>, X2, W2), New("t", "h") >>
Menu2 == <<
    SetY("t", <<"25.0">>), SetN("t", <<"0.5", "-1.0", "0.25", "0.75">>), SetP("t", <<"8.0", "0.0", "1.0", "0.0", "0.0">>), Reset("t"),
    SetN("t", <<"1.0", "2.0">>), SetP("t", <<"1.0", "0.0">>),                                     \* rejected
    Var("t", X2, Up2, Dn2), Var("t", X2, Dn2, W2), Fill("h", << <<"0.5">>, <<"2.0">> >>, <<"8.0">>), New("u", "h"),
    Var("u", X2, Up2, Up2), SetY("u", <<"0.0">>), Frac("t", <<"1.0", "0.0", "-0.5", "0.0">>), [op |-> "scribble", id |-> "t"] >>
Tail2 == <<Obs("t"), Obs("u"), [op |-> "args", id |-> "t"]>>

\* histograms without entries, with an empty bin, with negative content
Setup3 == << Hist("h", 1, << <<"0.0", "1.0", "2.0">> >>, << <<>> >>, <<>>), New("t", "h"),
             Hist("g", 1, << <<"0.0", "1.0", "2.0", "3.0">> >>, << <<"0.5", "0.5", "2.5", "2.5">> >>, <<"2.0", "1.0", "-1.0", "-0.5">>), New("u", "g") >>
Menu3 == <<
    SetY("t", <<"5.0">>), SetN("t", <<"0.5", "-1.0">>), Reset("t"), Cov("t", << <<"2.0", "0.5">>, <<"0.5", "1.0">> >>),
    Frac("t", <<"1.0", "0.0">>), SetY("u", <<"5.0">>), SetN("u", <<"0.5", "-1.0", "0.5">>), Reset("u"), Cov("u", C1),
    Fill("h", << <<"1.0">> >>, <<"8.0">>), New("v", "h"), SetP("v", <<"3.0", "-0.5", "1.0">>), Frac("u", <<"1.0", "0.0", "1.0">>) >>
Tail3 == <<Obs("t"), Obs("u"), Obs("v")>>

\* the plots in the same states
Setup4 == Setup1
Menu4 == Menu1
Tail4 == <<[op |-> "pl_t", t |-> "t"], [op |-> "pl_t", t |-> "u"]>>
Setup5 == Setup2
Menu5 == Menu2
Tail5 == <<[op |-> "pl_proj", t |-> "t", axis |-> 1], [op |-> "pl_proj", t |-> "t", axis |-> 2], [op |-> "pl_2d", t |-> "t"], [op |-> "pl_proj", t |-> "u", axis |-> 2]>>
=============================================================================
