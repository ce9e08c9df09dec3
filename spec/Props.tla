-------------------------------- MODULE Props --------------------------------
(* Properties of the specification itself: invariants of all states, and laws
   that characterise its definitions independently of how they are written.
   They are checked by TLC on the finite models (MC_*.tla).                   *)
EXTENDS TemplateFitter

\* ---- histograms (H01 - H04, L01) ----
\* x lies in bin b, word by word
InBin(es, b, x) == /\ DLe(es[b], x)
                   /\ IF b = Len(es) - 1 THEN DLe(x, es[b + 1]) ELSE DLt(x, es[b + 1])
\* the accepted fills of histogram id among the calls cs
FillsOf(h, id, cs) ==
    SelectSeq(cs, LAMBDA e : /\ e.op \in {"h_new", "h_fill"} /\ e.id = id /\ e.hasdata
                             /\ FillOk(h, e.cols, e.hasw, e.w, e.junk))
WeightOf(e, q) == IF e.hasw THEN e.w[q] ELSE "1"
\* contributions to the cell with the bins bs (one per axis)
Contributions(h, bs, fills) ==
    Concat([f \in 1 .. Len(fills) |->
        LET e == fills[f]
            s == SelectSeq([q \in 1 .. Len(e.cols[1]) |-> q],
                           LAMBDA q : \A a \in 1 .. h.dim : InBin(h.edges[a], bs[a], e.cols[a][q]))
        IN [q \in 1 .. Len(s) |-> WeightOf(e, s[q])]])
FlatIndex(h, bs) == IF h.dim = 1 THEN bs[1] ELSE (bs[1] - 1) * h.shape[2] + bs[2]
Cells(h) == IF h.dim = 1 THEN {<<i>> : i \in 1 .. h.shape[1]}
            ELSE {<<i, j>> : i \in 1 .. h.shape[1], j \in 1 .. h.shape[2]}
StartOf(id, cs) == SelectSeq(cs, LAMBDA e : e.op = "h_binned" /\ e.id = id)
BookedExactly(h, id, cs) ==
    LET fills == FillsOf(h, id, cs) st == StartOf(id, cs) IN
    \/ \E q \in 1 .. Len(cs) : cs[q].op \notin {"h_new", "h_fill", "h_binned", "h_obs", "args", "scribble"} /\ "id" \in DOMAIN cs[q] /\ cs[q].id = id
    \/ ~ \E q \in 1 .. Len(cs) : cs[q].op \in {"h_new", "h_binned"} /\ cs[q].id = id
    \/ \A bs \in Cells(h) :
         LET b == FlatIndex(h, bs) ws == Contributions(h, bs, fills) IN
         /\ DEq(h.cnt[b], DAdd(DSum(ws), IF st = <<>> THEN "0" ELSE st[1].counts[b]))
         /\ DEq(h.esq[b], DAdd(DSum(VSq(ws)), IF st = <<>> THEN "0"
                               ELSE IF st[1].haserr THEN DMul(st[1].errs[b], st[1].errs[b]) ELSE h.esq[b]))
            \/ (st # <<>> /\ ~st[1].haserr)
\* both projections keep the total
ProjectionOk == \A h \in DOMAIN H : H[h].dim = 2 =>
    \A a \in {1, 2} : LET p == HProject(H[h], a) IN
        /\ DEq(DSum(p.cnt), DSum(H[h].cnt)) /\ DEq(DSum(p.esq), DSum(H[h].esq))
        /\ p.edges = <<H[h].edges[a]>> /\ HistOk(p)
GeometryOk == \A h \in DOMAIN H : \A a \in 1 .. H[h].dim :
    LET es == H[h].edges[a] IN
    /\ DClose(DSum(Widths(es)), DSub(es[Len(es)], es[1]), "1e-28", "1e-28")
    /\ \A i \in 1 .. Len(es) - 1 : BinOf(es, Mids(es)[i]) = i /\ BinOf(es, es[i]) = i
    /\ BinOf(es, es[Len(es)]) = Len(es) - 1

\* ---- templates (T01 - T04) ----
SomeTheta(n) == {VZero(n), VConst(n, "0.5"), [i \in 1 .. n |-> IF i % 2 = 1 THEN "1" ELSE "-0.25"]}
FractionsOk == \A t \in DOMAIN T :
    LET n == TSize(T[t]) IN
    /\ \A th \in SomeTheta(n) :
         LET f == Fractions(T[t], th) IN
           IF IsZero(DSum(Shaped(T[t], th))) THEN f = VZero(n) ELSE DClose(DSum(f), "1", "0", "1e-28")
    \* moving one bin up moves its fraction up and, if anything, all others down
    /\ \A i \in 1 .. n : DLt("0", T[t].n[i]) /\ (\A j \in 1 .. n : DLe("0", T[t].n[j])) =>
         LET f == Fractions(T[t], VZero(n)) g == Fractions(T[t], [VZero(n) EXCEPT ![i] = "1"]) IN
           /\ DLe(f[i], g[i])
           /\ \A j \in 1 .. n : j # i => DLe(g[j], f[j])
\* covariances: symmetric, no negative variances, and the inverse of the
\* correlation matrix is its inverse
CovariancesOk == \A t \in DOMAIN T :
    LET n == TSize(T[t]) c == T[t].cov r == TCorr(T[t]) IN
    /\ \A i, j \in 1 .. n : DEq(c[i][j], c[j][i])
    /\ \A i \in 1 .. n : DLt("0", c[i][i]) /\ DClose(r[i][i], "1", "0", "1e-28")
    /\ \A i, j \in 1 .. n : DLe(DAbs(r[i][j]), "1.0000000000001")
    /\ T[t].rinv # <<>> => MClose(MMul(r, T[t].rinv), MEye(n), "0", "1e-12")
\* sum and list of covariances, from the calls
CovCallsOf(t, id, cs) ==
    SelectSeq(cs, LAMBDA e : \/ e.op = "t_addvar" /\ e.id = id
                             \/ e.op = "t_addcov" /\ e.id = id /\ CovShapeOk(t, e.m))
UncertaintiesOf(t, id, cs) ==
    LET c == CovCallsOf(t, id, cs) IN
    /\ Len(t.covs) = 1 + Len(c)
    /\ \A i, j \in 1 .. TSize(t) :
         DClose(t.cov[i][j], DSum([q \in 1 .. Len(t.covs) |-> t.covs[q][i][j]]), "1e-28", "1e-28")
    /\ \A q \in 1 .. Len(c) : c[q].op = "t_addvar" =>
         \* fully correlated: every 2 x 2 minor vanishes
         \A i, j \in 1 .. TSize(t) :
           LET m == t.covs[q + 1] IN
           DClose(DMul(m[i][j], m[i][j]), DMul(m[i][i], m[j][j]), "1e-26", "1e-28")
\* the last write decides
ParametersOf(id, cs) ==
    LET w == SelectSeq([q \in 1 .. Len(cs) |-> q],
               LAMBDA q : /\ cs[q].op \in {"t_setyield", "t_setparams", "t_reset"} /\ cs[q].id = id
                          /\ Accept(cs[q]) = "yes")
        others == {"m_setyield", "m_update", "m_reset", "ch_update", "ch_reset", "f_fit", "y_lin"}
        e == cs[w[Len(w)]]
    IN \/ \E q \in 1 .. Len(cs) : cs[q].op \in others
       \/ w = <<>> /\ DEq(T[id].y, DSum(T[id].n))
       \/ w # <<>> /\ e.op = "t_reset" /\ DEq(T[id].y, DSum(T[id].n))
       \/ w # <<>> /\ e.op # "t_reset" /\ DEq(T[id].y, e.v[1])

\* ---- models (M01 - M06, M08) ----
TemplatesOf(m) == Concat([c \in 1 .. Len(m.chans) |-> [q \in 1 .. Len(m.chans[c].ts) |-> m.chans[c].ts[q].t]])
NoSharing(m) == LET s == TemplatesOf(m) IN \A i, j \in 1 .. Len(s) : s[i] = s[j] => i = j
EffSum(m, p) == DSum(Concat([c \in 1 .. Len(m.chans) |->
    LET s == SelectSeq(m.chans[c].ts, LAMBDA e : e.proc = p) IN [q \in 1 .. Len(s) |-> s[q].eff]]))
\* some parameters
Probe(m) == [i \in 1 .. NumPar(m) |-> IF i <= Len(m.procs) THEN DFromInt(40 + 7 * i)
                                     ELSE IF i % 3 = 0 THEN "-0.25" ELSE IF i % 3 = 1 THEN "0.5" ELSE "0"]
Complete(m) == m.chans # <<>> /\ \A c \in 1 .. Len(m.chans) : m.chans[c].ts # <<>>
Usable(m, TT, HH, x) == Complete(m) /\ NllDefined(m, TT, HH, x)
\* every parameter goes to exactly one place
LayoutOk == \A m \in DOMAIN M :
    LET mm == M[m] n == NumPar(mm)
        x == [i \in 1 .. n |-> DFromInt(i)]
        nuis == Concat([c \in 1 .. Len(mm.chans) |-> ChanNui(mm, x, c)])
    IN /\ nuis = [i \in 1 .. n - Len(mm.procs) |-> DFromInt(Len(mm.procs) + i)]
       /\ \A c \in 1 .. Len(mm.chans) :
            /\ Len(ChanParIdx(mm, c)) = Len(mm.chans[c].ts) * (1 + ChanBins(mm.chans[c]))
            /\ \A q \in 1 .. Len(mm.chans[c].ts) :
                 mm.procs[ChanParIdx(mm, c)[q]] = mm.chans[c].ts[q].proc
       /\ LET names == ParamNames(mm) IN \A i, j \in 1 .. n : names[i] = names[j] => i = j
\* no term of the likelihood is negative
LikelihoodOk == \A m \in DOMAIN M :
    LET mm == M[m] x == Probe(mm) IN Usable(mm, T, H, x) =>
       /\ DLe("-1e-28", NllPoisson(mm, T, H, x))
       /\ (\A t \in ToSet(TemplatesOf(mm)) : T[t].rinv # <<>>) => DLe("-1e-20", NllGauss(mm, T, x))
       /\ DLe("0", NllConstr(mm, x))
       /\ DClose(Nll(mm, T, H, x), DSum(<<NllPoisson(mm, T, H, x), NllGauss(mm, T, x), NllConstr(mm, x)>>), "1e-28", "1e-28")
\* the Asimov data fit perfectly
AsimovOk == \A m \in DOMAIN M :
    LET mm == M[m] IN Complete(mm) /\ NoSharing(mm) =>
       \A c \in 1 .. Len(mm.chans) : LET nu == ChanNow(mm, T, c) IN
          (\A i \in 1 .. Len(nu) : DLe("0", nu[i])) =>
            /\ DClose(ChanPoisson(nu, nu), "0", "0", "1e-25")
            /\ \A i \in 1 .. Len(nu) : DLt("0.1", nu[i]) =>
                 DLt("0", ChanPoisson(nu, [nu EXCEPT ![i] = DMul(@, "1.1")]))
\* derivatives: against symmetric differences
Step0 == "1e-9"
Moved(x, i, d) == [x EXCEPT ![i] = DAdd(@, d)]
DerivativesOk == \A m \in DOMAIN M :
    LET mm == M[m] x == Probe(mm) n == NumPar(mm) IN
    Usable(mm, T, H, x) /\ n <= 12 /\ (\A t \in ToSet(TemplatesOf(mm)) : T[t].rinv # <<>>) =>
      LET g == NllGrad(mm, T, H, x)
          h == NllHess(mm, T, H, x)
          diff(a, b) == VScale(DDiv("1", DMul("2", Step0)), VSub(a, b))
          gd == [i \in 1 .. n |-> diff(<<Nll(mm, T, H, Moved(x, i, Step0))>>, <<Nll(mm, T, H, Moved(x, i, DNeg(Step0)))>>)[1]]
          hd == [i \in 1 .. n |-> diff(NllGrad(mm, T, H, Moved(x, i, Step0)), NllGrad(mm, T, H, Moved(x, i, DNeg(Step0))))]
      IN /\ VClose(g, gd, "1e-9", "1e-9")
         /\ MClose(h, hd, "1e-9", "1e-9")
         /\ \A c \in 1 .. Len(mm.chans) :
              LET idx == ChanParIdx(mm, c) j == ChanJac(mm, T, x, c)
                  jd == [a \in 1 .. Len(idx) |-> diff(ChanExpAt(mm, T, Moved(x, idx[a], Step0), c),
                                                       ChanExpAt(mm, T, Moved(x, idx[a], DNeg(Step0)), c))]
              IN MClose(MTrans(j), jd, "1e-9", "1e-9")

\* ---- fits (F01, F02, F04, F05) ----
FitterSettings(f) == LET mm == M[F[f].m] names == ParamNames(mm) IN
    [names |-> names, ok |-> SettingsOk(F[f], names),
     fix |-> FixedIn(F[f], names, Len(mm.procs), FALSE),
     bnd |-> BoundsIn(F[f], names, Len(mm.procs), FALSE, <<>>)]
QuadraticOk(q, x0, fix, bnd) ==
    LET x == QMin(q, x0, fix, bnd) v == QVal(q, x) n == Len(x0) IN
    /\ QIsMin(q, x, fix, bnd, "1e-6")
    /\ \A i \in 1 .. n : fix[i] => DEq(x[i], x0[i])
    /\ \A i \in 1 .. n : ~fix[i] => InBounds(bnd[i], x[i], "0")
    \* nothing in the neighbourhood is lower
    /\ \A i \in 1 .. n, d \in {"0.01", "-0.01", "1", "-1"} :
         fix[i] \/ DLe(DSub(v, "1e-12"), QVal(q, [x EXCEPT ![i] = Clamp(bnd[i], DAdd(@, d))]))
    \* fixing more never lowers the minimum
    /\ \A i \in 1 .. n : fix[i] \/ DLe(DSub(v, "1e-12"), QVal(q, QMin(q, [x EXCEPT ![i] = Clamp(bnd[i], DAdd(@, "0.5"))], [fix EXCEPT ![i] = TRUE], bnd)))
\* the profile of an unbounded quadratic is the parabola of its error
ParabolaOk(q, x0, fix) ==
    LET n == Len(x0) none == [i \in 1 .. n |-> <<>>]
        x == QMin(q, x0, fix, none) cov == FreeInverse(q.A, FreeIdx(fix), n) IN
    \A i \in 1 .. n : ~fix[i] =>
       \A d \in {"-1.5", "0.5", "2"} :
         LET s == DSqrt(cov[i][i])
             y == QMin(q, [x EXCEPT ![i] = DAdd(@, DMul(d, s))], [fix EXCEPT ![i] = TRUE], none)
         IN DClose(DSub(QVal(q, y), QVal(q, x)), DMul("0.5", DMul(d, d)), "1e-20", "1e-20")
FittersOk == \A f \in DOMAIN F : LET s == FitterSettings(f) mm == M[F[f].m] x0 == StartValues(mm, T) IN
    F[f].hasq /\ s.ok =>
       /\ QuadraticOk(F[f].q, x0, s.fix, s.bnd)
       /\ ParabolaOk(F[f].q, x0, s.fix)
MinimisersOk == \A z \in DOMAIN Z :
    /\ QuadraticOk(Z[z].q, Z[z].q.c, Z[z].fix, Z[z].bnd)
    /\ QuadraticOk(Z[z].q, VAdd(Z[z].q.c, VConst(Len(Z[z].names), "0.75")), Z[z].fix, Z[z].bnd)
    /\ ParabolaOk(Z[z].q, VAdd(Z[z].q.c, VConst(Len(Z[z].names), "0.75")), Z[z].fix)

\* ---- legacy modules (L01, L02) ----
LegacyHistOk == \A h \in DOMAIN LH :
    /\ \A b \in 1 .. Len(LH[h].cnt) : DLe("0", LH[h].esq[b]) /\ DLe("0", LH[h].ent[b])
    /\ LH[h].dim = 2 => \A a \in {1, 2} : DEq(DSum(HProject(LH[h], a).cnt), DSum(LH[h].cnt))
LegacyStackOk == \A s \in DOMAIN LS :
    /\ \A q \in 1 .. Len(LS[s].mem) : LS[s].mem[q][2] \in DOMAIN LT /\ LSFits(LS[s], LT[LS[s].mem[q][2]])
    /\ \A p, q \in 1 .. Len(LS[s].mem) : LS[s].mem[p][1] = LS[s].mem[q][1] => p = q
    /\ LS[s].mem # <<>> => DClose(DSum(LSNow(LS[s], LT)),
          DSum([q \in 1 .. Len(LS[s].mem) |-> LET t == LT[LS[s].mem[q][2]] IN DSum(TValues(t))]), "1e-25", "1e-25")

Basic == AllHistOk /\ AllTemplateOk /\ AllModelOk
=============================================================================
