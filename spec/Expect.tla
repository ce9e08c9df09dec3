------------------------------- MODULE Expect -------------------------------
(* What every call has to return and what is visible after it: a sequence of
   clauses
     p  properties the clause belongs to
     f  field of out.val
     k  kind of comparison (see Holds)
     e  expected value
     r, a  relative and absolute tolerance                                    *)
EXTENDS TemplateFitter

C(p, f, k, e, r, a) == [p |-> p, f |-> f, k |-> k, e |-> e, r |-> r, a |-> a]
Num(p, f, e, r, a) == C(p, f, "num", e, r, a)
Vec(p, f, e, r, a) == C(p, f, "vec", e, r, a)
VecN(p, f, e, r, a) == C(p, f, "vecn", e, r, a)   \* undefined numbers stay undefined
VecT(p, f, e, t) == C(p, f, "vect", e, "0", t)
Mat(p, f, e, r, a) == C(p, f, "mat", e, r, a)
Vecs(p, f, e) == C(p, f, "vecs", e, "0", "0")     \* exactly equal numbers
Is(p, f, e) == C(p, f, "eq", e, "0", "0")         \* equal values
Fact(p, f, b) == C(p, f, "fact", b, "0", "0")     \* a fact about the field
FactI(p, f, b, i) == C(p, f, "facti", [ok |-> b, info |-> i], "0", "0")   \* with information

Holds(c, v) ==
    CASE c.k = "fact" -> c.e
      [] c.k = "facti" -> c.e.ok
      [] c.f \notin DOMAIN v -> FALSE
      [] c.k = "num"  -> DClose(c.e, v[c.f], c.r, c.a)
      [] c.k = "vec"  -> VClose(c.e, v[c.f], c.r, c.a)
      [] c.k = "vecn" -> Len(c.e) = Len(v[c.f]) /\ \A i \in 1 .. Len(c.e) :
                            IF DFinite(c.e[i]) THEN DClose(c.e[i], v[c.f][i], c.r, c.a) ELSE ~DFinite(v[c.f][i])
      [] c.k = "vect" -> Len(c.e) = Len(v[c.f]) /\ VCloseV(c.e, v[c.f], c.a)
      [] c.k = "mat"  -> MClose(c.e, v[c.f], c.r, c.a)
      [] c.k = "vecs" -> Len(c.e) = Len(v[c.f]) /\ \A i \in 1 .. Len(c.e) : VEq(c.e[i], v[c.f][i])
      [] c.k = "eq"   -> c.e = v[c.f]

MScaleOf(m) == FoldLeft(LAMBDA acc, row : DMax(acc, VMaxAbs(row)), "0", m)

\* ---- histograms ----
HClauses(h) ==
    LET p == h.p IN
    << VecT(p, "cnt", h.cnt, VMap(h.mag, LAMBDA m : DAdd(DMul("1e-12", m), "1e-300"))),
       VecT(p, "esq", h.esq, VAdd(VMap(h.mag, LAMBDA m : DAdd(DMul("1e-15", DMul(m, m)), "1e-300")), VScale("1e-11", h.esq))),
       Fact(p, "err", \A i \in 1 .. Len(h.esq) : DLe("0", h.esq[i])),
       Vec(p \cap {"H01", "H02", "H03"}, "err", VSqrt(h.esq), "1e-8", "1e-12"),
       Vecs(IF "H03" \in p THEN {"H03", "H04"} ELSE IF p \cap {"M06", "M07"} # {} THEN p \cup {"H04"} ELSE {"H04"}, "edges", h.edges),
       Is({"H04"} \cup (p \cap {"H02", "H03"}), "shape", h.shape),
       Is({"H04"} \cup (p \cap {"H02", "H03"}), "cshape", h.shape),
       Is({"H04"}, "nb", h.shape),
       Vecs({"H04"}, "rng", HRange(h)),
       C({"H04"}, "mids", "mat", Tab(h.dim, LAMBDA a : Mids(h.edges[a])), "1e-12", DMul("1e-14", MScaleOf(h.edges))),
       C({"H04"}, "widths", "mat", Tab(h.dim, LAMBDA a : Widths(h.edges[a])), "1e-9", DMul("1e-14", MScaleOf(h.edges))),
       Is(p \cap {"H03", "H01", "H02"}, "filled", h.filled) >>
    \o IF h.dim = 1 THEN <<>>
       ELSE << Vecs({"H04"}, "xye", h.edges), Vecs({"H04"}, "xyr", HRange(h)) >>

HEdgesClause(e) ==
    IF e.bk = "edges" \/ ~e.out.ok THEN <<>>
    ELSE << Fact({"H04"}, "edges",
              /\ Len(Wit(e).edges) = e.dim
              /\ \A a \in 1 .. e.dim : EdgesAgree(Wit(e).edges[a], e.rng[a][1], e.rng[a][2], e.nb[a])) >>

\* ---- templates ----
TClauses(t, withvals) ==
    LET vals == TValues(t)
        scale == DAdd(DMul("1e-9", VMaxAbs(vals)), "1e-200")
        rel == RelErr(t)
        errs == VMul(rel, vals)
        fr == Fractions(t, t.th)
    IN << Num({"T04", "T01"}, "yield", t.y, "1e-11", "1e-300"),
          Vec({"T04"}, "nui", t.th, "1e-12", "1e-300"),
          Vec({"T04"}, "params", <<t.y>> \o t.th, "1e-11", "1e-300"),
          Vec({"T01", "T04"}, "vals", vals, "1e-9", scale),
          Is({"T01", "H04"}, "vshape", t.shape),
          Vec({"T01"}, "frac", fr, "1e-9", DAdd(DMul("1e-9", VMaxAbs(fr)), "1e-200")),
          Vec({"T02"}, "errs", errs, "1e-8", DAdd(DMul("1e-9", VMaxAbs(errs)), "1e-200")),
          Mat({"T02", "T03", "T04"}, "cov", t.cov, "1e-9", DMul("1e-10", MScaleOf(t.cov))),
          Vec({"T02"}, "covdiag", MDiagOf(t.cov), "1e-9", "1e-300"),
          Is({"T02", "T03"}, "ncovs", Len(t.covs)),
          Fact({"T02", "T03"}, "covs",
               /\ Len(withvals.covs) = Len(t.covs)
               /\ \A i \in 1 .. Len(t.covs) :
                    MClose(t.covs[i], withvals.covs[i], "1e-9", DMul("1e-10", MScaleOf(t.covs[i])))),
          Mat({"T02"}, "corr", TCorr(t), "1e-8", "1e-9"),
          Mat({"T02"}, "inv", t.rinv, "1e-6", DMul("1e-6", MScaleOf(t.rinv))),
          Is({"H04"}, "nbins", TSize(t)), Is({"H04"}, "shape", t.shape), Is({"H04"}, "bins", t.shape),
          Vecs({"H04"}, "rng", HRange(t)),
          C({"H04"}, "mids", "mat", Tab(t.dim, LAMBDA a : Mids(t.edges[a])), "1e-12", DMul("1e-14", MScaleOf(t.edges))),
          C({"H04"}, "widths", "mat", Tab(t.dim, LAMBDA a : Widths(t.edges[a])), "1e-9", DMul("1e-14", MScaleOf(t.edges))),
          Vecs({"H04", "T04"}, "edges", t.edges) >>

\* ---- models ----
MScaleVec(v) == DAdd(DMul("1e-9", VMaxAbs(v)), "1e-200")
MClauses(m, TT, HH, p) ==
    LET np == Len(m.procs) nn == NumNui(m) ys == ProcYields(m, TT) IN
    << Is({"M01", "M02"}, "procs", m.procs),
       Is({"M01"}, "chans", Tab(Len(m.chans), LAMBDA c : m.chans[c].name)),
       Is({"M01", "M02"}, "nproc", np), Is({"M01", "M02"}, "nchan", Len(m.chans)),
       Is({"M01", "M02"}, "nnui", nn),
       Is({"M01", "M02"}, "tmpls", Tab(Len(m.chans), LAMBDA c : ProcsOf(m.chans[c]))),
       C({"M01", "M03"}, "effs", "mat", Tab(Len(m.chans), LAMBDA c :
            Tab(Len(m.chans[c].ts), LAMBDA k : m.chans[c].ts[k].eff)), "0", "0"),
       Is({"M01", "F03"}, "hasdata", Tab(Len(m.chans), LAMBDA c : m.chans[c].data # "")),
       C({"M01", "F03", "M05"}, "data", "mat", Tab(Len(m.chans), LAMBDA c :
            IF m.chans[c].data = "" THEN <<>> ELSE HH[m.chans[c].data].cnt), "1e-9", "1e-9"),
       Vec({"M03"} \cup p, "yields", ys, "1e-10", MScaleVec(ys)),
       Vec({"M03"}, "yerrs", ProcYieldErrors(m, TT), "1e-8", MScaleVec(ys)),
       C({"M03"} \cup p, "tyields", "mat", Tab(Len(m.chans), LAMBDA c :
            Tab(Len(m.chans[c].ts), LAMBDA k : TT[m.chans[c].ts[k].t].y)), "1e-10", "1e-300"),
       C({"M03", "M02"} \cup p, "tnui", "mat", Concat(Tab(Len(m.chans), LAMBDA c :
            Tab(Len(m.chans[c].ts), LAMBDA k : TT[m.chans[c].ts[k].t].th))), "1e-10", "1e-300"),
       Is({"M01", "M04"}, "cprocs", Tab(Len(m.constr), LAMBDA q : m.constr[q].proc)),
       Is({"M01"}, "ncon", <<Len(m.constr), Len(m.constr)>>),
       Vec({"M01", "M04"}, "cvals", Tab(Len(m.constr), LAMBDA q : m.constr[q].val), "1e-13", "0"),
       Vec({"M01", "M04"}, "cerrs", Tab(Len(m.constr), LAMBDA q : m.constr[q].err), "1e-13", "0"),
       Is({"T03"} \cup p, "ncovs", Tab(Len(m.chans), LAMBDA c : Tab(Len(m.chans[c].ts), LAMBDA k : Len(TT[m.chans[c].ts[k].t].covs)))) >>
    \o IF nn = 0 THEN <<>>
       ELSE << Vec({"M02"} \cup p, "nui", NuiParams(m, TT), "1e-10", "1e-300"),
               Vec({"M02"} \cup p, "x0", StartValues(m, TT), "1e-10", MScaleVec(ys)),
               Is({"M02"}, "names", ParamNames(m)) >>

\* one channel
ChanClauses(m, c) ==
    LET ch == m.chans[c] IN
    << Is({"M01"}, "name", ch.name), Is({"M01"}, "procs", ProcsOf(ch)), Is({"M01", "M02"}, "ntmpl", Len(ch.ts)),
       Is({"M01", "M02"}, "nnui", Len(ch.ts) * ChanBins(ch)), Is({"M01"}, "bins", ch.bins), Is({"M01"}, "nbins", ChanBins(ch)),
       Vecs({"M01"}, "rng", ch.rng), Is({"M01"}, "hasdata", ch.data # ""),
       Is({"M02"}, "idx", Tab(Len(ch.ts), LAMBDA k : ProcIdx(m, ch.ts[k].proc) - 1)) >>
    \o (IF ch.ts = <<>> THEN <<>> ELSE << Vecs({"M01", "H04"}, "edges", ChanEdges(m, c)) >>)
ChNllClauses(e) ==
    LET m == M[e.m] c == ChanIdx(m, e.chan) r == ChNll(m, c, VNorm(e.ys), VNorm(e.th)) d == H[m.chans[c].data].cnt
        eps == DMul("1e-9", DSum(Tab(Len(e.ys), LAMBDA k : DAbs(DMul(e.ys[k], m.chans[c].ts[k].eff)))))
    IN
    IF /\ \A i \in 1 .. Len(d) : DLe("0", d[i])
       /\ \E i \in 1 .. Len(d) : ~IsZero(d[i]) /\ DLt(r.nu[i], DNeg(eps))
    THEN << Is({"M04"}, "nll", "inf") >>
    ELSE IF \E i \in 1 .. Len(d) : DLt(d[i], "0") \/ (~IsZero(d[i]) /\ DLe(r.nu[i], "0")) THEN <<>>
    ELSE << Num({"M04", "M05"}, "nll", r.v, "1e-9", DMul("1e-9", DSum(<<"1", DSum(VAbs(r.nu)), DSum(d), DAbs(r.v)>>))) >>

RouteClauses(m, x) ==
    << C({"M02"}, "ys", "mat", Tab(Len(m.chans), LAMBDA c : ChanYields(m, x, c)), "0", "0"),
       C({"M02"}, "ths", "mat", Tab(Len(m.chans), LAMBDA c : ChanNui(m, x, c)), "0", "0") >>

\* likelihood values; p: which properties this evaluation is about
NllClauses(m, TT, HH, x, p) ==
    IF NllInfinite(m, TT, HH, x) THEN << Is(p, "nll", "inf") >>
    ELSE IF ~NllDefined(m, TT, HH, x) THEN <<>>
    ELSE << Num(p, "nll", Nll(m, TT, HH, x), "1e-9", DMul("1e-9", NllScale(m, TT, HH, x))) >>

ModelUnchanged(e, m, TT, HH, p) ==
    << C(p, "tyields", "mat", Tab(Len(m.chans), LAMBDA c :
            Tab(Len(m.chans[c].ts), LAMBDA k : TT[m.chans[c].ts[k].t].y)), "1e-12", "1e-300"),
       C(p, "tnui", "mat", Concat(Tab(Len(m.chans), LAMBDA c :
            Tab(Len(m.chans[c].ts), LAMBDA k : TT[m.chans[c].ts[k].t].th))), "1e-12", "1e-300"),
       C(p, "data", "mat", Tab(Len(m.chans), LAMBDA c :
            IF m.chans[c].data = "" THEN <<>> ELSE HH[m.chans[c].data].cnt), "1e-9", "1e-9"),
       C(p, "effs", "mat", Tab(Len(m.chans), LAMBDA c :
            Tab(Len(m.chans[c].ts), LAMBDA k : m.chans[c].ts[k].eff)), "0", "0"),
       Is(p, "cprocs", Tab(Len(m.constr), LAMBDA q : m.constr[q].proc)),
       Is(p, "ncon", <<Len(m.constr), Len(m.constr)>>),
       Vec(p, "cvals", Tab(Len(m.constr), LAMBDA q : m.constr[q].val), "1e-13", "0"),
       Vec(p, "cerrs", Tab(Len(m.constr), LAMBDA q : m.constr[q].err), "1e-13", "0"),
       Is(p, "ncovs", Tab(Len(m.chans), LAMBDA c : Tab(Len(m.chans[c].ts), LAMBDA k : Len(TT[m.chans[c].ts[k].t].covs)))) >>

AsimovClauses(e) ==
    LET m == M[e.id] IN
    << Is({"M06"}, "names", Tab(Len(m.chans), LAMBDA c : m.chans[c].name)) >>
    \o Concat(Tab(Len(m.chans), LAMBDA c :
         IF c > Len(Wit(e).hists) THEN <<>>
         ELSE LET h == H'[DataIds(e)[c]] o == Wit(e).hists[c]
                  tot == DAdd(DSum(VAbs(h.cnt)), DSum(Tab(Len(m.chans[c].ts), LAMBDA k : DAbs(T[m.chans[c].ts[k].t].y))))
                  sc == DAdd(DMul("1e-10", tot), "1e-200")
                  \* the root of a negative content is not defined
                  pos == SelectSeq(Tab(Len(h.cnt), LAMBDA i : i), LAMBDA i : DLe(sc, h.cnt[i]))
              IN << Fact({"M06"}, "cnt", VClose(h.cnt, o.cnt, "1e-9", sc)),
                    Fact({"M06"}, "esq", Len(o.esq) = Len(h.esq) /\ \A q \in 1 .. Len(pos) : DClose(h.esq[pos[q]], o.esq[pos[q]], "1e-9", sc)),
                    Fact({"M06"}, "err", Len(o.err) = Len(h.esq) /\
                         \A q \in 1 .. Len(pos) : DClose(DSqrt(h.esq[pos[q]]), o.err[pos[q]], "1e-8", DMul("1e-6", DSqrt(tot)))),
                    Fact({"M06", "H04"}, "edges", Len(h.edges) = Len(o.edges) /\ \A a \in 1 .. Len(h.edges) : VEq(h.edges[a], o.edges[a])),
                    Fact({"M06"}, "shape", h.shape = o.shape /\ h.shape = o.cshape) >>))
    \o ModelUnchanged(e, m, T, H, {"M06"})

IsCount(x) == DFinite(x) /\ DLe("0", x) /\ DEq(x, DRound(x))
ToyClauses(e) ==
    LET m == M[e.id] IN
    << Is({"M07"}, "names", Tab(Len(m.chans), LAMBDA c : m.chans[c].name)) >>
    \o Concat(Tab(Len(m.chans), LAMBDA c :
         IF c > Len(Wit(e).hists) THEN <<>>
         ELSE LET o == Wit(e).hists[c] mu == ChanNow(m, T, c)
              IN << Fact({"M07"}, "size", Len(o.cnt) = ChanBins(m.chans[c])),
                    Fact({"M07"}, "shape", o.cshape = m.chans[c].bins),
                    Fact({"M07"}, "counts", \A i \in 1 .. Len(o.cnt) : IsCount(o.cnt[i])),
                    Fact({"M07"}, "empty", Len(o.cnt) = Len(mu) =>
                           \A i \in 1 .. Len(o.cnt) : IsZero(mu[i]) => IsZero(o.cnt[i])),
                    \* 12 sigma: no draw of a Poisson distribution is further away
                    Fact({"M07"}, "range", Len(o.cnt) = Len(mu) =>
                           \A i \in 1 .. Len(o.cnt) :
                             DLe(DAbs(DSub(o.cnt[i], mu[i])), DAdd("40", DMul("12", DSqrt(mu[i]))))),
                    Fact({"M07"}, "err", VClose(VSqrt(o.cnt), o.err, "1e-8", "1e-8")),
                    Fact({"M07"}, "edges", LET ed == ChanEdges(m, c) IN
                        Len(ed) = Len(o.edges) /\ \A a \in 1 .. Len(ed) : VEq(ed[a], o.edges[a])),
                    Fact({"M07"}, "shape", m.chans[c].bins = o.shape) >>))
    \o ModelUnchanged(e, m, T, H, {"M07"})

\* Statistics of n toy data sets with total expectations mu (all channels,
\* concatenated): Wit: sum, sumsq, zeros, cross (sums of products of
\* neighbouring bins), lag (sums of products with the next toy), rows.
\* All bounds are 6.5 standard deviations of the statistic.
PoissonClauses(P_, mu, e) ==
    LET n == DFromInt(e.n)
        rows == Wit(e).rows
        B == Len(mu)
        good == Len(rows) = e.n /\ \A r \in 1 .. Len(rows) : Len(rows[r]) = B
        col(b) == [r \in 1 .. e.n |-> rows[r][b]]
        mean(b) == DDiv(DSum(col(b)), n)
        dev(b) == VMap(col(b), LAMBDA x : DSub(x, mu[b]))
        var(b) == LET d == dev(b) IN DDiv(DDot(d, d), n)
        z == "6.5"
        \* Poisson: mean mu (variance mu), central fourth moment mu (1 + 3 mu)
        sdm(b) == DSqrt(DDiv(mu[b], n))
        sdv(b) == DSqrt(DDiv(DAdd(mu[b], DMul("2", DMul(mu[b], mu[b]))), n))
        p0(b) == DExp(DNeg(mu[b]))
        nz(b) == DFromInt(Len(SelectSeq(col(b), LAMBDA x : IsZero(x))))
        sd0(b) == DSqrt(DMul(n, DMul(p0(b), DSub("1", p0(b)))))
        cov(a, b) == DDiv(DDot(dev(a), dev(b)), n)
        sdc(a, b) == DSqrt(DDiv(DMul(mu[a], mu[b]), n))
        lag(b) == LET d == dev(b) IN DDiv(DSum([r \in 1 .. e.n - 1 |-> DMul(d[r], d[r + 1])]), n)
    IN << Fact(P_, "rows", good) >>
       \o IF ~good THEN <<>> ELSE
          << Fact(P_, "integers", \A r \in 1 .. e.n : \A b \in 1 .. B : IsCount(rows[r][b])),
             Fact(P_, "mean", \A b \in 1 .. B : DLe(DAbs(DSub(mean(b), mu[b])), DMul(z, sdm(b)))),
             Fact(P_, "variance", \A b \in 1 .. B :
                    DLe(DAbs(DSub(var(b), mu[b])), DAdd(DMul(z, sdv(b)), DDiv("20", n)))),
             Fact(P_, "zeros", \A b \in 1 .. B : DLe("1e-3", mu[b]) =>
                    DLe(DAbs(DSub(nz(b), DMul(n, p0(b)))), DAdd(DMul(z, sd0(b)), "8"))),
             Fact(P_, "independent bins", \A a, b \in 1 .. B : a < b =>
                    DLe(DAbs(cov(a, b)), DAdd(DMul(z, sdc(a, b)), DDiv("20", n)))),
             Fact(P_, "independent calls", \A b \in 1 .. B :
                    DLe(DAbs(lag(b)), DAdd(DMul(z, DDiv(mu[b], DSqrt(n))), DDiv("20", n)))),
             Fact(P_, "reproducible", Wit(e).same = TRUE) >>
ToyStatClauses(e) ==
    LET m == M[e.id] IN PoissonClauses({"M07"}, Concat(Tab(Len(m.chans), LAMBDA c : ChanNow(m, T, c))), e)

\* ---- post-fit uncertainties ----
\* e: m, chan, names, x, cov
PropClauses(e) ==
    LET m == M[e.m] c == ChanIdx(m, e.chan)
        names == ParamNames(m)
        \* the container may list the parameters in any order
        pos == Tab(Len(names), LAMBDA i : IndexIn(e.names, names[i]))
        x == Tab(Len(names), LAMBDA i : e.x[pos[i]])
        cov == Tab2(Len(names), Len(names), LAMBDA i, j : e.cov[pos[i]][pos[j]])
        want == PostFitCov(m, T, x, cov, c)
        sc == MScaleOf(want)
    IN << Mat({"M08"}, "cov", want, "1e-5", DAdd(DMul("1e-6", sc), "1e-10")),
          Vec({"M08"}, "unc", VSqrt(MDiagOf(want)), "1e-4", DAdd(DMul("1e-4", DSqrt(sc)), "1e-6")),
          Vec({"M08", "M02"}, "counts",
              ChanExp(m.chans[c], T, ChanYields(m, x, c), LAMBDA k : ChanTheta(m, x, c, k)), "1e-9",
              DAdd("1e-200", DMul("1e-9", VMaxAbs(ChanYields(m, x, c))))) >>

\* ---- parameter containers ----
PClauses(q) == << Is({"F06"}, "names", q.names), Is({"F06"}, "num", Len(q.names)),
                  Vec({"F06"}, "vals", q.vals, "0", "0"), Vec({"F06"}, "errs", q.errs, "0", "0"),
                  Vec({"F06"}, "valsbyname", q.vals, "0", "0"), Vec({"F06"}, "errsbyname", q.errs, "0", "0"),
                  Vec({"F06"}, "itembyname", q.vals, "0", "0"),
                  Vec({"F06"}, "valsbyidx", q.vals, "0", "0"), Vec({"F06"}, "errsbyidx", q.errs, "0", "0") >>

\* ---- fits ----
\* SLSQP stops when the cost changes by less than 1e-6 in a step: far from a
\* small neighbourhood of the minimum of a likelihood
EdmTol(min) == IF min = "iminuit" THEN "5e-3" ELSE "0.1"
FitTol(min) == IF min = "iminuit" THEN "1e-3" ELSE "2e-3"
\* Result o of a minimisation from x0 by the minimiser min; fix and bnd are its
\* settings, Cost, Def, Hess, Edm functions of the parameters: cost, whether it
\* is defined, its second derivatives, estimated distance to the minimum;
\* scale is the scale of rounding errors of the cost.
\* largest deviation of two covariance matrices in units of the uncertainties
MaxDev(a, b, sd) ==
    FoldLeft(LAMBDA acc, i : FoldLeft(LAMBDA x, j :
        IF i > Len(a) \/ j > Len(a[i]) \/ IsZero(sd[i]) \/ IsZero(sd[j]) THEN x
        ELSE DMax(x, DDiv(DAbs(DSub(a[i][j], b[i][j])), DMul(sd[i], sd[j]))), acc, [j \in 1 .. Len(sd) |-> j]),
      "0", [i \in 1 .. Len(sd) |-> i])

\* nonui: no nuisance parameter is free; such a fit converges from anywhere, otherwise
\* Migrad may give up (and says so)
MinClauses(min, isq, nonui, q, Cost(_), Def(_), Hess(_), Step(_, _), scale(_), names, x0, fix, bnd, o, hesse, alts, wp) ==
    LET n == Len(x0)
        x == VNorm(o.x)
        good == Len(x) = n /\ AllFinite(x)
        free == FreeIdx(fix)
        defined == Def(x)
        h == Hess(x)
        \* parameters at a bound have no quadratic neighbourhood
        \* with fixed parameters the scipy minimiser inverts the full matrix
        wantc == IF min = "iminuit" THEN FreeInverse(h, free, n)
                 ELSE FreeInverse(h, [i \in 1 .. n |-> i], n)
        csd == Tab(n, LAMBDA i : IF wantc = <<>> THEN "0" ELSE DSqrt(DAbs(wantc[i][i])))
        atb == \E i \in 1 .. n : ~fix[i] /\ HasBound(bnd[i])
        near(i) == /\ ~fix[i] /\ HasBound(bnd[i])
                   /\ \/ bnd[i][1] # "none" /\ DLt(DSub(x[i], DMul("4", csd[i])), bnd[i][1])
                      \/ bnd[i][2] # "none" /\ DLt(bnd[i][2], DAdd(x[i], DMul("4", csd[i])))
        inner == \A i \in 1 .. n : fix[i] \/ bnd[i] = <<>> \/
                    (/\ (bnd[i][1] = "none" \/ DLt(DAdd(bnd[i][1], "1e-2"), x[i]))
                     /\ (bnd[i][2] = "none" \/ DLt(x[i], DSub(bnd[i][2], "1e-2"))))
        crel == IF min = "iminuit" THEN (IF atb THEN "0.05" ELSE "0.02") ELSE "1e-3"
        tolc == Tab2(n, n, LAMBDA i, j : DAdd(DMul(crel, DMul(csd[i], csd[j])), "1e-12"))
        Sq(s) == Len(s) = n /\ \A i \in 1 .. n : Len(s[i]) = n
        hascov == (min = "iminuit" \/ hesse) /\ o.succ
        \* MINUIT may stop at a saddle point, or where the parameters are all but degenerate: it then makes
        \* its matrix positive or is not exact
        plain == isq \/ min # "iminuit" \/ \A i \in 1 .. n : fix[i] \/
                    (DLt("0", wantc[i][i]) /\ DLe(DMul(h[i][i], wantc[i][i]), "3000"))
    IN << Is({"F06"}, "names", names),
          Fact({"F02"} \cup wp, "x", good) >>
       \o (IF isq \/ min # "iminuit" \/ nonui THEN << Is({"F02"}, "succ", TRUE) >> ELSE <<>>)
       \o IF ~good THEN <<>> ELSE
       << Fact({"F01"}, "fixed", \A i \in 1 .. n : fix[i] /\ InBounds(bnd[i], x0[i], "0") =>
               IF min = "iminuit" THEN DClose(x[i], x0[i], "1e-12", "0")
               ELSE DClose(x[i], x0[i], "1e-8", "1e-8")),
          Fact({"F01"}, "bounds", \A i \in 1 .. n : ~fix[i] =>
               InBounds(bnd[i], x[i], DMul("1e-9", DAdd("1", DAbs(x[i]))))),
          Vec({"F06"}, "byname", x, "0", "0"), Vec({"F06"}, "byidx", x, "0", "0"),
          VecN({"F06"}, "errbyname", o.err, "0", "0") >>
       \o (IF ~defined \/ ~o.succ THEN <<>> ELSE
           << Num({"F02"}, "fmin", Cost(x), "1e-8", IF isq THEN "1e-8" ELSE DMul("1e-9", scale(x))) >>
           \o (IF isq
               THEN LET best == QMin(q, x0, fix, bnd)
                    IN << FactI({"F02", "F01"}, "minimum", DLe(Cost(x), DAdd(Cost(best), FitTol(min))), <<Cost(x), Cost(best)>>) >>
               ELSE IF ~inner THEN <<>>
               ELSE LET ns == Step(x, free)
                    IN << FactI({"F02", "F01"}, "minimum", ~ns.ok \/ DLe(ns.edm, EdmTol(min)), ns.edm) >>))
       \o (IF alts = <<>> \/ ~defined \/ ~o.succ THEN <<>>
           ELSE << Fact({"F02", "F01"}, "no better point",
                     LET cx == Cost(x) IN
                     \A a \in 1 .. Len(alts) :
                       LET z == Tab(n, LAMBDA i : IF fix[i] THEN x0[i] ELSE Clamp(bnd[i], alts[a][i]))
                       IN Def(z) => DLe(DSub(cx, IF isq THEN "1e-2" ELSE EdmTol(min)), Cost(z))) >>)
       \o (IF ~hascov \/ ~defined \/ wantc = <<>> \/ ~inner \/ ~plain \/ (min = "iminuit" /\ \E i \in 1 .. n : near(i)) THEN <<>>
           ELSE \* without hesse the matrix of Migrad is an estimate without a guarantee, which
                \* may even have negative variances
                (IF ~hesse THEN <<>> ELSE
                 << FactI({"F02"}, "covariance", Sq(o.cov) /\ \A i, j \in 1 .. n :
                        DClose(o.cov[i][j], wantc[i][j], "0", tolc[i][j]), MaxDev(o.cov, wantc, csd)) >>) \o
                (IF \/ \E i \in 1 .. n : DLt(wantc[i][i], "0")
                    \/ ~hesse /\ Sq(o.cov) /\ \E i \in 1 .. n : ~DFinite(o.cov[i][i]) \/ DLt(o.cov[i][i], "0") THEN <<>> ELSE <<
                   Fact({"F02"}, "errors", Sq(o.cov) /\ Len(o.err) = n /\ \A i \in 1 .. n :
                        \/ fix[i] /\ (min = "iminuit" => DEq(o.err[i], "0"))
                        \/ ~fix[i] /\ DClose(o.err[i], DSqrt(DAbs(o.cov[i][i])), "0.02", "1e-9")),
                   Fact({"F02"}, "correlation", Sq(o.corr) /\ Sq(o.cov) /\ \A i, j \in 1 .. n :
                        \/ fix[i] \/ fix[j]
                        \/ DClose(DMul(o.corr[i][j], DSqrt(DMul(DAbs(o.cov[i][i]), DAbs(o.cov[j][j])))), o.cov[i][j],
                                  "1e-6", DMul("1e-6", DMul(csd[i], csd[j])))) >>))

FitClauses(e) ==
    LET f == F[e.id] m == M[f.m] IN
    MinClauses(f.min, f.hasq, NuiFixed(m, FFixed(e)), f.q,
               LAMBDA v : IF f.hasq THEN QVal(f.q, v) ELSE Nll(m, T, H, v),
               LAMBDA v : f.hasq \/ NllDefined(m, T, H, v),
               LAMBDA v : IF f.hasq THEN f.q.A ELSE NllHess(m, T, H, v),
               LAMBDA v, free : NewtonStep(m, T, H, v, free),
               LAMBDA v : NllScale(m, T, H, v),
               ParamNames(m), StartValues(m, T), FFixed(e), FBound(e), Wit(e), e.hesse, e.alts, {"F03"})
    \o ModelUnchanged(e, m, T', H, {"F03"})

\* e: id, x0, hesse, alts
ZMinClauses(e) ==
    LET z == Z[e.id] IN
    MinClauses(z.min, TRUE, FALSE, z.q, LAMBDA v : QVal(z.q, v), LAMBDA v : TRUE, LAMBDA v : z.q.A,
               LAMBDA v, free : [ok |-> FALSE, edm |-> "nan", step |-> <<>>], LAMBDA v : "1",
               z.names, VNorm(e.x0), z.fix, z.bnd, Wit(e), e.hesse, e.alts, {})
    \o << Vec({"F06"}, "pvals", Wit(e).x, "0", "0"), VecN({"F06"}, "perrs", Wit(e).err, "0", "0"),
          \* the minimiser tells the same as its result
          Is({"F06"}, "pcov", Wit(e).cov), Is({"F06"}, "pcorr", Wit(e).corr), Is({"F06"}, "pmin", Wit(e).fmin) >>

\* minimum of the cost function with one parameter held
CondMin(f, m, x0, fix, bnd) ==
    IF f.hasq THEN LET b == QMin(f.q, x0, fix, bnd) IN [ok |-> TRUE, x |-> b, v |-> QVal(f.q, b)]
    ELSE LET r == NllMin(m, T, H, x0, FreeIdx(fix)) IN [ok |-> r.ok, x |-> r.x, v |-> r.v]

\* e: id, par, points, sigma, sub, fixnui, (ncpu, delays)
ProfileClauses(e) ==
    LET f == F[e.id] m == M[f.m] n == NumPar(m)
        names == ParamNames(m)
        x0 == StartValues(m, T)
        fix == FFixed(e) bnd == FBound(e)
        q == ParIdx(names, e.par)
        o == Wit(e) K == Len(o.pts)
        glob == CondMin(f, m, x0, fix, bnd)
        \* a single point is the lower end
        centre == IF K = 1 THEN glob.x[q] ELSE DDiv(DAdd(o.pts[1], o.pts[K]), "2")
        half == IF K = 1 THEN DSub(centre, o.pts[1]) ELSE DDiv(DSub(o.pts[K], o.pts[1]), "2")
        err == DDiv(half, e.sigma)
        h == IF f.hasq THEN f.q.A ELSE NllHess(m, T, H, glob.x)
        cf == FreeInverse(h, IF f.min = "iminuit" THEN FreeIdx(fix) ELSE [i \in 1 .. n |-> i], n)
        sd == DSqrt(cf[q][q])
        base == IF e.sub THEN "0" ELSE glob.v
        good == Len(o.vals) = K /\ Len(o.hesse) = K /\ K = e.points /\ K > 0 /\ AllFinite(o.pts)
        At(i) == CondMin(f, m, [glob.x EXCEPT ![q] = DNorm(o.pts[i])], [fix EXCEPT ![q] = TRUE], bnd)
        noatb == \A i \in 1 .. n : fix[i] \/ ~HasBound(bnd[i])
        crude == ~f.hasq /\ f.min # "iminuit"
        tol(v) == IF crude THEN DAdd("0.1", DMul("2e-2", DAbs(v)))
                  ELSE DAdd("3e-3", DMul("2e-3", DAbs(v)))
        \* the scipy minimiser has no error estimate where the inverse of the
        \* full matrix of second derivatives is not positive
        noerr == f.min # "iminuit" /\ glob.ok /\ (cf = <<>> \/ DLe(cf[q][q], "0"))
    IN << Fact({"F04"}, "points", good \/ noerr),
          Fact({"F04"}, "converged", (good /\ glob.ok /\ ~f.hasq /\ NuiFixed(m, fix)) => (o.gconv /\ \A i \in 1 .. K : At(i).ok => o.conv[i])) >>
       \o IF ~good \/ noerr \/ ~glob.ok \/ (~f.hasq /\ ~o.gconv) THEN <<>> ELSE
       << Fact({"F04"}, "equidistant", K = 1 \/ \A i \in 1 .. K :
               DClose(o.pts[i], LinPoint(o.pts[1], o.pts[K], i - 1, K - 1), "1e-9", DMul("1e-9", half))),
          FactI({"F04"}, "centre", DClose(centre, glob.x[q], "0", DMul(IF crude THEN "0.45" ELSE "0.08", sd)), <<centre, glob.x[q], sd>>),
          FactI({"F04"}, "width", noatb => DClose(half, DMul(e.sigma, sd), IF crude THEN "0.25" ELSE "0.1", IF K > 1 THEN "0" ELSE DMul(IF crude THEN "0.45" ELSE "0.08", sd)), <<half, DMul(e.sigma, sd)>>),
          Fact({"F04"}, "parabola", K = 1 \/ \A i \in 1 .. K :
               DClose(o.hesse[i], DAdd(base, DMul("0.5", DDiv(VSq(<<DSub(o.pts[i], centre)>>)[1], DMul(err, err)))),
                      "1e-6", IF e.sub THEN "1e-6" ELSE DAdd(IF crude THEN "0.1" ELSE "1e-3", DMul("1e-3", DAbs(base))))),
          FactI({"F04", "F01"}, "profile",
               LET out == {i \in 1 .. K : LET c == At(i) IN (c.ok /\ (f.hasq \/ o.conv[i])) /\ ~DClose(o.vals[i], DAdd(base, DSub(c.v, glob.v)), "0", tol(DSub(c.v, glob.v)))}
                   \* MINUIT may stop early and still report success, between the minimum and its start
                   early(i) == LET d == DSub(At(i).v, glob.v) v == DSub(o.vals[i], base) IN
                               DLe(d, v) /\ (DLe(v, DAdd("0.05", DMul("1.6", d)))
                                            \/ LET s == [glob.x EXCEPT ![q] = DNorm(o.pts[i])] IN
                                               NllDefined(m, T, H, s) /\ DLe(v, DAdd("0.05", DSub(Nll(m, T, H, s), glob.v))))
               IN out = {} \/ (~f.hasq /\ Cardinality(out) = 1 /\ \A i \in out : early(i)),
               Tab(K, LAMBDA i : DSub(At(i).v, glob.v))) >>
       \o ModelUnchanged(e, m, T, H, {"F03", "F04"})

\* e: id, proc, fixnui
SignifClauses(e) ==
    LET f == F[e.id] m == M[f.m]
        x0 == StartValues(m, T)
        fix == FFixed(e) bnd == FBound(e)
        q == ProcIdx(m, e.proc)
        o == Wit(e)
        glob == CondMin(f, m, x0, fix, bnd)
        null == CondMin(f, m, [(IF f.hasq THEN x0 ELSE glob.x) EXCEPT ![q] = "0"], [fix EXCEPT ![q] = TRUE], bnd)
        q0 == DMul("2", DSub(null.v, glob.v))
        s2 == DMul(o.s, o.s)
        \* without the process some bin with data has no expectation: infinitely significant
        possible == f.hasq \/ NllDefined(m, T, H, [glob.x EXCEPT ![q] = "0"])
    IN << Fact({"F05"}, "defined", IF DFinite(o.s) THEN DLe("0", o.s)
                                  ELSE ~f.hasq /\ (~o.conv \/ (o.s = "inf" /\ ~possible))),
          Fact({"F05"}, "converged", (glob.ok /\ null.ok /\ NuiFixed(m, fix)) => (f.hasq \/ o.conv)) >>
       \o (IF ~glob.ok \/ ~DFinite(o.s) \/ (~f.hasq /\ ~o.conv) THEN <<>>
           ELSE IF DLt(glob.x[q], "-1e-3") THEN << Fact({"F05"}, "negative yield", DEq(o.s, "0")) >>
           ELSE IF ~null.ok \/ DLt(glob.x[q], "1e-3") THEN <<>>
           ELSE << FactI({"F05"}, "likelihood ratio", DClose(s2, q0, "3e-3", IF f.hasq THEN IF f.min = "iminuit" THEN "1e-3" ELSE "3e-3" ELSE IF f.min = "iminuit" THEN "1e-2" ELSE "0.1"), <<q0, s2, glob.v, null.v, glob.x, null.x>>) >>)
       \o ModelUnchanged(e, m, T, H, {"F03", "F05"})

\* ---- toy studies ----
\* certificate of one toy fit: data d (per channel), start x0, result x, u
ToyFitOk(min, m, TT, HH, d, x0, x, u, hesse) ==
    LET ids == Tab(Len(m.chans), LAMBDA c : "toy#" \o m.chans[c].name)
        m2 == SetData(m, [c \in 1 .. Len(m.chans) |-> <<m.chans[c].name, ids[c]>>])
        H2 == PutAll(HH, ids, LAMBDA c : MkData(ChanEdges(m, c), d[c], "1", {}))
        np == Len(m.procs) n == NumPar(m)
        free == [i \in 1 .. np |-> i]
        ns == NewtonStep(m2, TT, H2, x, free)
        \* scipy inverts the full matrix
        cov == FreeInverse(NllHess(m2, TT, H2, x), IF min = "iminuit" THEN free ELSE [i \in 1 .. n |-> i], n)
    IN /\ Len(x) = n /\ AllFinite(x)
       /\ \A i \in np + 1 .. n : DClose(x[i], x0[i], "1e-8", "1e-8")
       /\ NllDefined(m2, TT, H2, x) =>
            /\ ~ns.ok \/ DLe(ns.edm, IF min = "iminuit" THEN "2e-2" ELSE "0.1")
            /\ hesse /\ ns.ok /\ cov # <<>> =>
                 /\ Len(u) = n
                 /\ min = "iminuit" => \A i \in np + 1 .. n : IsZero(u[i])
                 /\ \A i \in 1 .. IF min = "iminuit" THEN np ELSE n : DLt("0", cov[i][i]) => DClose(u[i], DSqrt(cov[i][i]), "0.15", "1e-6")

\* a study leaves everything but the data alone
StudyUnchanged(e, m, TT, p) == SelectSeq(ModelUnchanged(e, m, TT, H', p), LAMBDA c : c.f # "data")

YRunClauses(e) ==
    LET m == M[Y[e.id].m]
        o == Wit(e) c == Course(e)
        x0 == StartValues(m, T)
    IN << Fact({"Y01"}, "attempts", Len(o.att) = c.used),
          Fact({"Y01"}, "available", o.avail = c.ok) >>
       \o (IF ~c.ok \/ ~e.out.ok THEN <<>> ELSE
           << Fact({"Y01"}, "number of results", Len(o.par) = e.n /\ Len(o.unc) = e.n) >>
           \o (IF Len(o.par) # e.n \/ Len(o.unc) # e.n \/ Len(o.att) # c.used THEN <<>>
               ELSE << Fact({"Y01"}, "results belong to their toys", \A k \in 1 .. e.n :
                          LET d == o.att[c.good[k]]
                          IN GoodData(m, d) /\ (o.conv[c.good[k]] =>
                               ToyFitOk(Y[e.id].min, m, T, H, d, x0, VNorm(o.par[k]), o.unc[k], e.hesse))) >>))
       \o StudyUnchanged(e, m, T, {"Y03", "Y01"})

VMean(v) == DDiv(DSum(v), DFromInt(Len(v)))
VStd(v) == LET mu == VMean(v) d == VMap(v, LAMBDA x : DSub(x, mu)) IN DSqrt(DDiv(DDot(d, d), DFromInt(Len(v))))

YLinClauses(e) ==
    LET m == M[Y[e.id].m]
        o == Wit(e)
        pts == LinPoints(e)
        q == ProcIdx(m, e.proc)
        np == Len(m.procs)
        total == e.npts * e.nexp
        \* the attempts whose minimisation did not fail
        tries == SelectSeq([a \in 1 .. Len(o.att) |-> a], LAMBDA a : ~o.nat[a])
        good == /\ Len(o.pts) = e.npts /\ Len(o.means) = e.npts /\ Len(o.stds) = e.npts
                /\ Len(tries) = total /\ Len(o.x0) = Len(o.att)
                /\ \A a \in 1 .. Len(o.att) : GoodData(m, o.att[a])
        Toy(p, a) == tries[(p - 1) * e.nexp + a]
        \* the fitted yield of a toy of point p, by the specification
        Fitted(p, a) ==
            LET TT == LinStateT(e, pts[p])
                ids == Tab(Len(m.chans), LAMBDA c : "toy#" \o m.chans[c].name)
                m2 == SetData(m, [c \in 1 .. Len(m.chans) |-> <<m.chans[c].name, ids[c]>>])
                H2 == PutAll(H, ids, LAMBDA c : MkData(ChanEdges(m, c), o.att[Toy(p, a)][c], "1", {}))
                r == NllMin(m2, TT, H2, StartValues(m, TT), [i \in 1 .. np |-> i])
            IN IF r.ok THEN <<r.x[q]>> ELSE <<>>
        Start(p) == StartValues(m, LinStateT(e, pts[p]))
        At(p) == Concat(Tab(e.nexp, LAMBDA a : Fitted(p, a)))
        conv(p) == \A a \in 1 .. e.nexp : o.conv[Toy(p, a)]
    IN << Fact({"Y02"}, "shape", good) >>
       \o SelectSeq(StudyUnchanged(e, m, T, {"Y02"}), LAMBDA c : c.f \notin {"tyields", "tnui"})
       \o (IF ~good THEN <<>> ELSE
           << Vec({"Y02"}, "pts", pts, "1e-10", "1e-10"),
              Fact({"Y02"}, "model at every point", \A p \in 1 .. e.npts : LET s == Start(p) IN
                   \A a \in 1 .. e.nexp : VClose(s, o.x0[Toy(p, a)], "1e-10", "1e-9")),
              Fact({"Y02"}, "mean and deviation", \A p \in 1 .. e.npts :
                   LET v == At(p) IN conv(p) /\ Len(v) = e.nexp =>
                     LET sd == DAdd(VStd(v), DMul("0.2", DSqrt(DAdd("1", DAbs(VMean(v)))))) IN
                       /\ DClose(o.means[p], VMean(v), "0", DMul("0.08", sd))
                       /\ DClose(o.stds[p], VStd(v), "0", DMul("0.08", sd))) >>)

\* e: id, proc
YResClauses(e) ==
    LET y == Y[e.id] m == M[y.m] q == ProcIdx(m, e.proc) IN
    << VecN({"Y03"}, "par", Tab(Len(y.par), LAMBDA k : y.par[k][q]), "0", "0"),
       VecN({"Y03"}, "unc", Tab(Len(y.unc), LAMBDA k : y.unc[k][q]), "0", "0") >>
YPullClauses(e) ==
    LET y == Y[e.id] m == M[y.m] q == ProcIdx(m, e.proc)
        now == ProcYield(m, T, e.proc)
    IN << VecN({"Y03"}, "pulls", Tab(Len(y.par), LAMBDA k :
            DDiv(DSub(y.par[k][q], now), y.unc[k][q])), "1e-9", "1e-9") >>

\* ---- statistics and helpers ----
GofClauses(e) ==
    LET s == IF e.op = "s_pearson" THEN Pearson(e.n, e.nu)
             ELSE IF e.op = "s_default" THEN ChiSquare(e.n, e.nu, e.u) ELSE LikelihoodRatio(e.n, e.nu)
        \* rounding of the differences
        rd(i) == DMul("1e-15", DDiv(DAdd(DAbs(e.n[i]), DAbs(e.nu[i])), e.u[i]))
        sc == IF e.op = "s_default"
              THEN DMul("1e13", DSum(Tab(Len(e.n), LAMBDA i :
                     DMul(rd(i), DAdd(rd(i), DAbs(DDiv(DSub(e.n[i], e.nu[i]), e.u[i])))))))
              ELSE DAdd(DSum(VAbs(e.n)), DSum(VAbs(e.nu)))
        \* the p-value that belongs to the reported statistic
        p == Chi2Sf(IF DFinite(Wit(e).stat) /\ DLe("0", Wit(e).stat) THEN Wit(e).stat ELSE s, e.dof)
    IN << Num({"S01"}, "stat", s, "1e-9", DMul("1e-13", sc)),
          Num({"S01"}, "ratio", DDiv(s, DFromInt(e.dof)), "1e-9", DMul("1e-13", sc)),
          Num({"S01"}, "pval", p, "1e-7", "1e-300") >>

UtilClauses(e) ==
    CASE e.op = "u_cov2corr" -> << Mat({"U01"}, "m", Cov2Corr(e.m), "1e-10", "1e-12"),
                                   Mat({"U01"}, "back", e.m, "1e-9", DMul("1e-12", MScaleOf(e.m))) >>
      [] e.op = "u_corr2cov" -> << Mat({"U01"}, "m", Corr2Cov(e.m, e.s), "1e-10", "1e-300"),
                                   Mat({"U01"}, "back", e.m, "1e-9", "1e-12") >>
      [] e.op = "u_xlogyx"   -> << Fact({"U01"}, "v", Len(Wit(e).v) = Len(e.x) /\ \A i \in 1 .. Len(e.x) :
                                     LET t == XLogYX(e.x[i], e.y[i])
                                     IN DClose(Wit(e).v[i], t, "1e-9", IF DLt(e.x[i], "1e-90") THEN "1e-80" ELSE "0")) >>
      [] e.op = "u_split"    -> << Vecs({"U01"}, "parts", SplitInto(e.s, e.sizes)) >>
      [] e.op = "u_varcov"   -> << Mat({"T03"}, "m", VarCov([n |-> e.nom], e.up, e.dn), "1e-9", DMul("1e-12", MScaleOf(VarCov([n |-> e.nom], e.up, e.dn)))) >>

\* ---- plots ----
\* a filled step histogram is reported as the heights over the bins, a band as
\* lower ends and heights
BandLo(v, e) == VSub(v, e)
Band2(e) == VScale("2", e)
PTol(v) == DAdd(DMul("1e-8", VMaxAbs(v)), "1e-12")
StepClauses(tag, heights, edges) ==
    << Vec({"P01"}, tag, heights, "1e-8", PTol(heights)) >>
BandClauses(mid, err, edges) ==
    << Vec({"P01"}, "bandlo", VSub(mid, err), "1e-8", DAdd(PTol(mid), PTol(err))),
       Vec({"P01"}, "bandh", VScale("2", err), "1e-7", DAdd(PTol(err), DMul("1e-13", VMaxAbs(mid)))),
       Vec({"P01"}, "bandx", Mids(edges), "1e-8", DMul("1e-8", VMaxAbs(edges))),
       Vec({"P01"}, "bandw", Widths(edges), "1e-6", DMul("1e-9", VMaxAbs(edges))) >>
EdgeClause(edges) == << Vec({"P01"}, "edges", edges, "1e-9", DMul("1e-9", VMaxAbs(edges))) >>

\* in its colour, if it has one
ColorClause(t) == IF t.color = "" THEN <<>> ELSE << Is({"P01"}, "color", t.color) >>
PlotTClauses(e) ==
    LET t == T[e.t] v == TValues(t)
    IN StepClauses("vals", v, t.edges[1]) \o EdgeClause(t.edges[1]) \o BandClauses(v, TErrors(t), t.edges[1])
       \o << Is({"P01"}, "label", t.label), Is({"P01"}, "axtext", t.axes) >> \o ColorClause(t)
PlotProjClauses(e) ==
    LET t == T[e.t] nx == t.shape[1] ny == t.shape[2]
        S(f) == IF e.axis = 1 THEN RowSums(f, nx, ny) ELSE ColSums(f, nx, ny)
        v == S(TValues(t)) er == VSqrt(S(VSq(TErrors(t))))
        ed == t.edges[e.axis]
    IN StepClauses("vals", v, ed) \o EdgeClause(ed) \o BandClauses(v, er, ed)
       \o << Is({"P01"}, "label", t.label), Is({"P01"}, "axtext", <<t.axes[e.axis]>>) >> \o ColorClause(t)
Plot2Clauses(e) ==
    LET t == T[e.t] v == TValues(t)
    IN << Vec({"P01"}, "cells", v, "1e-8", PTol(v)),
          C({"P01"}, "axes", "mat", t.edges, "1e-9", "1e-9"),
          Is({"P01"}, "label", t.label), Is({"P01"}, "axtext", t.axes) >>
StackOf(vs) == FoldLeft(LAMBDA acc, v : Append(acc, IF acc = <<>> THEN v ELSE VAdd(acc[Len(acc)], v)), <<>>, vs)
PlotDataClauses(m, c) ==
    IF m.chans[c].data = "" THEN << Is({"P01"}, "hasdata", FALSE) >>
    ELSE LET h == H[m.chans[c].data]
         IN << Is({"P01"}, "hasdata", TRUE),
               Vec({"P01"}, "datax", Mids(h.edges[1]), "1e-8", "1e-9"),
               Vec({"P01"}, "datay", h.cnt, "1e-8", PTol(h.cnt)),
               Vec({"P01"}, "datalo", VSub(h.cnt, VSqrt(h.esq)), "1e-7", PTol(h.cnt)),
               Vec({"P01"}, "datahi", VAdd(h.cnt, VSqrt(h.esq)), "1e-7", PTol(h.cnt)) >>
\* e: m, chan, mode: "now", "propagate" or "scale"; names, x, cov, err
PlotStackClauses(e) ==
    LET m == M[e.m] c == ChanIdx(m, e.chan) ch == m.chans[c]
        K == Len(ch.ts)
        vs == Tab(K, LAMBDA k : TValues(T[ch.ts[k].t]))
        es == Tab(K, LAMBDA k : TErrors(T[ch.ts[k].t]))
        edges == T[ch.ts[1].t].edges[1]
        tot == ChanNow(m, T, c)
        nb == ChanBins(ch)
        names == ParamNames(m)
        now == VSqrt(VSumAll(nb, Tab(K, LAMBDA k : VSq(es[k]))))
        n == NumPar(m)
        pos == [i \in 1 .. n |-> CHOOSE k \in 1 .. n : e.names[k] = names[i]]
        prop == VSqrt(MDiagOf(PostFitCov(m, T, [i \in 1 .. n |-> e.x[pos[i]]],
                                         [i \in 1 .. n |-> [j \in 1 .. n |-> e.cov[pos[i]][pos[j]]]], c)))
        scale == VSqrt(VSumAll(nb, Tab(K, LAMBDA k :
                   VSq(VMul(es[k], Slice([i \in 1 .. n |-> e.err[pos[i]]], NuiOffset(m, c, k) + 1, nb))))))
        band == IF e.mode = "now" THEN now ELSE IF e.mode = "propagate" THEN prop ELSE scale
        stack == StackOf(vs)
    IN << C({"P01"}, "stack", "mat", stack, "1e-8", DAdd(PTol(tot), PTol(Concat(vs)))) >>
       \o EdgeClause(edges)
       \o << Vec({"P01"}, "bandlo", VSub(tot, band), "1e-4", DAdd(DMul("1e-4", VMaxAbs(band)), PTol(tot))),
             Vec({"P01"}, "bandh", VScale("2", band), "1e-4", DAdd(DMul("1e-4", VMaxAbs(band)), DMul("1e-12", VMaxAbs(tot)))),
             Vec({"P01"}, "bandx", Mids(edges), "1e-8", "1e-9"),
             Vec({"P01"}, "bandw", Widths(edges), "1e-6", "1e-9") >>
       \o << Is({"P01"}, "labels", Tab(K, LAMBDA k : T[ch.ts[k].t].label)) >>
       \o (IF \E k \in 1 .. K : T[ch.ts[k].t].color = "" THEN <<>> ELSE
           << Is({"P01"}, "colors", Tab(K, LAMBDA k : T[ch.ts[k].t].color)) >>)
       \o PlotDataClauses(m, c)

\* plotting changes nothing
TmplUnchanged(t) ==
    << Vec({"P01"}, "aparams", <<t.y>> \o t.th, "1e-11", "1e-300"), Is({"P01"}, "ancovs", Len(t.covs)),
       Mat({"P01"}, "acov", t.cov, "1e-9", DMul("1e-10", MScaleOf(t.cov))),
       Vecs({"P01"}, "aedges", t.edges) >>

\* ---- legacy ----
\* relative errors, where there is content; a small number takes the place of zero
LegRel(h, r) ==
    LET c == h.cnt er == VSqrt(h.esq) IN
    Len(r) = Len(c) /\ \A i \in 1 .. Len(c) :
        DLt(DMul("1e-6", h.mag[i]), DAbs(c[i])) =>
            DClose(r[i], IF DEq(er[i], "0") THEN "1e-7" ELSE DDiv(er[i], c[i]), "1e-5", "1e-300")
LHClauses(h, e) ==
    << VecT({"L01"}, "cnt", h.cnt, VMap(h.mag, LAMBDA m : DAdd(DMul("1e-12", m), "1e-300"))),
       Vec({"L01"}, "esq", h.esq, "1e-11", "1e-300"),
       Vec({"L01"}, "err", VSqrt(h.esq), "1e-10", "1e-200"),
       Vecs({"L01"}, "edges", h.edges),
       C({"L01"}, "mids", "mat", IF h.dim = 1 THEN <<Mids(h.edges[1])>> ELSE <<>>, "1e-12", DMul("1e-14", MScaleOf(h.edges))),
       Is({"L01"}, "nb", h.shape) >>
    \o (IF h.kind = "hist" THEN << Fact({"L01"}, "rel", LegRel(h, Wit(e).rel)), Vec({"L01"}, "ent", h.ent, "0", "0"),
                                   C({"L01"}, "lim", "mat", [i \in 1 .. 2 |-> HRange(h)[1]], "1e-12", DMul("1e-14", MScaleOf(h.edges))) >> ELSE <<>>)
    \o (IF h.dim = 1 THEN << Num({"L01"}, "width", Widths(h.edges[1])[1], "1e-9", DMul("1e-12", MScaleOf(h.edges))) >>
        ELSE LET px == HProject(h, 1) py == HProject(h, 2)
             IN << Vec({"L01"}, "px", px.cnt, "1e-9", DMul("1e-11", VMaxAbs(px.mag))),
                   Vec({"L01"}, "py", py.cnt, "1e-9", DMul("1e-11", VMaxAbs(py.mag))),
                   Vec({"L01"}, "pxe", VSqrt(px.esq), "1e-9", "1e-200"),
                   Vec({"L01"}, "pye", VSqrt(py.esq), "1e-9", "1e-200"),
                   C({"L01"}, "lim", "mat", HRange(h), "1e-12", DMul("1e-14", MScaleOf(h.edges))),
                   Vecs({"L01"}, "xyedges", h.edges) >>)

\* whole numbers next to v
Rounded(x, v) == Len(x) = Len(v) /\ \A i \in 1 .. Len(v) :
    DFinite(x[i]) /\ DEq(x[i], DRound(x[i])) /\ DLe(DAbs(DSub(x[i], v[i])), DAdd("0.5", DMul("1e-9", VMaxAbs(v))))
LTClauses(t, e) ==
    LET v == TValues(t) er == TErrors(t) IN
    << Num({"L02"}, "yield", t.y, "1e-11", "1e-300"), Num({"L02"}, "yerr", t.ye, "1e-10", "1e-300"),
       Vec({"L02"}, "par", <<t.y, t.ye>>, "1e-10", "1e-300"),
       C({"L02"}, "npar", "mat", <<t.th, t.the>>, "1e-12", "1e-300"),
       Vec({"L02"}, "nui", t.th, "1e-12", "1e-300"), Vec({"L02"}, "nuierr", t.the, "1e-12", "1e-300"),
       Vec({"L02"}, "vals", v, "1e-9", DAdd("1e-200", DMul("1e-9", VMaxAbs(v)))),
       Vec({"L02"}, "errs", er, "1e-8", DAdd("1e-200", DMul("1e-9", VMaxAbs(er)))),
       Mat({"L02"}, "cov", t.cov, "1e-9", DMul("1e-10", MScaleOf(t.cov))),
       Mat({"L02"}, "corr", TCorr(t), "1e-8", "1e-9"),
       Mat({"L02"}, "inv", t.rinv, "1e-6", DMul("1e-6", MScaleOf(t.rinv))),
       Vec({"L02"}, "asimov", v, "1e-9", DAdd("1e-200", DMul("1e-9", VMaxAbs(v)))),
       Fact({"L02"}, "asiint", Rounded(Wit(e).asiint, v)),
       Vecs({"L02"}, "edges", t.edges), Vec({"L02"}, "mids", Mids(t.edges[1]), "1e-12", DMul("1e-14", MScaleOf(t.edges))),
       Num({"L02"}, "width", Widths(t.edges[1])[1], "1e-9", DMul("1e-12", MScaleOf(t.edges))),
       Is({"L02"}, "name", t.name), Is({"L02"}, "var", t.var), Is({"L02"}, "nb", TSize(t)),
       Vec({"L02"}, "lim", t.rng, "0", "0") >>
LSNames(s, L) == Tab(Len(s.mem), LAMBDA k : L[s.mem[k][2]].name)
LSClauses(s, L, e) ==
    LET v == LSNow(s, L)
        er == VSqrt(VSumAll(s.nb, Tab(Len(s.mem), LAMBDA k : VSq(TErrors(L[s.mem[k][2]])))))
    IN << Is({"L02"}, "num", Len(s.mem)), Vecs({"L02"}, "edges", <<s.edges>>),
          Vec({"L02"}, "mids", Mids(s.edges), "1e-12", DMul("1e-14", MScaleOf(<<s.edges>>))),
          Num({"L02"}, "width", Widths(s.edges)[1], "1e-9", DMul("1e-12", MScaleOf(<<s.edges>>))) >>
       \o (IF Len(s.mem) = 0 THEN <<>> ELSE
           << Vec({"L02"}, "ys", Tab(Len(s.mem), LAMBDA k : L[s.mem[k][2]].y), "1e-11", "1e-300"),
              Vec({"L02"}, "yes", Tab(Len(s.mem), LAMBDA k : L[s.mem[k][2]].ye), "1e-10", "1e-300"),
              C({"L02"}, "yps", "mat", Tab(Len(s.mem), LAMBDA k : <<L[s.mem[k][2]].y, L[s.mem[k][2]].ye>>), "1e-10", "1e-300"),
              C({"L02"}, "nps", "mat", Tab(Len(s.mem), LAMBDA k : L[s.mem[k][2]].th), "1e-12", "1e-300"),
              C({"L02"}, "nui", "mat", Tab(Len(s.mem), LAMBDA k : L[s.mem[k][2]].th), "1e-12", "1e-300"),
              C({"L02"}, "nuierr", "mat", Tab(Len(s.mem), LAMBDA k : L[s.mem[k][2]].the), "1e-12", "1e-300"),
              Vec({"L02"}, "vals", v, "1e-9", DAdd("1e-200", DMul("1e-9", VMaxAbs(v)))),
              Vec({"L02"}, "errs", er, "1e-8", DAdd("1e-200", DMul("1e-9", VMaxAbs(er)))),
              Vec({"L02"}, "asimov", v, "1e-9", DAdd("1e-200", DMul("1e-9", VMaxAbs(v)))),
              Fact({"L02"}, "asiint", Rounded(Wit(e).asiint, v)),
              Is({"L02"}, "names", LSNames(s, L)),
              Fact({"L02"}, "invs", Len(Wit(e).invs) = Len(s.mem) /\ \A k \in 1 .. Len(s.mem) :
                LET ri == L[s.mem[k][2]].rinv IN MClose(ri, Wit(e).invs[k], "1e-6", DMul("1e-6", MScaleOf(ri)))),
              Vecs({"L02"}, "asiedges", <<s.edges>>) >>)
LSParamNames(s, L) ==
    [k \in 1 .. Len(s.mem) |-> LSNames(s, L)[k] \o "_yield"]
    \o Concat(Tab(Len(s.mem), LAMBDA k : Tab(s.nb, LAMBDA b : LSNames(s, L)[k] \o "_nui_" \o ToString(b - 1))))
\* e: s, data, x
LNllClauses(e) ==
    LET s == LS[e.id] nu == LSExp(s, LT, e.x)
        \* observed where nothing can be
        imp == \E i \in 1 .. Len(nu) : DLt("0", e.data[i]) /\ DLt(nu[i], DNeg(DMul("1e-9", VMaxAbs(nu))))
    IN (IF imp THEN << Is({"L02"}, "nll", "inf") >>
        ELSE IF \E i \in 1 .. Len(nu) : ~DLt("0", nu[i]) /\ (~IsZero(nu[i]) \/ ~IsZero(e.data[i])) THEN <<>>
        ELSE << Num({"L02"}, "nll", LSNll(s, LT, e.data, e.x), "1e-9",
                   DMul("1e-9", DAdd("1", DAdd(DSum(nu), DSum(e.data))))) >>)
       \o << Vec({"L02"}, "x0", Tab(Len(s.mem), LAMBDA k : LT[s.mem[k][2]].y)
                                 \o Concat(Tab(Len(s.mem), LAMBDA k : LT[s.mem[k][2]].th)), "1e-11", "1e-300"),
             Is({"L02"}, "names", LSParamNames(s, LT)) >>
\* toy data of a legacy template or stack
LNowOf(e) == IF e.what = "t" THEN TValues(LT[e.id]) ELSE LSNow(LS[e.id], LT)
LToyClauses(e) == PoissonClauses({"L02"}, LNowOf(e), e)
                  \o << Is({"L02"}, "shape", IF e.what = "t" THEN LT[e.id].shape ELSE <<LS[e.id].nb>>),
                        Vec({"L02"}, "edges", IF e.what = "t" THEN LT[e.id].edges[1] ELSE LS[e.id].edges, "0", "0") >>
PlotLTClauses(e) ==
    LET t == LT[e.t] v == TValues(t)
    IN StepClauses("vals", v, t.edges[1]) \o EdgeClause(t.edges[1]) \o BandClauses(v, TErrors(t), t.edges[1])
       \o << Num({"P01"}, "yield", t.y, "1e-11", "1e-300"), Vec({"P01"}, "nui", t.th, "1e-12", "1e-300"),
             Mat({"P01"}, "cov", t.cov, "1e-9", DMul("1e-10", MScaleOf(t.cov))) >>
PlotLSClauses(e) ==
    LET s == LS[e.id] K == Len(s.mem)
        vs == Tab(K, LAMBDA k : TValues(LT[s.mem[k][2]]))
        er == VSqrt(VSumAll(s.nb, Tab(K, LAMBDA k : VSq(TErrors(LT[s.mem[k][2]])))))
        tot == LSNow(s, LT)
    IN << C({"P01"}, "stack", "mat", StackOf(vs), "1e-8", DAdd(PTol(tot), PTol(Concat(vs)))),
          Is({"P01"}, "labels", LSNames(s, LT)) >>
       \o EdgeClause(s.edges) \o BandClauses(tot, er, s.edges)
       \o << C({"P01"}, "after", "mat", << Tab(K, LAMBDA k : LT[s.mem[k][2]].y) \o Concat(Tab(K, LAMBDA k : LT[s.mem[k][2]].th)) >>,
               "1e-11", "1e-300") >>

-----------------------------------------------------------------------------
HistOps == {"h_new", "h_fill", "h_binned", "h_proj", "h_obs"}
TmplOps == {"t_new", "t_addcov", "t_addvar", "t_setyield", "t_setnui", "t_setparams", "t_reset", "t_obs"}
ModelOps == {"m_new", "m_chan", "m_proc", "m_templ", "m_data", "m_constr", "m_setyield", "m_update",
             "m_reset", "m_obs"}
LegHOps == {"lh_new", "lh_fill", "lh_scale", "lh_binned", "lh_obs"}
LegTOps == {"lt_new", "lt_addcov", "lt_reset", "lt_set", "lt_obs"}
LegSOps == {"ls_new", "ls_add", "ls_create", "ls_update", "ls_reset", "ls_obs"}

Expected(e) ==
    CASE e.op \in HistOps -> HClauses(H'[e.id]) \o IF e.op = "h_new" THEN HEdgesClause(e) ELSE <<>>
      [] e.op \in TmplOps -> TClauses(T'[e.id], Wit(e))
      [] e.op = "t_frac" -> << Vec({"T01"}, "frac", Fractions(T[e.id], e.th), "1e-9", "1e-9") >>
      [] e.op \in ModelOps -> MClauses(M'[e.id], T', H', IF e.op \in {"m_update", "m_obs"} THEN {"M02"} ELSE {})
      [] e.op \in {"ch_update", "ch_reset"} -> MClauses(M[e.m], T', H, IF e.op = "ch_update" THEN {"M02"} ELSE {"M03"})
      [] e.op = "ch_obs" -> ChanClauses(M[e.m], ChanIdx(M[e.m], e.chan))
      [] e.op = "ch_nll" -> ChNllClauses(e)
      [] e.op = "m_index" -> << Is({"M02"}, "i", ProcIdx(M[e.id], e.proc) - 1) >>
      [] e.op = "m_getyield" -> << Num({"M03"}, "y", ProcYield(M[e.id], T, e.proc), "1e-10", MScaleVec(ProcYields(M[e.id], T))) >>
      [] e.op = "m_route" -> RouteClauses(M[e.id], e.x)
      [] e.op = "m_counts" -> << Vec({"M02", "M04"}, "counts", ChanExpAt(M[e.id], T, VNorm(e.x), ChanIdx(M[e.id], e.chan)),
                                     "1e-9", "1e-9") >>
      [] e.op = "n_call" -> NllClauses(M[N[e.id]], T, H, VNorm(e.x), ToSet(e.p))
                            \o ModelUnchanged(e, M[N[e.id]], T, H, {"M04"}) \o << Is({"M04"}, "xsame", TRUE) >>
      [] e.op = "n_obs" -> << Is({"M02"}, "names", ParamNames(M[N[e.id]])),
                              Vec({"M02"}, "x0", StartValues(M[N[e.id]], T), "1e-10", MScaleVec(ProcYields(M[N[e.id]], T))) >>
      [] e.op = "m_asimov" -> AsimovClauses(e)
      [] e.op = "m_toy" -> ToyClauses(e)
      [] e.op = "m_toystat" -> ToyStatClauses(e)
      [] e.op = "c_prop" -> PropClauses(e)
      [] e.op \in {"p_new", "p_setvals", "p_seterrs", "p_obs"} -> PClauses(P'[e.id])
      [] e.op = "p_get" -> << Num({"F06"}, "v", P[e.id].vals[ParIdx(P[e.id].names, e.par)], "0", "0"),
                              Num({"F06"}, "e", P[e.id].errs[ParIdx(P[e.id].names, e.par)], "0", "0"),
                              Is({"F06"}, "i", ParIdx(P[e.id].names, e.par) - 1) >>
      [] e.op = "f_fit" -> FitClauses(e)
      [] e.op = "f_result" ->
            LET r == F[e.id].res IN
            << Vec({"F02"}, "x", r.x, "0", "0"), VecN({"F02"}, "err", r.err, "0", "0"), Is({"F02", "F06"}, "names", r.names),
               Fact({"F02"}, "cov", Wit(e).cov = r.cov), Vec({"F06"}, "byname", r.x, "0", "0"), Vec({"F06"}, "byidx", r.x, "0", "0") >>
      [] e.op = "z_min" -> ZMinClauses(e)
      [] e.op = "f_profile" -> ProfileClauses(e)
      [] e.op = "f_signif" -> SignifClauses(e)
      [] e.op = "y_run" -> YRunClauses(e)
      [] e.op = "y_lin" -> YLinClauses(e)
      [] e.op = "y_results" -> YResClauses(e)
      [] e.op = "y_pulls" -> YPullClauses(e)
      [] e.op \in {"s_pearson", "s_cowan", "s_default"} -> GofClauses(e)
      [] e.op \in {"u_cov2corr", "u_corr2cov", "u_xlogyx", "u_split", "u_varcov"} -> UtilClauses(e)
      [] e.op = "pl_t" -> PlotTClauses(e) \o TmplUnchanged(T[e.t])
      [] e.op = "pl_proj" -> PlotProjClauses(e) \o TmplUnchanged(T[e.t])
      [] e.op = "pl_2d" -> Plot2Clauses(e) \o TmplUnchanged(T[e.t])
      [] e.op = "pl_stack" -> PlotStackClauses(e) \o ModelUnchanged(e, M[e.m], T, H, {"P01"})
      [] e.op \in LegHOps -> LHClauses(LH'[e.id], e)
      [] e.op \in LegTOps -> LTClauses(LT'[e.id], e)
      [] e.op \in LegSOps -> LSClauses(LS'[e.id], LT', e)
      [] e.op = "ln_call" -> LNllClauses(e)
      [] e.op = "ln_toystat" -> LToyClauses(e)
      [] e.op = "pl_lt" -> PlotLTClauses(e)
      [] e.op = "pl_ls" -> PlotLSClauses(e)
      [] e.op = "args" -> << Is({"H03", "T04", "L01", "L02"}, "changed", <<>>) >>
      [] OTHER -> <<>>

\* what is visible after a rejected call
AfterReject(e) ==
    CASE e.op = "h_fill" -> HClauses(H[e.id])
      [] e.op \in {"t_addcov", "t_setyield", "t_setnui", "t_setparams"} -> TClauses(T[e.id], Wit(e))
      [] e.op \in {"m_proc", "m_templ", "m_data", "m_constr", "m_setyield"} -> MClauses(M[e.id], T, H, {"M01"})
      [] e.op \in {"f_fit", "f_profile", "f_signif", "f_failfit"} -> ModelUnchanged(e, M[F[e.id].m], T, H, {"F03"})
      [] e.op \in {"p_setvals", "p_seterrs"} -> PClauses(P[e.id])
      [] e.op = "y_run" -> YRunClauses(e)
      [] e.op = "lh_fill" -> LHClauses(LH[e.id], e)
      [] e.op = "m_update" -> MClauses(M[e.id], T, H, {"M02"})
      [] e.op = "ch_update" -> MClauses(M[e.m], T, H, {"M02"})
      [] e.op = "n_call" -> ModelUnchanged(e, M[N[e.id]], T, H, {"M04"})
      [] e.op \in {"ls_add", "ls_update"} -> LSClauses(LS[e.id], LT, e)
      [] OTHER -> <<>>
\* all clauses of a rejected call witness that it had no effect
RejectProps(e) ==
    CASE e.op \in {"m_proc", "m_templ", "m_data", "m_constr", "m_setyield"} -> {"M01"}
      [] e.op \in {"t_addcov"} -> {"T03", "T02"}
      [] e.op \in {"t_setyield", "t_setnui", "t_setparams"} -> {"T04"}
      [] e.op \in {"f_fit", "f_profile", "f_signif", "f_failfit"} -> {"F03"}
      [] e.op \in {"m_update", "ch_update"} -> {"M02"}
      [] e.op = "n_call" -> {"M04"}
      [] e.op = "ls_update" -> {"L02"}
      [] OTHER -> {}

\* properties that say whether a call is accepted, and that what it shows exists
CallProps(e) ==
    CASE e.op \in {"h_new", "h_fill"} -> (IF e.op = "h_new" THEN PFill(e.dim) ELSE H[e.id].p) \cup {"H04"}
      [] e.op = "h_binned" -> {"H03", "H04"}
      [] e.op = "h_proj" -> {"H02"}
      [] e.op = "h_obs" -> H[e.id].p \cup {"H04"}
      [] e.op \in {"t_new", "t_obs"} -> {"T01", "T02", "T04"}
      [] e.op = "t_frac" -> {"T01"}
      [] e.op = "t_addcov" -> {"T02", "T03"}
      [] e.op = "t_addvar" -> {"T03", "T02"}
      [] e.op \in {"t_setyield", "t_setnui", "t_setparams", "t_reset"} -> {"T04"}
      [] e.op \in {"m_new", "m_chan", "m_proc", "m_templ", "ch_obs"} -> {"M01"}
      \* data sets made by the model fit into it
      [] e.op = "m_data" -> {"M01"} \cup ((UNION {H[e.data[i][2]].p : i \in 1 .. Len(e.data)}) \cap {"M06", "M07"})
      [] e.op = "ch_update" -> {"M02"}
      [] e.op = "ch_reset" -> {"M03"}
      [] e.op = "ch_nll" -> {"M04", "M05"}
      [] e.op = "m_index" -> {"M01", "M02"}
      [] e.op = "m_constr" -> {"M01", "M04"}
      [] e.op = "m_obs" -> {"M01", "M02", "M03"}
      [] e.op \in {"m_setyield", "m_getyield", "m_reset"} -> {"M01", "M03"}
      [] e.op \in {"m_update", "m_route", "m_counts", "n_obs"} -> {"M02"}
      [] e.op = "n_new" -> {"M04"}
      [] e.op = "n_call" -> ToSet(e.p)
      [] e.op = "m_asimov" -> {"M06"}
      [] e.op \in {"m_toy", "m_toystat"} -> {"M07"}
      [] e.op = "c_prop" -> {"M08"}
      [] e.op \in {"p_new", "p_setvals", "p_seterrs", "p_get", "p_obs"} -> {"F06"}
      [] e.op \in {"f_fix", "f_bounds", "f_fixnui", "f_new"} -> {"F01"}
      [] e.op = "f_fit" -> {"F01", "F02", "F03", "F06"}
      [] e.op = "f_failfit" -> {"F03"}
      [] e.op = "f_result" -> {"F02"}
      [] e.op \in {"z_new", "z_release"} -> {"F01"}
      [] e.op \in {"z_fix", "z_bounds"} -> {"F01", "F06"}
      [] e.op = "z_min" -> {"F01", "F02"}
      [] e.op = "f_profile" -> {"F04"}
      [] e.op = "f_signif" -> {"F05"}
      [] e.op \in {"y_new", "y_run"} -> {"Y01"}
      [] e.op = "y_lin" -> {"Y02"}
      [] e.op \in {"y_results", "y_pulls"} -> {"Y03", "Y01"}
      [] e.op \in {"s_pearson", "s_cowan", "s_default"} -> {"S01"}
      [] e.op \in {"u_cov2corr", "u_corr2cov", "u_xlogyx", "u_split"} -> {"U01"}
      [] e.op = "u_varcov" -> {"T03"}
      [] e.op \in {"pl_t", "pl_proj", "pl_2d", "pl_stack", "pl_lt", "pl_ls"} -> {"P01"}
      [] e.op \in LegHOps -> {"L01"}
      [] e.op \in LegTOps \cup LegSOps \cup {"ln_call", "ln_toystat"} -> {"L02"}
      [] OTHER -> {}
=============================================================================
