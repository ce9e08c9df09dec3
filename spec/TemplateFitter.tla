--------------------------- MODULE TemplateFitter ---------------------------
(* The system: all objects a user of the package holds, and one action per
   call of its interface.  A call is a record e with the field op (the name of
   the operation), the arguments, and - if it was observed in the
   implementation - the field out with the outcome:
     out.ok    whether the call returned (FALSE: it raised an exception)
     out.val   what was returned or is visible afterwards
   Accept(e) says whether the call has to be accepted; a rejected call changes
   nothing.  Do(e) is the next-state relation.  Results that the specification
   leaves open (draws of toy data, the last digits of bin edges, the values a
   minimiser finds) are taken from e.out.val; the module Expect states what
   they have to satisfy.                                                      *)
EXTENDS FitCore, StatsCore, ToyCore

VARIABLES
    H,   \* histograms          id -> histogram (HistCore), plus p, rng
    T,   \* templates           id -> template (TemplateCore), plus name, var
    M,   \* models              id -> model (ModelCore)
    N,   \* likelihood objects  id -> id of a model
    F,   \* fitters             id -> settings and last result
    Y,   \* toy studies         id -> [m, fitted, res]
    P,   \* parameter containers id -> [names, vals, errs]
    Z,   \* minimisers         id -> [names, min, q, fix, bnd]
    LH,  \* legacy histograms
    LT,  \* legacy templates
    LS   \* legacy stacks
vars == <<H, T, M, N, F, Y, P, Z, LH, LT, LS>>

Nothing == [x \in {} |-> 0]
Init == /\ H = Nothing /\ T = Nothing /\ M = Nothing /\ N = Nothing /\ F = Nothing
        /\ Y = Nothing /\ P = Nothing /\ Z = Nothing /\ LH = Nothing /\ LT = Nothing /\ LS = Nothing

Put(f, id, v) == [x \in DOMAIN f \cup {id} |-> IF x = id THEN v ELSE f[x]]
PutAll(f, ids, v(_)) == [x \in DOMAIN f \cup ToSet(ids) |->
                            IF x \in ToSet(ids) THEN v(IndexIn(ids, x)) ELSE f[x]]
Observed(e) == "out" \in DOMAIN e
Wit(e) == e.out.val

ModelVars == <<M, N, F, Y, P, Z>>
LegVars == <<LH, LT, LS>>

-----------------------------------------------------------------------------
(* Histograms *)

EdgesFor(e) ==
    IF e.bk = "edges" THEN Tab(e.dim, LAMBDA a : VNorm(e.edges[a]))
    ELSE Tab(e.dim, LAMBDA a :
           IF /\ Observed(e) /\ e.out.ok
              /\ Len(Wit(e).edges) = e.dim
              /\ EdgesAgree(Wit(e).edges[a], e.rng[a][1], e.rng[a][2], e.nb[a])
           THEN VNorm(Wit(e).edges[a])
           ELSE EqualEdges(e.rng[a][1], e.rng[a][2], e.nb[a]))
PFill(dim) == IF dim = 1 THEN {"H01"} ELSE {"H02"}
Own(h, p) == [f \in DOMAIN h \cup {"p"} |-> IF f = "p" THEN p ELSE h[f]]

\* e: id, dim, bk, nb, rng, edges, hasdata, cols, hasw, w, junk
HNewOk(e) == e.hasdata => FillOk(HEmpty(EdgesFor(e)), e.cols, e.hasw, e.w, e.junk)
HNewVal(e) ==
    LET h == HEmpty(EdgesFor(e))
    IN Own(IF e.hasdata THEN HFill(h, e.cols, FillWeights(Len(e.cols[1]), e.hasw, e.w)) ELSE h,
           PFill(e.dim))
HNew(e) == H' = Put(H, e.id, HNewVal(e)) /\ UNCHANGED <<T, ModelVars, LegVars>>

\* e: id, cols, hasw, w, junk
HFillCall(e) ==
    /\ H' = [H EXCEPT ![e.id] = Own(HFill(@, e.cols, FillWeights(Len(e.cols[1]), e.hasw, e.w)),
                                    @.p \cup PFill(@.dim))]
    /\ UNCHANGED <<T, ModelVars, LegVars>>

\* e: id, edges, counts, haserr, errs
HBinned(e) ==
    /\ H' = Put(H, e.id, Own(HFromBinned(Tab(Len(e.edges), LAMBDA a : VNorm(e.edges[a])), e.counts,
                                IF e.haserr THEN e.errs ELSE VSqrt(e.counts)), {"H03"}))
    /\ UNCHANGED <<T, ModelVars, LegVars>>

\* e: id, src, axis
HProjCall(e) == /\ H' = Put(H, e.id, Own(HProject(H[e.src], e.axis), {"H02"}))
                /\ UNCHANGED <<T, ModelVars, LegVars>>

-----------------------------------------------------------------------------
(* Templates *)

\* e: id, h, name
\* what plots write next to it
KwOr(e, k, default) == IF "kw" \in DOMAIN e /\ k \in DOMAIN e.kw THEN e.kw[k] ELSE default
TText(t, e) ==
    [f \in DOMAIN t \cup {"label", "color", "axes", "sub"} |->
       IF f = "sub" THEN "sub" \in DOMAIN e /\ e.sub
       ELSE IF f = "label" THEN KwOr(e, "pretty_label", e.name)
       ELSE IF f = "color" THEN KwOr(e, "color", "")
       ELSE IF f = "axes" THEN IF t.dim = 1 THEN <<KwOr(e, "pretty_variable", "vx")>>
                               ELSE <<KwOr(e, "x_pretty_var", "vx"), KwOr(e, "y_pretty_var", "vy")>>
       ELSE t[f]]
TNewCall(e) == /\ T' = Put(T, e.id, TText(TNew(H[e.h]), e))
               /\ UNCHANGED <<H, ModelVars, LegVars>>
\* e: id, m
TAddCovCall(e) == /\ T' = [T EXCEPT ![e.id] = TAddCov(@, e.m)]
                  /\ UNCHANGED <<H, ModelVars, LegVars>>
\* e: id, cols, up, dn
TAddVarCall(e) == /\ T' = [T EXCEPT ![e.id] = TAddVar(@, e.cols, e.up, e.dn)]
                  /\ UNCHANGED <<H, ModelVars, LegVars>>
\* e: id, v (a sequence: a yield has one element)
TSetYield(e) == /\ T' = [T EXCEPT ![e.id].y = DNorm(e.v[1])]
                /\ UNCHANGED <<H, ModelVars, LegVars>>
TSetNui(e) == /\ T' = [T EXCEPT ![e.id].th = VNorm(e.v)]
              /\ UNCHANGED <<H, ModelVars, LegVars>>
TSetParams(e) == /\ T' = [T EXCEPT ![e.id].y = DNorm(e.v[1]), ![e.id].th = VNorm(Tail(e.v))]
                 /\ UNCHANGED <<H, ModelVars, LegVars>>
TResetCall(e) == /\ T' = [T EXCEPT ![e.id] = TReset(@)]
                 /\ UNCHANGED <<H, ModelVars, LegVars>>

-----------------------------------------------------------------------------
(* Models *)

OnlyM == UNCHANGED <<H, T, N, F, Y, P, Z, LegVars>>
MNew(e) == M' = Put(M, e.id, EmptyModel) /\ OnlyM
\* e: id, name, bins, rng.  A channel defined again starts from scratch, in
\* its old position.
MChan(e) ==
    LET ch == [name |-> e.name, bins |-> e.bins, data |-> "", ts |-> <<>>,
               rng |-> [a \in 1 .. Len(e.rng) |-> VNorm(e.rng[a])]]
        c == ChanIdx(M[e.id], e.name)
    IN M' = [M EXCEPT ![e.id].chans = IF c = 0 THEN Append(@, ch) ELSE [@ EXCEPT ![c] = ch]] /\ OnlyM
MProcOk(e) == e.name \notin ToSet(M[e.id].procs)
MProc(e) == M' = [M EXCEPT ![e.id].procs = Append(@, e.name)] /\ OnlyM
\* e: id, chan, proc, t, eff
MTemplOk(e) ==
    LET m == M[e.id] c == ChanIdx(m, e.chan) IN
    /\ c # 0 /\ e.proc \in ToSet(m.procs)
    /\ Fits(m.chans[c], T[e.t])
    /\ e.proc \notin ToSet(ProcsOf(m.chans[c]))
    /\ \A k \in 1 .. Len(m.chans[c].ts) : T[m.chans[c].ts[k].t].dim = T[e.t].dim
\* another class of templates than those the channel has (of the same dimension)
OtherType(e) ==
    LET m == M[e.id] c == ChanIdx(m, e.chan) IN
    \E k \in 1 .. Len(m.chans[c].ts) : T[m.chans[c].ts[k].t].sub # T[e.t].sub
MTempl(e) ==
    LET c == ChanIdx(M[e.id], e.chan)
    IN /\ M' = [M EXCEPT ![e.id].chans[c].ts =
                  Append(@, [proc |-> e.proc, t |-> e.t, eff |-> DNorm(e.eff)])]
       /\ OnlyM
\* e: id, data = sequence of <<channel, histogram>>
MDataOk(e) == \A i \in 1 .. Len(e.data) :
    LET c == ChanIdx(M[e.id], e.data[i][1]) IN c # 0 /\ Fits(M[e.id].chans[c], H[e.data[i][2]])
SetData(m, d) ==
    [m EXCEPT !.chans = [c \in 1 .. Len(@) |->
        LET s == SelectSeq(d, LAMBDA x : x[1] = @[c].name)
        IN IF s = <<>> THEN @[c] ELSE [@[c] EXCEPT !.data = s[Len(s)][2]]]]
MData(e) == M' = [M EXCEPT ![e.id] = SetData(@, e.data)] /\ OnlyM
\* e: id, proc, val, err
MConstrOk(e) == e.proc \in ToSet(M[e.id].procs)
AddConstr(m, p, v, s) ==
    LET q == IndexIn([i \in 1 .. Len(m.constr) |-> m.constr[i].proc], p)
        c == [proc |-> p, val |-> DNorm(v), err |-> DNorm(s)]
    IN [m EXCEPT !.constr = IF q = 0 THEN Append(@, c) ELSE [@ EXCEPT ![q] = c]]
MConstr(e) == M' = [M EXCEPT ![e.id] = AddConstr(@, e.proc, e.val, e.err)] /\ OnlyM

OnlyT == UNCHANGED <<H, ModelVars, LegVars>>
\* e: id, proc, v
MSetYieldOk(e) == e.proc \in ToSet(M[e.id].procs)
MSetYield(e) == T' = SetYieldT(M[e.id], T, e.proc, DNorm(e.v)) /\ OnlyT
\* e: id, x
MUpdate(e) == T' = UpdateT(M[e.id], T, VNorm(e.x)) /\ OnlyT
MReset(e) == T' = ResetT(M[e.id], T) /\ OnlyT
\* the same for one channel: m, chan, (ys: yields of its processes, th: their
\* nuisance parameters)
ChanUpdateT(m, c, TT, ys, th) ==
    LET nb == ChanBins(m.chans[c])
        W(acc, k) == LET e == m.chans[c].ts[k]
                     IN [acc EXCEPT ![e.t] = [@ EXCEPT !.y = DMul(ys[k], e.eff), !.th = VNorm(Slice(th, (k - 1) * nb + 1, nb))]]
    IN FoldLeft(W, TT, [k \in 1 .. Len(m.chans[c].ts) |-> k])
ChUpdate(e) == T' = ChanUpdateT(M[e.m], ChanIdx(M[e.m], e.chan), T, e.ys, e.th) /\ OnlyT
ChReset(e) == LET ts == M[e.m].chans[ChanIdx(M[e.m], e.chan)].ts IN
    /\ T' = [t \in DOMAIN T |-> IF \E k \in 1 .. Len(ts) : ts[k].t = t THEN TReset(T[t]) ELSE T[t]]
    /\ OnlyT
\* contribution of channel c of model m to the likelihood
ChNll(m, c, ys, ths) ==
    LET ch == m.chans[c] nb == ChanBins(ch)
        th(k) == Slice(ths, (k - 1) * nb + 1, nb)
        nu == ChanExp(ch, T, ys, th)
    IN [nu |-> nu, v |-> DAdd(ChanPoisson(H[ch.data].cnt, nu),
                              DSum(Tab(Len(ch.ts), LAMBDA k : GaussTerm(T[ch.ts[k].t], th(k)))))]

\* e: id (of the likelihood object), m
NNew(e) == N' = Put(N, e.id, e.m) /\ UNCHANGED <<H, T, M, F, Y, P, Z, LegVars>>

\* e: id, pre, int: data sets with ids pre \o channel
RoundAs(x, e, obs) ==  \* nearest integer; a tie within the rounding errors is open
    LET r == DRound(x)
        frac == DAbs(DSub(x, r))
    IN IF Observed(e) /\ DClose(frac, "0.5", "0", "1e-6") /\ DLe(DAbs(DSub(obs, x)), "0.5001") THEN DNorm(obs) ELSE r
DataIds(e) == Tab(Len(M[e.id].chans), LAMBDA c : e.pre \o M[e.id].chans[c].name)
ChanEdges(m, c) == T[m.chans[c].ts[1].t].edges
MkData(edges, counts, scale, p) ==
    LET h == HFromBinned(edges, counts, VSqrt(VMap(counts, LAMBDA v : DMax("0", v))))
    IN Own([h EXCEPT !.mag = VScale(scale, @)], p)
AsimovCounts(e, c) ==
    LET v == ChanNow(M[e.id], T, c)
    IN IF e.int THEN Tab(Len(v), LAMBDA i : RoundAs(v[i], e,
                       IF Observed(e) /\ e.out.ok /\ c <= Len(Wit(e).hists) /\ i <= Len(Wit(e).hists[c].cnt)
                       THEN Wit(e).hists[c].cnt[i] ELSE "0"))
       ELSE v
MAsimov(e) ==
    /\ H' = PutAll(H, DataIds(e), LAMBDA c : MkData(ChanEdges(M[e.id], c), AsimovCounts(e, c), "1000", {"M06"}))
    /\ UNCHANGED <<T, ModelVars, LegVars>>
\* nothing can be drawn where less than nothing is expected
ToyAccept(m) ==
    LET nu(c) == ChanNow(m, T, c)
        eps(c) == DMul("1e-9", DSum(Tab(Len(m.chans[c].ts), LAMBDA k : DAbs(T[m.chans[c].ts[k].t].y))))
        least(c, b) == \E i \in 1 .. Len(nu(c)) : DLt(nu(c)[i], b)
    IN IF \E c \in 1 .. Len(m.chans) : least(c, DNeg(eps(c))) THEN "no"
       ELSE IF \E c \in 1 .. Len(m.chans) : least(c, "0") THEN "any" ELSE "yes"

\* toy data: the contents are taken from the observation
ToyCounts(e, c) == IF Observed(e) /\ c <= Len(Wit(e).hists) /\ Len(Wit(e).hists[c].cnt) = ChanBins(M[e.id].chans[c])
                   THEN Wit(e).hists[c].cnt
                   ELSE VMap(ChanNow(M[e.id], T, c), DRound)
MToy(e) ==
    /\ H' = PutAll(H, DataIds(e), LAMBDA c : MkData(ChanEdges(M[e.id], c), ToyCounts(e, c), "1", {"M07"}))
    /\ UNCHANGED <<T, ModelVars, LegVars>>

-----------------------------------------------------------------------------
(* Fits *)

OnlyF == UNCHANGED <<H, T, M, N, Y, P, Z, LegVars>>
NoRes == [x |-> <<>>, cov |-> <<>>, err |-> <<>>, names |-> <<>>]
QNorm(q) == [A |-> [i \in 1 .. Len(q.A) |-> VNorm(q.A[i])], c |-> VNorm(q.c), k |-> DNorm(q.k)]
\* e: id, m, min, hasq, q
FNew(e) ==
    /\ F' = Put(F, e.id, [m |-> e.m, min |-> e.min, hasq |-> e.hasq,
                          q |-> IF e.hasq THEN QNorm(e.q) ELSE [A |-> <<>>, c |-> <<>>, k |-> "0"],
                          fix |-> <<>>, bnd |-> <<>>, fixnui |-> FALSE, res |-> NoRes])
    /\ OnlyF
\* a parameter is given by its name (e.par.n) or, if that is empty, by its
\* index (e.par.i, from 0)
ParIdx(names, par) == IF par.n # "" THEN IndexIn(names, par.n)
                      ELSE IF par.i >= 0 /\ par.i < Len(names) THEN par.i + 1 ELSE 0
FFix(e) == F' = [F EXCEPT ![e.id].fix = Append(@, e.par)] /\ OnlyF
\* e.b = <<lower, upper>>
FBounds(e) == F' = [F EXCEPT ![e.id].bnd = Append(@, <<e.par, e.b>>)] /\ OnlyF
FFixNui(e) == F' = [F EXCEPT ![e.id].fixnui = TRUE] /\ OnlyF

\* the settings that hold in a fit
SettingsOk(f, names) ==
    /\ \A i \in 1 .. Len(f.fix) : ParIdx(names, f.fix[i]) # 0
    /\ \A i \in 1 .. Len(f.bnd) : ParIdx(names, f.bnd[i][1]) # 0
FixedIn(f, names, nproc, fixnui) ==
    LET s == {ParIdx(names, f.fix[i]) : i \in 1 .. Len(f.fix)}
    IN Tab(Len(names), LAMBDA i : i \in s \/ ((fixnui \/ f.fixnui) /\ i > nproc))
BoundsIn(f, names, nproc, haslim, lim) ==
    Tab(Len(names), LAMBDA i :
        LET s == SelectSeq(f.bnd, LAMBDA b : ParIdx(names, b[1]) = i)
        IN IF s # <<>> THEN s[Len(s)][2] ELSE IF haslim /\ i > nproc THEN lim ELSE <<>>)

FModel(e) == M[F[e.id].m]
FNames(e) == ParamNames(FModel(e))
FFixed(e) == FixedIn(F[e.id], FNames(e), Len(FModel(e).procs), e.fixnui)
FBound(e) == BoundsIn(F[e.id], FNames(e), Len(FModel(e).procs), e.haslim, e.lim)
\* The result: in the model alone it is the exact minimum of the quadratic
FitWitness(e) ==
    IF Observed(e) THEN [x |-> VNorm(Wit(e).x), cov |-> Wit(e).cov, err |-> Wit(e).err, names |-> Wit(e).names]
    ELSE [x |-> QMin(F[e.id].q, StartValues(FModel(e), T), FFixed(e), FBound(e)),
          cov |-> <<>>, err |-> <<>>, names |-> FNames(e)]
\* e: id, update, fixnui, haslim, lim, hesse
FFit(e) ==
    LET w == FitWitness(e)
        good == Len(w.x) = NumPar(FModel(e))
    IN /\ F' = [F EXCEPT ![e.id].res = w]
       /\ T' = IF e.update /\ good THEN UpdateT(FModel(e), T, w.x) ELSE T
       /\ UNCHANGED <<H, M, N, Y, P, Z, LegVars>>

-----------------------------------------------------------------------------
(* Parameter containers *)

OnlyP == UNCHANGED <<H, T, M, N, F, Y, Z, LegVars>>
PNew(e) == P' = Put(P, e.id, [names |-> e.names, vals |-> VZero(Len(e.names)), errs |-> VZero(Len(e.names))]) /\ OnlyP
PSetVals(e) == P' = [P EXCEPT ![e.id].vals = VNorm(e.v)] /\ OnlyP
PSetErrs(e) == P' = [P EXCEPT ![e.id].errs = VNorm(e.v)] /\ OnlyP

-----------------------------------------------------------------------------
(* Minimisers of a given cost function, a quadratic *)

OnlyZ == UNCHANGED <<H, T, M, N, F, Y, P, LegVars>>
\* e: id, names, min, q
ZNew(e) ==
    /\ Z' = Put(Z, e.id, [names |-> e.names, min |-> e.min, q |-> QNorm(e.q),
                          fix |-> Tab(Len(e.names), LAMBDA i : FALSE),
                          bnd |-> Tab(Len(e.names), LAMBDA i : <<>>)])
    /\ OnlyZ
ZParOk(e) == ParIdx(Z[e.id].names, e.par) # 0
ZFix(e) == Z' = [Z EXCEPT ![e.id].fix[ParIdx(Z[e.id].names, e.par)] = TRUE] /\ OnlyZ
ZBounds(e) == Z' = [Z EXCEPT ![e.id].bnd[ParIdx(Z[e.id].names, e.par)] = e.b] /\ OnlyZ
\* releases the fixed parameters, not the bounds
ZRelease(e) == Z' = [Z EXCEPT ![e.id].fix = Tab(Len(@), LAMBDA i : FALSE)] /\ OnlyZ

-----------------------------------------------------------------------------
(* Toy studies *)

OnlyY == UNCHANGED <<H, T, M, N, F, P, Z, LegVars>>
YNew(e) == Y' = Put(Y, e.id, [m |-> e.m, min |-> e.min, fitted |-> FALSE, par |-> <<>>, unc |-> <<>>]) /\ OnlyY

\* an attempt fails as planned, or (observed) because a minimisation failed
PlanOf(e) ==
    IF ~Observed(e) \/ "nat" \notin DOMAIN Wit(e) THEN e.plan
    ELSE [a \in 1 .. (IF Len(e.plan) > Len(Wit(e).nat) THEN Len(e.plan) ELSE Len(Wit(e).nat)) |->
            \/ a <= Len(e.plan) /\ e.plan[a]
            \/ a <= Len(Wit(e).nat) /\ Wit(e).nat[a]]
Course(e) == ToyCourse(e.n, e.max, PlanOf(e), 0, <<>>)

\* the data of the last attempt stay in the model
ToyDataIds(e, m) == Tab(Len(m.chans), LAMBDA c : e.pre \o m.chans[c].name)
LastToy(e, m, d) ==
    /\ H' = PutAll(H, ToyDataIds(e, m), LAMBDA c : MkData(ChanEdges(m, c), d[c], "1", {"Y01"}))
    /\ M' = [M EXCEPT ![Y[e.id].m] = SetData(@, [c \in 1 .. Len(m.chans) |-> <<m.chans[c].name, e.pre \o m.chans[c].name>>])]
GoodData(m, d) == Len(d) = Len(m.chans) /\ \A c \in 1 .. Len(d) : Len(d[c]) = ChanBins(m.chans[c])
\* e: id, n, max, plan, pre.  Wit(e).att: data of all attempts ( << >> where the
\* generation failed ), Wit(e).par, .unc: results
YRun(e) ==
    LET m == M[Y[e.id].m]
        att == IF Observed(e) THEN SelectSeq(Wit(e).att, LAMBDA d : GoodData(m, d)) ELSE <<>>
        ok == Course(e).ok
    IN /\ Y' = [Y EXCEPT ![e.id] = [@ EXCEPT !.fitted = ok,
                    !.par = IF ok /\ Observed(e) THEN Wit(e).par ELSE <<>>,
                    !.unc = IF ok /\ Observed(e) THEN Wit(e).unc ELSE <<>>]]
       /\ IF att = <<>> THEN UNCHANGED <<H, M>> ELSE LastToy(e, m, att[Len(att)])
       /\ UNCHANGED <<T, N, F, P, Z, LegVars>>

\* e: id, proc, lim, npts, nexp, pre.  The model is left at the last point.
LinPoints(e) == LinSpace(e.lim[1], e.lim[2], e.npts)
LinStateT(e, v) == SetYieldT(M[Y[e.id].m], ResetT(M[Y[e.id].m], T), e.proc, v)
YLin(e) ==
    LET m == M[Y[e.id].m]
        att == IF Observed(e) THEN SelectSeq(Wit(e).att, LAMBDA d : GoodData(m, d)) ELSE <<>>
    IN /\ T' = LinStateT(e, LinPoints(e)[e.npts])
       /\ Y' = [Y EXCEPT ![e.id] = [@ EXCEPT !.fitted = TRUE,
                    !.par = IF Observed(e) THEN Wit(e).par ELSE <<>>,
                    !.unc = IF Observed(e) THEN Wit(e).unc ELSE <<>>]]
       /\ IF att = <<>> THEN UNCHANGED <<H, M>> ELSE LastToy(e, m, att[Len(att)])
       /\ UNCHANGED <<N, F, P, Z, LegVars>>

-----------------------------------------------------------------------------
(* The legacy modules *)

OnlyL == UNCHANGED <<H, T, ModelVars>>
\* e: id, kind ("hist": Histogram, "1d", "2d"), dim, bk, nb, rng, edges, hasdata, cols, hasw, w
LEntries(h, cols) ==
    LET cells == Tab(Len(cols[1]), LAMBDA k : CellOf(h.edges, cols, k))
    IN BookFast(Len(h.cnt), cells, VConst(Len(cells), "1"))
LFill(h, cols, w) ==
    LET g == HFill([f \in DOMAIN h \ {"ent", "kind"} |-> h[f]], cols, w)
    IN [f \in DOMAIN h |-> IF f = "ent" THEN VAdd(h.ent, LEntries(h, cols))
                           ELSE IF f = "kind" THEN h.kind ELSE g[f]]
LEmpty(kind, edges) ==
    LET h == HEmpty(edges)
    IN [f \in DOMAIN h \cup {"ent", "kind"} |->
            IF f = "ent" THEN VZero(Len(h.cnt)) ELSE IF f = "kind" THEN kind ELSE h[f]]
LHNewVal(e) == LET h == LEmpty(e.kind, EdgesFor(e))
               IN IF e.hasdata THEN LFill(h, e.cols, FillWeights(Len(e.cols[1]), e.hasw, e.w)) ELSE h
LHNew(e) == LH' = Put(LH, e.id, LHNewVal(e)) /\ OnlyL /\ UNCHANGED <<LT, LS>>
LHFillCall(e) ==
    /\ LH' = [LH EXCEPT ![e.id] = LFill(@, e.cols, FillWeights(Len(e.cols[1]), e.hasw, e.w))]
    /\ OnlyL /\ UNCHANGED <<LT, LS>>
LHScale(e) == LH' = [LH EXCEPT ![e.id] = HScale(@, DNorm(e.c))] /\ OnlyL /\ UNCHANGED <<LT, LS>>
\* e: id, edges, counts, haserr, errs
LHBinned(e) ==
    /\ LH' = Put(LH, e.id,
         LET g == HFromBinned(Tab(1, LAMBDA a : VNorm(e.edges[a])), e.counts,
                              IF e.haserr THEN e.errs ELSE VSqrt(e.counts))
         IN [f \in DOMAIN g \cup {"ent", "kind"} |->
                IF f = "ent" THEN VZero(Len(g.cnt)) ELSE IF f = "kind" THEN "1d" ELSE g[f]])
    /\ OnlyL /\ UNCHANGED <<LT, LS>>

\* legacy templates: yield and nuisance parameters have errors
\* e: id, name, var, nb, rng, cols, w
LTMake(h, e) ==
    LET t == TNew(h)
    IN [f \in DOMAIN t \cup {"name", "var", "rng", "ye", "the", "y0e"} |->
         IF f = "name" THEN e.name ELSE IF f = "var" THEN e.var
         ELSE IF f = "rng" THEN VNorm(e.rng[1])
         ELSE IF f \in {"ye", "y0e"} THEN DSqrt(DSum(h.esq))
         ELSE IF f = "the" THEN VConst(Len(h.cnt), "1") ELSE t[f]]
LTVal(e) == LTMake(HFill(HEmpty(EdgesFor(e)), e.cols, VNorm(e.w)), e)
LTNew(e) == LT' = Put(LT, e.id, LTVal(e)) /\ OnlyL /\ UNCHANGED <<LH, LS>>
LTAddCov(e) == LT' = [LT EXCEPT ![e.id] = TAddCov(@, e.m)] /\ OnlyL /\ UNCHANGED <<LH, LS>>
LTReset1(t) == [TReset(t) EXCEPT !.ye = t.y0e, !.the = VConst(Len(t.n), "1")]
LTReset(e) == LT' = [LT EXCEPT ![e.id] = LTReset1(@)] /\ OnlyL /\ UNCHANGED <<LH, LS>>
LTSet(e) == LT' = [LT EXCEPT ![e.id].y = DNorm(e.v[1]), ![e.id].th = VNorm(Tail(e.v))]
            /\ OnlyL /\ UNCHANGED <<LH, LS>>

\* stacks: e: id, var, nb, rng;  members are <<tid, template>>
LSNew(e) == /\ LS' = Put(LS, e.id, [var |-> e.var, nb |-> e.nb[1], rng |-> VNorm(e.rng[1]),
                                    edges |-> EdgesFor(e)[1], mem |-> <<>>])
            /\ OnlyL /\ UNCHANGED <<LH, LT>>
LSFits(s, t) == s.var = t.var /\ s.nb = TSize(t) /\ s.rng = t.rng
LSAddOk(e) == LSFits(LS[e.id], LT[e.t])
LSPut(s, tid, t) ==
    LET q == IndexIn([i \in 1 .. Len(s.mem) |-> s.mem[i][1]], tid)
    IN [s EXCEPT !.mem = IF q = 0 THEN Append(@, <<tid, t>>) ELSE [@ EXCEPT ![q] = <<tid, t>>]]
LSAdd(e) == LS' = [LS EXCEPT ![e.id] = LSPut(@, e.tid, e.t)] /\ OnlyL /\ UNCHANGED <<LH, LT>>
\* flat vector: yields of all members, then their nuisance parameters
LSTheta(s, x, k) == Slice(x, Len(s.mem) + (k - 1) * s.nb + 1, s.nb)
LSUpdateT(s, L, x, dx) ==
    FoldLeft(LAMBDA acc, k : [acc EXCEPT ![s.mem[k][2]] =
                 [@ EXCEPT !.y = DNorm(x[k]), !.th = VNorm(LSTheta(s, x, k)),
                           !.ye = DNorm(dx[k]), !.the = VNorm(LSTheta(s, dx, k))]],
             L, [k \in 1 .. Len(s.mem) |-> k])
LSUpdate(e) == LT' = LSUpdateT(LS[e.id], LT, e.x, e.dx) /\ OnlyL /\ UNCHANGED <<LH, LS>>
LSReset(e) == /\ LT' = [t \in DOMAIN LT |->
                          IF \E i \in 1 .. Len(LS[e.id].mem) : LS[e.id].mem[i][2] = t
                          THEN LTReset1(LT[t]) ELSE LT[t]]
              /\ OnlyL /\ UNCHANGED <<LH, LS>>
LSExp(s, L, x) ==
    VSumAll(s.nb, Tab(Len(s.mem), LAMBDA k : VScale(x[k], Fractions(L[s.mem[k][2]], LSTheta(s, x, k)))))
LSNow(s, L) == VSumAll(s.nb, Tab(Len(s.mem), LAMBDA k : TValues(L[s.mem[k][2]])))
LSNll(s, L, data, x) ==
    DAdd(ChanPoisson(data, LSExp(s, L, x)),
         DSum(Tab(Len(s.mem), LAMBDA k : GaussTerm(L[s.mem[k][2]], LSTheta(s, x, k)))))

-----------------------------------------------------------------------------
(* Calls *)

\* "yes": the call has to be accepted, "no": it has to be rejected, "any":
\* the specification leaves this open, "failure": the minimiser may fail
YesIf(b) == IF b THEN "yes" ELSE "no"
Accept(e) ==
    CASE e.op = "h_new"      -> IF e.nonfin THEN "any" ELSE YesIf(HNewOk(e))
      [] e.op = "h_fill"     -> IF e.nonfin THEN "any"
                                ELSE YesIf(FillOk(H[e.id], e.cols, e.hasw, e.w, e.junk))
      [] e.op = "t_addcov"   -> YesIf(CovShapeOk(T[e.id], e.m))
      [] e.op = "t_setyield" -> YesIf(Len(e.v) = 1)
      [] e.op = "t_setnui"   -> YesIf(Len(e.v) = TSize(T[e.id]))
      [] e.op = "t_setparams" -> YesIf(Len(e.v) = TSize(T[e.id]) + 1)
      [] e.op = "m_proc"     -> YesIf(MProcOk(e))
      [] e.op = "m_templ"    -> IF MTemplOk(e) /\ OtherType(e) THEN "any" ELSE YesIf(MTemplOk(e))
      [] e.op = "m_data"     -> YesIf(MDataOk(e))
      [] e.op = "m_constr"   -> YesIf(MConstrOk(e))
      [] e.op \in {"m_setyield", "m_index"} -> YesIf(MSetYieldOk(e))
      [] e.op = "ch_obs"     -> YesIf(ChanIdx(M[e.m], e.chan) # 0)
      [] e.op = "m_getyield" -> YesIf(MSetYieldOk(e))
      [] e.op \in {"m_toy", "m_toystat"} -> ToyAccept(M[e.id])
      [] e.op = "f_fit"      -> IF ~SettingsOk(F[e.id], FNames(e)) THEN "no"
                                ELSE IF F[e.id].min = "scipy" \/ ~F[e.id].hasq THEN "failure" ELSE "yes"
      [] e.op \in {"f_profile", "f_signif"} ->
                                IF ~SettingsOk(F[e.id], FNames(e)) THEN "no"
                                ELSE IF F[e.id].min = "scipy" \/ ~F[e.id].hasq THEN "failure" ELSE "yes"
      [] e.op = "f_failfit"  -> "no"
      [] e.op = "f_result"   -> YesIf(F[e.id].res # NoRes)
      [] e.op \in {"z_fix", "z_bounds"} -> YesIf(ZParOk(e))
      [] e.op = "z_min"      -> IF Z[e.id].min = "scipy" THEN "failure" ELSE "yes"
      [] e.op \in {"p_setvals", "p_seterrs"} -> YesIf(Len(e.v) = Len(P[e.id].names))
      [] e.op = "p_get"      -> YesIf(ParIdx(P[e.id].names, e.par) # 0)
      [] e.op = "y_run"      -> YesIf(Course(e).ok)
      [] e.op \in {"y_results", "y_pulls"} -> YesIf(Y[e.id].fitted /\ ProcIdx(M[Y[e.id].m], e.proc) # 0)
      [] e.op = "lh_fill"    -> YesIf(\A a \in 1 .. Len(e.cols) : e.hasw => Len(e.w) = Len(e.cols[a]))
      [] e.op = "ls_add"     -> YesIf(LSAddOk(e))
      \* parameter vectors of another length belong to another model
      [] e.op \in {"m_update", "m_route"} -> YesIf(Len(e.x) = NumPar(M[e.id]))
      [] e.op = "n_call"     -> YesIf(Len(e.x) = NumPar(M[N[e.id]]))
      [] e.op = "ch_update"  -> LET ch == M[e.m].chans[ChanIdx(M[e.m], e.chan)]
                                IN YesIf(Len(e.ys) = Len(ch.ts) /\ Len(e.th) = Len(ch.ts) * ChanBins(ch))
      [] e.op = "ls_update"  -> LET n == Len(LS[e.id].mem) * (1 + LS[e.id].nb) IN YesIf(Len(e.x) = n /\ Len(e.dx) = n)
      [] e.op = "ls_create"  -> YesIf(LSFits(LS[e.id], LTVal([e EXCEPT !.id = e.t])))
      [] OTHER               -> "yes"
Accepted(e) == LET a == Accept(e)
               IN a = "yes" \/ (a \in {"any", "failure"} /\ (Observed(e) => e.out.ok))

\* A call that is rejected changes nothing - except that a toy study which
\* stops starts from scratch next time and leaves its last data in the model.
Do(e) ==
    IF e.op = "y_run" THEN YRun(e)
    ELSE IF ~Accepted(e) THEN UNCHANGED vars
    ELSE CASE e.op = "h_new"       -> HNew(e)
           [] e.op = "h_fill"      -> IF e.nonfin THEN UNCHANGED vars ELSE HFillCall(e)
           [] e.op = "h_binned"    -> HBinned(e)
           [] e.op = "h_proj"      -> HProjCall(e)
           [] e.op = "t_new"       -> TNewCall(e)
           [] e.op = "t_addcov"    -> TAddCovCall(e)
           [] e.op = "t_addvar"    -> TAddVarCall(e)
           [] e.op = "t_setyield"  -> TSetYield(e)
           [] e.op = "t_setnui"    -> TSetNui(e)
           [] e.op = "t_setparams" -> TSetParams(e)
           [] e.op = "t_reset"     -> TResetCall(e)
           [] e.op = "m_new"       -> MNew(e)
           [] e.op = "m_chan"      -> MChan(e)
           [] e.op = "m_proc"      -> MProc(e)
           [] e.op = "m_templ"     -> MTempl(e)
           [] e.op = "m_data"      -> MData(e)
           [] e.op = "m_constr"    -> MConstr(e)
           [] e.op = "m_setyield"  -> MSetYield(e)
           [] e.op = "m_update"    -> MUpdate(e)
           [] e.op = "m_reset"     -> MReset(e)
           [] e.op = "m_asimov"    -> MAsimov(e)
           [] e.op = "m_toy"       -> MToy(e)
           [] e.op = "n_new"       -> NNew(e)
           [] e.op = "f_new"       -> FNew(e)
           [] e.op = "f_fix"       -> FFix(e)
           [] e.op = "f_bounds"    -> FBounds(e)
           [] e.op = "f_fixnui"    -> FFixNui(e)
           [] e.op = "f_fit"       -> FFit(e)
           [] e.op = "p_new"       -> PNew(e)
           [] e.op = "p_setvals"   -> PSetVals(e)
           [] e.op = "p_seterrs"   -> PSetErrs(e)
           [] e.op = "z_new"       -> ZNew(e)
           [] e.op = "z_fix"       -> ZFix(e)
           [] e.op = "z_bounds"    -> ZBounds(e)
           [] e.op = "z_release"   -> ZRelease(e)
           [] e.op = "ch_update"   -> ChUpdate(e)
           [] e.op = "ch_reset"    -> ChReset(e)
           [] e.op = "y_new"       -> YNew(e)
           [] e.op = "y_lin"       -> YLin(e)
           [] e.op = "lh_new"      -> LHNew(e)
           [] e.op = "lh_fill"     -> LHFillCall(e)
           [] e.op = "lh_scale"    -> LHScale(e)
           [] e.op = "lh_binned"   -> LHBinned(e)
           [] e.op = "lt_new"      -> LTNew(e)
           [] e.op = "lt_addcov"   -> LTAddCov(e)
           [] e.op = "lt_reset"    -> LTReset(e)
           [] e.op = "lt_set"      -> LTSet(e)
           [] e.op = "ls_new"      -> LSNew(e)
           [] e.op = "ls_add"      -> LSAdd(e)
           [] e.op = "ls_create"   -> /\ LT' = Put(LT, e.t, LTVal([e EXCEPT !.id = e.t]))
                                      /\ LS' = [LS EXCEPT ![e.id] = LSPut(@, e.tid, e.t)]
                                      /\ OnlyL /\ UNCHANGED LH
           [] e.op = "ls_update"   -> LSUpdate(e)
           [] e.op = "ls_reset"    -> LSReset(e)
           [] OTHER                -> UNCHANGED vars      \* queries

-----------------------------------------------------------------------------
(* Invariants *)

AllHistOk == \A h \in DOMAIN H : HistOk(H[h])
AllTemplateOk == \A t \in DOMAIN T : TemplateOk(T[t])
AllModelOk == \A m \in DOMAIN M : ModelOk(M[m], T, H)
=============================================================================
