----------------------------- MODULE ModelCore -----------------------------
(* Multi channel models and their likelihood.  A model is a record
     procs  sequence of process names, in order of definition
     chans  sequence of channels [name, bins, rng, data, ts], in order of
            definition; ts is the sequence of [proc, t, eff] in order of
            registration; data is the id of a histogram, or ""
     constr sequence of [proc, val, err]
   T and H below are the template and the histogram heap.                    *)
EXTENDS TemplateCore

EmptyModel == [procs |-> <<>>, chans |-> <<>>, constr |-> <<>>]

IndexIn(s, x) == IF \E i \in 1 .. Len(s) : s[i] = x THEN CHOOSE i \in 1 .. Len(s) : s[i] = x ELSE 0
ChanIdx(m, c) == LET s == [i \in 1 .. Len(m.chans) |-> m.chans[i].name] IN IndexIn(s, c)
ProcIdx(m, p) == IndexIn(m.procs, p)
ProcsOf(ch) == Tab(Len(ch.ts), LAMBDA k : ch.ts[k].proc)
ChanBins(ch) == HSize(ch.bins)
NumNui(m) == FoldLeft(LAMBDA a, ch : a + Len(ch.ts) * ChanBins(ch), 0, m.chans)
NumPar(m) == Len(m.procs) + NumNui(m)

SeqSum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)

\* start (0-based) of the nuisance parameters of template k of channel c
NuiOffset(m, c, k) ==
    Len(m.procs)
    + SeqSum([i \in 1 .. c - 1 |-> Len(m.chans[i].ts) * ChanBins(m.chans[i])])
    + (k - 1) * ChanBins(m.chans[c])

ParamNames(m) ==
    Tab(Len(m.procs), LAMBDA i : m.procs[i] \o "_yield")
    \o Concat(Tab(Len(m.chans), LAMBDA c :
         LET ch == m.chans[c]
         IN Concat(Tab(Len(ch.ts), LAMBDA k :
              Tab(ChanBins(ch), LAMBDA b :
                ch.name \o "_" \o ch.ts[k].proc \o "_bin_" \o ToString(b - 1))))))

\* sum over the channels of the yields of the templates of a process
ProcYield(m, T, p) ==
    DSum(Concat(Tab(Len(m.chans), LAMBDA c :
        LET s == SelectSeq(m.chans[c].ts, LAMBDA e : e.proc = p)
        IN [q \in 1 .. Len(s) |-> T[s[q].t].y])))
ProcYields(m, T) == Tab(Len(m.procs), LAMBDA i : ProcYield(m, T, m.procs[i]))
ProcYieldErrors(m, T) ==
    Tab(Len(m.procs), LAMBDA i :
        DSqrt(DSum(Concat(Tab(Len(m.chans), LAMBDA c :
            LET s == SelectSeq(m.chans[c].ts, LAMBDA e : e.proc = m.procs[i])
            IN Concat(Tab(Len(s), LAMBDA q : VSq(TErrors(T[s[q].t])))))))))
NuiParams(m, T) ==
    Concat(Tab(Len(m.chans), LAMBDA c :
        Concat(Tab(Len(m.chans[c].ts), LAMBDA k : T[m.chans[c].ts[k].t].th))))
StartValues(m, T) == ProcYields(m, T) \o NuiParams(m, T)

\* ---- routing of the flat parameter vector ----
ChanYields(m, x, c) == Tab(Len(m.chans[c].ts), LAMBDA k : x[ProcIdx(m, m.chans[c].ts[k].proc)])
ChanTheta(m, x, c, k) == Slice(x, NuiOffset(m, c, k) + 1, ChanBins(m.chans[c]))
ChanNui(m, x, c) == Concat(Tab(Len(m.chans[c].ts), LAMBDA k : ChanTheta(m, x, c, k)))

\* indices (in the flat vector) of the parameters of a channel
ChanParIdx(m, c) ==
    Tab(Len(m.chans[c].ts), LAMBDA k : ProcIdx(m, m.chans[c].ts[k].proc))
    \o Tab(Len(m.chans[c].ts) * ChanBins(m.chans[c]), LAMBDA i : NuiOffset(m, c, 1) + i)

\* All writes of an update of the parameters, in order; a template may be
\* registered in several places, then the last write counts.
UpdateT(m, T, x) ==
    LET writes == Concat(Tab(Len(m.chans), LAMBDA c : Tab(Len(m.chans[c].ts), LAMBDA k : <<c, k>>)))
        W(acc, w) ==
            LET e == m.chans[w[1]].ts[w[2]]
            IN [acc EXCEPT ![e.t] = [@ EXCEPT !.y = DMul(x[ProcIdx(m, e.proc)], e.eff),
                                              !.th = VNorm(ChanTheta(m, x, w[1], w[2]))]]
    IN FoldLeft(W, T, writes)
SetYieldT(m, T, p, v) ==
    LET W(acc, e) == [acc EXCEPT ![e.t] = [@ EXCEPT !.y = DMul(v, e.eff)]]
        es == Concat(Tab(Len(m.chans), LAMBDA c : SelectSeq(m.chans[c].ts, LAMBDA e : e.proc = p)))
    IN FoldLeft(W, T, es)
ResetT(m, T) ==
    LET ids == {e.t : e \in UNION {ToSet(m.chans[c].ts) : c \in 1 .. Len(m.chans)}}
    IN [t \in DOMAIN T |-> IF t \in ids THEN TReset(T[t]) ELSE T[t]]

\* ---- expectation and likelihood ----
\* expected events per bin of a channel for its own yields and nuisance params
ChanExp(ch, T, ys, th(_)) ==
    VSumAll(ChanBins(ch), Tab(Len(ch.ts), LAMBDA k :
        VScale(DMul(ys[k], ch.ts[k].eff), Fractions(T[ch.ts[k].t], th(k)))))
ChanExpAt(m, T, x, c) == ChanExp(m.chans[c], T, ChanYields(m, x, c), LAMBDA k : ChanTheta(m, x, c, k))
\* ... and for the current parameters of its templates
ChanNow(m, T, c) == VSumAll(ChanBins(m.chans[c]),
                            Tab(Len(m.chans[c].ts), LAMBDA k : TValues(T[m.chans[c].ts[k].t])))

\* nu - n - n ln(nu / n)
PoissonTerm(n, nu) ==
    IF IsZero(n) THEN nu ELSE DSub(DSub(nu, n), DMul(n, DLn(DDiv(nu, n))))
ChanPoisson(data, nu) == DSum([i \in 1 .. Len(data) |-> PoissonTerm(data[i], nu[i])])
GaussTerm(t, th) == DMul("0.5", QuadForm(t.rinv, th))
ConstrTerm(c, x, m) ==
    LET d == DDiv(DSub(x[ProcIdx(m, c.proc)], c.val), c.err) IN DMul("0.5", DMul(d, d))

NllPoisson(m, T, H, x) ==
    DSum(Tab(Len(m.chans), LAMBDA c : ChanPoisson(H[m.chans[c].data].cnt, ChanExpAt(m, T, x, c))))
NllGauss(m, T, x) ==
    DSum(Concat(Tab(Len(m.chans), LAMBDA c :
        Tab(Len(m.chans[c].ts), LAMBDA k : GaussTerm(T[m.chans[c].ts[k].t], ChanTheta(m, x, c, k))))))
NllConstr(m, x) == DSum(Tab(Len(m.constr), LAMBDA q : ConstrTerm(m.constr[q], x, m)))
Nll(m, T, H, x) == DSum(<<NllPoisson(m, T, H, x), NllGauss(m, T, x), NllConstr(m, x)>>)

\* the likelihood is defined where every bin with data expects events
NllDefined(m, T, H, x) ==
    \A c \in 1 .. Len(m.chans) :
        /\ m.chans[c].data # ""
        /\ LET nu == ChanExpAt(m, T, x, c) d == H[m.chans[c].data].cnt
           IN \A i \in 1 .. Len(nu) : DLe("0", d[i]) /\ (IsZero(d[i]) \/ DLt("0", nu[i]))
\* it is infinite where a bin has data although nothing, or less, can be expected there
NllInfinite(m, T, H, x) ==
    /\ \A c \in 1 .. Len(m.chans) :
          m.chans[c].data # "" /\ \A i \in 1 .. ChanBins(m.chans[c]) : DLe("0", H[m.chans[c].data].cnt[i])
    /\ \E c \in 1 .. Len(m.chans) :
          LET ch == m.chans[c]
              ys == ChanYields(m, x, c)
              nu == ChanExpAt(m, T, x, c)
              d == H[ch.data].cnt
              \* far enough from zero to be no rounding error
              eps == DMul("1e-9", DSum(Tab(Len(ch.ts), LAMBDA k : DAbs(DMul(ys[k], ch.ts[k].eff)))))
          IN \E i \in 1 .. Len(nu) :
                /\ ~IsZero(d[i])
                /\ \/ DLt(nu[i], DNeg(eps))
                   \/ \A k \in 1 .. Len(ch.ts) : IsZero(T[ch.ts[k].t].n[i])
\* scale of its rounding errors
NllScale(m, T, H, x) ==
    DSum(Tab(Len(m.chans), LAMBDA c :
             DAdd(DSum(VAbs(ChanExpAt(m, T, x, c))), DSum(VAbs(H[m.chans[c].data].cnt))))
         \o <<DAbs(NllGauss(m, T, x)), NllConstr(m, x), "1">>)

\* ---- derivatives of the likelihood ----
\* Jacobian of the expectation of channel c: rows are bins, columns the
\* parameters of the channel (its yields, then its nuisance parameters)
ChanJac(m, T, x, c) ==
    LET ch == m.chans[c] nb == ChanBins(ch) K == Len(ch.ts)
        fr == Tab(K, LAMBDA k : Fractions(T[ch.ts[k].t], ChanTheta(m, x, c, k)))
        fj == Tab(K, LAMBDA k : FracJac(T[ch.ts[k].t], ChanTheta(m, x, c, k)))
        ys == ChanYields(m, x, c)
    IN Tab(nb, LAMBDA i :
          Tab(K, LAMBDA k : DMul(ch.ts[k].eff, fr[k][i]))
          \o Concat(Tab(K, LAMBDA k :
               Tab(nb, LAMBDA j : DMul(DMul(ys[k], ch.ts[k].eff), fj[k][i][j])))))

\* gradient and Hessian of the Poisson term of one channel in its parameters
ChanGrad(data, nu, jac) ==
    LET wt == Tab(Len(nu), LAMBDA i : DSub("1", IF IsZero(data[i]) THEN "0" ELSE DDiv(data[i], nu[i])))
    IN Tab(Len(jac[1]), LAMBDA a : DDot(wt, [i \in 1 .. Len(nu) |-> jac[i][a]]))

ChanHess(m, T, x, c, data, nu, jac) ==
    LET ch == m.chans[c] nb == ChanBins(ch) K == Len(ch.ts)
        np == K + K * nb
        ys == ChanYields(m, x, c)
        w1 == Tab(nb, LAMBDA i : DSub("1", IF IsZero(data[i]) THEN "0" ELSE DDiv(data[i], nu[i])))
        w2 == Tab(nb, LAMBDA i : IF IsZero(data[i]) THEN "0" ELSE DDiv(data[i], DMul(nu[i], nu[i])))
        fj == Tab(K, LAMBDA k : FracJac(T[ch.ts[k].t], ChanTheta(m, x, c, k)))
        fh == Tab(K, LAMBDA k : FracHess(T[ch.ts[k].t], ChanTheta(m, x, c, k)))
        \* contraction of the second derivatives with w1
        mixed == Tab(K, LAMBDA k : Tab(nb, LAMBDA j :
                    DMul(ch.ts[k].eff, DDot(w1, [i \in 1 .. nb |-> fj[k][i][j]]))))
        pure == Tab(K, LAMBDA k : Tab2(nb, nb, LAMBDA j, l :
                    DMul(DMul(ys[k], ch.ts[k].eff), DDot(w1, [i \in 1 .. nb |-> fh[k][i][j][l]]))))
        tmp(a) == ((a - K - 1) \div nb) + 1
        bin(a) == ((a - K - 1) % nb) + 1
        jt == MTrans(jac)
        jw == TLCEval([a \in 1 .. np |-> VMul(w2, jt[a])])
        second(a, b) ==
            IF a <= K /\ b <= K THEN "0"
            ELSE IF a <= K THEN IF tmp(b) = a THEN mixed[a][bin(b)] ELSE "0"
            ELSE IF b <= K THEN IF tmp(a) = b THEN mixed[b][bin(a)] ELSE "0"
            ELSE IF tmp(a) = tmp(b) THEN pure[tmp(a)][bin(a)][bin(b)] ELSE "0"
    IN Tab2(np, np, LAMBDA a, b : DAdd(DDot(jw[a], jt[b]), second(a, b)))

\* position of parameter p of the model in channel c (0 if it is none of it)
NllGrad(m, T, H, x) ==
    LET n == NumPar(m) P == Len(m.procs)
        C == Len(m.chans)
        idx == Tab(C, LAMBDA c : ChanParIdx(m, c))
        g == Tab(C, LAMBDA c : ChanGrad(H[m.chans[c].data].cnt, ChanExpAt(m, T, x, c), ChanJac(m, T, x, c)))
        gg == Tab(C, LAMBDA c : Concat(Tab(Len(m.chans[c].ts), LAMBDA k :
                 MVec(T[m.chans[c].ts[k].t].rinv, ChanTheta(m, x, c, k)))))
    IN Tab(n, LAMBDA p :
         DSum(Tab(C, LAMBDA c : LET q == IndexIn(idx[c], p) IN IF q = 0 THEN "0" ELSE g[c][q])
              \o IF p <= P
                 THEN Tab(Len(m.constr), LAMBDA r :
                        IF ProcIdx(m, m.constr[r].proc) = p
                        THEN DDiv(DSub(x[p], m.constr[r].val), DMul(m.constr[r].err, m.constr[r].err))
                        ELSE "0")
                 ELSE Tab(C, LAMBDA c :
                        LET o == p - NuiOffset(m, c, 1)
                        IN IF o >= 1 /\ o <= Len(gg[c]) THEN gg[c][o] ELSE "0")))

NllHess(m, T, H, x) ==
    LET n == NumPar(m) P == Len(m.procs)
        C == Len(m.chans)
        idx == Tab(C, LAMBDA c : ChanParIdx(m, c))
        pos == Tab(C, LAMBDA c : Tab(n, LAMBDA p : IndexIn(idx[c], p)))
        hs == Tab(C, LAMBDA c : ChanHess(m, T, x, c, H[m.chans[c].data].cnt,
                                         ChanExpAt(m, T, x, c), ChanJac(m, T, x, c)))
        gauss(p, q) ==
            DSum(Concat(Tab(C, LAMBDA c : Tab(Len(m.chans[c].ts), LAMBDA k :
                LET nb == ChanBins(m.chans[c])
                    a == p - NuiOffset(m, c, k) b == q - NuiOffset(m, c, k)
                IN IF a >= 1 /\ a <= nb /\ b >= 1 /\ b <= nb
                   THEN T[m.chans[c].ts[k].t].rinv[a][b] ELSE "0"))))
        con(p) == DSum(Tab(Len(m.constr), LAMBDA r :
                    IF ProcIdx(m, m.constr[r].proc) = p
                    THEN DDiv("1", DMul(m.constr[r].err, m.constr[r].err)) ELSE "0"))
    IN Tab2(n, n, LAMBDA p, q :
         DSum(Tab(C, LAMBDA c : IF pos[c][p] = 0 \/ pos[c][q] = 0 THEN "0"
                                ELSE hs[c][pos[c][p]][pos[c][q]])
              \o <<IF p > P /\ q > P THEN gauss(p, q) ELSE "0",
                   IF p = q /\ p <= P THEN con(p) ELSE "0">>))

\* ---- registration ----
\* a histogram or template fits into a channel: same shape, same range
Fits(ch, g) == ch.bins = g.shape /\ ch.rng = HRange(g)

\* ---- invariants ----
ModelOk(m, T, H) ==
    /\ \A i, j \in 1 .. Len(m.procs) : m.procs[i] = m.procs[j] => i = j
    /\ \A i, j \in 1 .. Len(m.chans) : m.chans[i].name = m.chans[j].name => i = j
    /\ \A c \in 1 .. Len(m.chans) : LET ch == m.chans[c] IN
        /\ \A k \in 1 .. Len(ch.ts) : /\ ch.ts[k].proc \in ToSet(m.procs)
                                      /\ Fits(ch, T[ch.ts[k].t])
        /\ \A k, l \in 1 .. Len(ch.ts) : ch.ts[k].proc = ch.ts[l].proc => k = l
        /\ ch.data # "" => Fits(ch, H[ch.data])
    /\ \A q, r \in 1 .. Len(m.constr) : m.constr[q].proc = m.constr[r].proc => q = r
    /\ \A q \in 1 .. Len(m.constr) : m.constr[q].proc \in ToSet(m.procs)
    /\ Len(ParamNames(m)) = NumPar(m)
=============================================================================
