---------------------------- MODULE TemplateCore ----------------------------
(* Templates.  A template is a record
     dim, edges, shape    geometry of its histogram
     n                    bin contents of the histogram when the template was
                          made (flat), and prj[1..2]: for plots
     covs                 covariance matrices, the statistical one first
     cov, rinv            their sum, and the inverse of its correlation matrix
     y, th                current yield and nuisance parameters              *)
EXTENDS HistCore

StatCov(esq) == MDiag(VMap(esq, LAMBDA s : IF IsZero(s) THEN "1E-14" ELSE s))

TNew(h) ==
    LET c == StatCov(h.esq)
    IN [dim |-> h.dim, edges |-> h.edges, shape |-> h.shape, n |-> h.cnt,
        mag |-> h.mag, covs |-> <<c>>, cov |-> c, rinv |-> MEye(Len(h.cnt)),
        y |-> DSum(h.cnt), th |-> VZero(Len(h.cnt))]

TSize(t) == Len(t.n)

\* relative bin uncertainties
RelErr(t) ==
    Tab(TSize(t), LAMBDA i : IF IsZero(t.n[i]) THEN "1E-7" ELSE DDiv(DSqrt(t.cov[i][i]), t.n[i]))

\* n_i (1 + theta_i e_i)
Shaped(t, th) ==
    LET e == RelErr(t) IN Tab(TSize(t), LAMBDA i : DMul(t.n[i], DAdd("1", DMul(th[i], e[i]))))

\* bin fractions; all zero for an empty histogram
Fractions(t, th) ==
    LET u == Shaped(t, th) s == DSum(u)
    IN IF IsZero(s) THEN VZero(TSize(t)) ELSE VMap(u, LAMBDA x : DDiv(x, s))

\* sum of absolute values over absolute sum: conditioning of the normalisation
Conditioning(t, th) ==
    LET u == Shaped(t, th) s == DAbs(DSum(u))
    IN IF IsZero(s) THEN "1" ELSE DDiv(DSum(VAbs(u)), s)

TValues(t) == VScale(t.y, Fractions(t, t.th))
TErrors(t) == VMul(RelErr(t), TValues(t))
TCorr(t) == IF Len(t.covs) = 1 THEN MEye(TSize(t)) ELSE Cov2Corr(t.cov)

\* d fraction_i / d theta_j  and the second derivatives
FracJac(t, th) ==
    LET e == RelErr(t)
        u == Shaped(t, th) s == DSum(u)
        f == Fractions(t, th)
        a == Tab(TSize(t), LAMBDA j : IF IsZero(s) THEN "0" ELSE DDiv(DMul(t.n[j], e[j]), s))
    IN Tab2(TSize(t), TSize(t), LAMBDA i, j :
            DMul(a[j], DSub(IF i = j THEN "1" ELSE "0", f[i])))
\* FracHess(t, th)[i][j][k]
FracHess(t, th) ==
    LET e == RelErr(t)
        s == DSum(Shaped(t, th))
        f == Fractions(t, th)
        m == TSize(t)
        a == Tab(m, LAMBDA j : IF IsZero(s) THEN "0" ELSE DDiv(DMul(t.n[j], e[j]), s))
        D(i, j) == IF i = j THEN 1 ELSE 0
    IN Tab(m, LAMBDA i : Tab2(m, m, LAMBDA j, k :
            DNeg(DMul(DMul(a[j], a[k]), DSub(DFromInt(D(i, j) + D(i, k)), DMul("2", f[i]))))))

TAddCov(t, m) ==
    LET c == MAdd(t.cov, m)
    IN [t EXCEPT !.covs = Append(@, [i \in 1 .. Len(m) |-> VNorm(m[i])]), !.cov = c, !.rinv = MInv(Cov2Corr(c))]

CovShapeOk(t, m) == Len(m) = TSize(t) /\ \A i \in 1 .. Len(m) : Len(m[i]) = TSize(t)

\* signed average absolute shift of an up and a down variation
VarShift(t, up, dn) ==
    Tab(TSize(t), LAMBDA i :
        LET a == DAbs(DSub(up[i], t.n[i])) b == DAbs(DSub(dn[i], t.n[i]))
            s == DDiv(DAdd(a, b), "2")
        IN IF DLt(up[i], dn[i]) THEN DNeg(s) ELSE s)
VarCov(t, up, dn) == LET s == VarShift(t, up, dn) IN MOuter(s, s)

TAddVar(t, cols, wup, wdn) ==
    TAddCov(t, VarCov(t, BinSums(t.edges, cols, VNorm(wup)), BinSums(t.edges, cols, VNorm(wdn))))

TReset(t) == [t EXCEPT !.y = DSum(t.n), !.th = VZero(TSize(t))]

\* ---- invariants ----
TemplateOk(t) ==
    /\ Len(t.th) = TSize(t) /\ TSize(t) = HSize(t.shape)
    /\ t.cov = FoldLeft(LAMBDA acc, m : MAdd(acc, m), t.covs[1], Tail(t.covs))
    /\ LET f == Fractions(t, t.th) s == DSum(f)
       IN DClose(s, "1", "0", "1e-25") \/ (s = "0" /\ IsZero(DSum(Shaped(t, t.th))))
    /\ t.th = VZero(TSize(t)) /\ ~IsZero(DSum(t.n)) =>
         VClose(VScale(DSum(t.n), Fractions(t, t.th)), t.n, "1e-25", "1e-25")
=============================================================================
