-------------------------------- MODULE Num --------------------------------
(* Vectors (sequences of numbers) and matrices (sequences of rows).           *)
EXTENDS Dec, Integers, Sequences, FiniteSets, TLC, SequencesExt

Tab(n, F(_)) == TLCEval([i \in 1 .. n |-> F(i)])
Tab2(n, m, F(_, _)) == TLCEval([i \in 1 .. n |-> TLCEval([j \in 1 .. m |-> F(i, j)])])

\* ---- vectors ----
VMap(v, F(_)) == TLCEval([i \in 1 .. Len(v) |-> F(v[i])])
VNorm(v) == VMap(v, DNorm)
VZero(n) == Tab(n, LAMBDA i : "0")
VConst(n, c) == Tab(n, LAMBDA i : c)
VAdd(a, b) == TLCEval([i \in 1 .. Len(a) |-> DAdd(a[i], b[i])])
VSub(a, b) == TLCEval([i \in 1 .. Len(a) |-> DSub(a[i], b[i])])
VMul(a, b) == TLCEval([i \in 1 .. Len(a) |-> DMul(a[i], b[i])])
VDiv(a, b) == TLCEval([i \in 1 .. Len(a) |-> DDiv(a[i], b[i])])
VScale(c, a) == TLCEval([i \in 1 .. Len(a) |-> DMul(c, a[i])])
VSqrt(a) == VMap(a, DSqrt)
VSq(a) == VMul(a, a)
VAbs(a) == VMap(a, DAbs)
VSumAll(n, vs) == FoldLeft(LAMBDA acc, v : VAdd(acc, v), VZero(n), vs)
\* elements a[i .. i+n-1]
Slice(a, i, n) == SubSeq(a, i, i + n - 1)
Concat(ss) == FoldLeft(LAMBDA acc, s : acc \o s, <<>>, ss)
IsZero(x) == DEq(x, "0")
VMaxAbs(v) == FoldLeft(LAMBDA acc, x : DMax(acc, DAbs(x)), "0", v)
AllFinite(v) == \A i \in 1 .. Len(v) : DFinite(v[i])
NumCount(n) == DFromInt(n)

\* ---- matrices ----
MDiag(v) == Tab2(Len(v), Len(v), LAMBDA i, j : IF i = j THEN v[i] ELSE "0")
MDiagOf(m) == Tab(Len(m), LAMBDA i : m[i][i])
MEye(n) == Tab2(n, n, LAMBDA i, j : IF i = j THEN "1" ELSE "0")
MAdd(a, b) == TLCEval([i \in 1 .. Len(a) |-> VAdd(a[i], b[i])])
MScale(c, a) == TLCEval([i \in 1 .. Len(a) |-> VScale(c, a[i])])
MOuter(a, b) == Tab2(Len(a), Len(b), LAMBDA i, j : DMul(a[i], b[j]))
MVec(m, v) == TLCEval([i \in 1 .. Len(m) |-> DDot(m[i], v)])
MTrans(m) == IF Len(m) = 0 THEN m
             ELSE Tab2(Len(m[1]), Len(m), LAMBDA i, j : m[j][i])
MMul(a, b) == LET bt == MTrans(b)
              IN Tab2(Len(a), Len(bt), LAMBDA i, j : DDot(a[i], bt[j]))
MSub(m, idx) == Tab2(Len(idx), Len(idx), LAMBDA i, j : m[idx[i]][idx[j]])
QuadForm(m, v) == DDot(v, MVec(m, v))

\* Gauss-Jordan elimination with partial pivoting: solves m x = b for every
\* column of b.  << >> if m is singular.
LOCAL PivotRow(a, k) ==
    FoldLeft(LAMBDA best, r : IF DLt(DAbs(a[best][k]), DAbs(a[r][k])) THEN r ELSE best,
             k, [i \in 1 .. Len(a) - k |-> k + i])
LOCAL Eliminate(a, k) ==
    LET p   == PivotRow(a, k)
        sw  == IF p = k THEN a ELSE [a EXCEPT ![k] = a[p], ![p] = a[k]]
        piv == VScale(DDiv("1", sw[k][k]), sw[k])
    IN TLCEval([i \in 1 .. Len(a) |->
                 IF i = k THEN piv
                 ELSE IF IsZero(sw[i][k]) THEN sw[i]
                 ELSE VSub(sw[i], VScale(sw[i][k], piv))])
MSolve(m, b) ==
    LET n == Len(m)
        aug == TLCEval([i \in 1 .. n |-> VNorm(m[i]) \o b[i]])
        red == FoldLeft(LAMBDA a, k : IF a = <<>> THEN a
                                      ELSE IF IsZero(a[PivotRow(a, k)][k]) THEN <<>>
                                      ELSE Eliminate(a, k),
                        aug, [i \in 1 .. n |-> i])
    IN IF red = <<>> THEN <<>> ELSE TLCEval([i \in 1 .. n |-> SubSeq(red[i], n + 1, Len(red[i]))])
MInv(m) == MSolve(m, MEye(Len(m)))

\* standard deviations and correlations of a covariance matrix
Cov2Corr(c) ==
    LET s == TLCEval([i \in 1 .. Len(c) |-> DSqrt(c[i][i])])
    \* what does not vary is not correlated with anything
    IN Tab2(Len(c), Len(c), LAMBDA i, j :
            IF IsZero(s[i]) \/ IsZero(s[j]) THEN "0" ELSE DDiv(c[i][j], DMul(s[i], s[j])))
Corr2Cov(r, s) == Tab2(Len(r), Len(r), LAMBDA i, j : DMul(s[i], DMul(r[i][j], s[j])))

\* the number lo + (hi - lo) i / n
LinPoint(lo, hi, i, n) == DAdd(lo, DMul(DSub(hi, lo), DDiv(DFromInt(i), DFromInt(n))))
\* n equidistant numbers from lo to hi
LinSpace(lo, hi, n) ==
    IF n = 1 THEN <<DNorm(lo)>> ELSE Tab(n, LAMBDA i : LinPoint(lo, hi, i - 1, n - 1))

\* ---- flat (row major) arrays of shape <<nx, ny>> ----
RowSums(f, nx, ny) == Tab(nx, LAMBDA i : DSum(Slice(f, (i - 1) * ny + 1, ny)))
ColSums(f, nx, ny) == Tab(ny, LAMBDA j : DSum([i \in 1 .. nx |-> f[(i - 1) * ny + j]]))

\* ---- comparison ----
VClose(a, b, rel, abs) ==
    /\ Len(a) = Len(b)
    /\ \A i \in 1 .. Len(a) : DClose(a[i], b[i], rel, abs)
\* with a tolerance of its own for every element
VCloseV(a, b, tol) ==
    /\ Len(a) = Len(b)
    /\ \A i \in 1 .. Len(a) : DClose(a[i], b[i], "0", tol[i])
VEq(a, b) == /\ Len(a) = Len(b)
             /\ \A i \in 1 .. Len(a) : DEq(a[i], b[i])
MClose(a, b, rel, abs) ==
    /\ Len(a) = Len(b)
    /\ \A i \in 1 .. Len(a) : VClose(a[i], b[i], rel, abs)
=============================================================================
