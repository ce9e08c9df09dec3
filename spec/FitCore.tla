------------------------------ MODULE FitCore ------------------------------
(* Minima.  A cost function is either the likelihood of a model or a quadratic
   form k + (x - c)^T A (x - c) / 2 with positive definite A.
   Settings of a fit: fix[i] is TRUE if parameter i is fixed, bnd[i] is << >> or
   <<lower, upper>>, each a number or "none".                                *)
EXTENDS ModelCore

FreeIdx(fix) == SelectSeq([i \in 1 .. Len(fix) |-> i], LAMBDA i : ~fix[i])

Clamp(b, v) ==
    IF b = <<>> THEN v
    ELSE LET w == IF b[1] # "none" /\ DLt(v, b[1]) THEN b[1] ELSE v
         IN IF b[2] # "none" /\ DLt(b[2], w) THEN b[2] ELSE w
InBounds(b, v, tol) ==
    b = <<>> \/ ( /\ (b[1] = "none" \/ DLe(DSub(b[1], tol), v))
                  /\ (b[2] = "none" \/ DLe(v, DAdd(b[2], tol))))
HasBound(b) == b # <<>> /\ (b[1] # "none" \/ b[2] # "none")

\* ---- quadratic forms ----
QVal(q, x) == DAdd(q.k, DMul("0.5", QuadForm(q.A, VSub(x, q.c))))
QGrad(q, x) == MVec(q.A, VSub(x, q.c))

\* minimum by projected coordinate descent (converges for positive definite A)
QMin(q, x0, fix, bnd) ==
    LET n == Len(x0)
        free == FreeIdx(fix)
        start == Tab(n, LAMBDA i : IF fix[i] THEN DNorm(x0[i]) ELSE Clamp(bnd[i], x0[i]))
        Step(x, i) ==
            LET g == DDot(q.A[i], VSub(x, q.c))
            IN [x EXCEPT ![i] = Clamp(bnd[i], DSub(x[i], DDiv(g, q.A[i][i])))]
        \* without active bounds the free block is solved directly
        fixedPart == VSub(start, q.c)
        Direct ==
            IF Len(free) = 0 THEN start
            ELSE LET rhs == Tab(Len(free), LAMBDA a :
                        <<DNeg(DSum([j \in 1 .. n |-> IF fix[j] THEN DMul(q.A[free[a]][j], fixedPart[j]) ELSE "0"]))>>)
                     s == MSolve(MSub(q.A, free), rhs)
                 IN Tab(n, LAMBDA i : IF fix[i] THEN start[i]
                                      ELSE DAdd(q.c[i], s[IndexIn(free, i)][1]))
        Sweep(x, r) == FoldLeft(Step, x, free)
        bounded == \E i \in 1 .. n : ~fix[i] /\ HasBound(bnd[i])
        d == Direct
    IN IF \A i \in 1 .. n : fix[i] \/ InBounds(bnd[i], d[i], "0") THEN d
       ELSE FoldLeft(Sweep, start, [r \in 1 .. 60 |-> r])

\* Karush-Kuhn-Tucker conditions of the minimum, gradient up to tol
QIsMin(q, x, fix, bnd, tol) ==
    LET g == QGrad(q, x) IN
    \A i \in 1 .. Len(x) :
        \/ fix[i]
        \/ DLe(DAbs(g[i]), tol)
        \/ bnd[i] # <<>> /\ bnd[i][1] # "none" /\ DClose(x[i], bnd[i][1], "0", tol) /\ DLe("0", g[i])
        \/ bnd[i] # <<>> /\ bnd[i][2] # "none" /\ DClose(x[i], bnd[i][2], "0", tol) /\ DLe(g[i], "0")

\* ---- likelihoods ----
\* Estimated vertical distance of x to the minimum over the free parameters:
\* g^T H^-1 g / 2 with the exact gradient and Hessian.
NewtonStep(m, T, H, x, free) ==
    LET g == NllGrad(m, T, H, x)
        h == NllHess(m, T, H, x)
        gf == Tab(Len(free), LAMBDA a : g[free[a]])
        s == MSolve(MSub(h, free), [a \in 1 .. Len(free) |-> <<gf[a]>>])
        st == IF s = <<>> THEN <<>> ELSE TLCEval([a \in 1 .. Len(free) |-> s[a][1]])
    IN IF Len(free) = 0 THEN [ok |-> TRUE, edm |-> "0", step |-> <<>>]
       ELSE IF st = <<>> THEN [ok |-> FALSE, edm |-> "nan", step |-> <<>>]
       ELSE LET e == DMul("0.5", DDot(gf, st))
            IN [ok |-> DLe("0", e), edm |-> e, step |-> st]

MoveBy(x, free, step, f) ==
    Tab(Len(x), LAMBDA i : LET a == IndexIn(free, i)
                           IN IF a = 0 THEN x[i] ELSE DSub(x[i], DMul(f, step[a])))

\* damped Newton iteration; ok is FALSE if it does not converge
NllMin(m, T, H, x0, free) ==
    LET Try(x, v, step, f) ==
            LET y == MoveBy(x, free, step, f)
            IN IF NllDefined(m, T, H, y) /\ DLe(Nll(m, T, H, y), v) THEN <<y>> ELSE <<>>
        Damp(x, v, step) ==
            FoldLeft(LAMBDA acc, f : IF acc # <<>> THEN acc ELSE Try(x, v, step, f), <<>>,
                     <<"1", "0.5", "0.25", "0.1", "0.03", "0.01", "0.001">>)
        Iter(st, r) ==
            IF st.done THEN st
            ELSE LET ns == NewtonStep(m, T, H, st.x, free)
                 IN IF ~ns.ok THEN [st EXCEPT !.done = TRUE]
                    ELSE IF DLe(ns.edm, "1e-16") THEN [st EXCEPT !.done = TRUE, !.ok = TRUE]
                    ELSE LET y == Damp(st.x, st.v, ns.step)
                         IN IF y = <<>> THEN [st EXCEPT !.done = TRUE, !.ok = DLe(ns.edm, "1e-12")]
                            ELSE [st EXCEPT !.x = y[1], !.v = Nll(m, T, H, y[1])]
    IN IF ~NllDefined(m, T, H, x0) THEN [x |-> x0, v |-> "nan", ok |-> FALSE, done |-> TRUE]
       ELSE FoldLeft(Iter, [x |-> VNorm(x0), v |-> Nll(m, T, H, x0), ok |-> FALSE, done |-> FALSE],
                     [r \in 1 .. 25 |-> r])

\* no nuisance parameter is free
NuiFixed(m, fix) == \A i \in Len(m.procs) + 1 .. NumPar(m) : fix[i]

\* covariance of the free parameters, zero for the others
FreeInverse(h, free, n) ==
    LET c == MInv(MSub(h, free))
    IN IF Len(free) = 0 THEN Tab(n, LAMBDA i : VZero(n))
       ELSE IF c = <<>> THEN <<>>
       ELSE Tab2(n, n, LAMBDA i, j :
              LET a == IndexIn(free, i) b == IndexIn(free, j)
              IN IF a = 0 \/ b = 0 THEN "0" ELSE c[a][b])

\* covariance of the expected bin contents of channel c: J C J^T
PostFitCov(m, T, x, cov, c) ==
    LET idx == ChanParIdx(m, c)
        j == ChanJac(m, T, x, c)
    IN MMul(MMul(j, MSub(cov, idx)), MTrans(j))
=============================================================================
