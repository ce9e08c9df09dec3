------------------------------ MODULE MC_Stat ------------------------------
(* Goodness of fit tests and helpers: a state is one call, with all arguments
   from small sets.  The laws characterise the definitions independently; every
   call is printed and becomes a test.                                        *)
EXTENDS StatsCore, Json
CONSTANTS Part
VARIABLE e
vars == <<e>>

Ns == {"0.0", "1.0", "3.0", "9.5", "250.0"}
Nus == {"0.25", "1.0", "3.0", "260.0"}
Seqs(S, k) == UNION {[1 .. j -> S] : j \in 1 .. k}
Gof == {[op |-> o, n |-> n, nu |-> nu, dof |-> d, cn |-> "nd", cnu |-> "nd"] :
          o \in {"s_pearson", "s_cowan"}, n \in Seqs(Ns, 2), nu \in Seqs(Nus, 2), d \in 1 .. 6}
Us == {"0.5", "3.0"}
ChiCalls == {c \in {[op |-> "s_default", n |-> n, nu |-> nu, u |-> u, dof |-> d, cn |-> "nd"] :
                       n \in Seqs(Ns, 2), nu \in Seqs(Nus, 2), u \in Seqs(Us, 2), d \in {1, 2, 5}} :
               Len(c.n) = Len(c.nu) /\ Len(c.n) = Len(c.u)}
GofCalls == {c \in Gof : Len(c.n) = Len(c.nu)} \cup ChiCalls

Sd == {"0.5", "1.0", "20.0"}
Rho == {"-0.9", "0.0", "0.25"}
Sym(a, b, r) == << <<DMul(a, a), DMul(r, DMul(a, b))>>, <<DMul(r, DMul(a, b)), DMul(b, b)>> >>
Cov == {[op |-> "u_cov2corr", m |-> Sym(a, b, r)] : a \in Sd, b \in Sd, r \in Rho}
       \cup {[op |-> "u_corr2cov", m |-> << <<"1.0", r>>, <<r, "1.0">> >>, s |-> <<a, b>>] : a \in Sd, b \in Sd, r \in Rho}
Xs == {"0.0", "1e-300", "1.0", "2.5", "1000.0"}
Ys == {"0.001", "1.0", "2.5", "1e5"}
XL == {[op |-> "u_xlogyx", x |-> x, y |-> y] : x \in Seqs(Xs, 2), y \in Seqs(Ys, 2)}
XLog == {c \in XL : Len(c.x) = Len(c.y)} \cup {[op |-> "u_xlogyx", x |-> <<x>>, y |-> <<y>>, scalar |-> TRUE] : x \in Xs, y \in Ys}
Elements == <<"1.5", "-2.0", "0.0", "7.0", "3.25">>
Total(z) == FoldLeft(LAMBDA acc, v : acc + v, 0, z)
Sizes == UNION {[1 .. j -> 0 .. 3] : j \in 1 .. 3}
Split == {[op |-> "u_split", s |-> SubSeq(Elements, 1, l), sizes |-> z \o r, c |-> "nd"] :
            l \in 0 .. 5, z \in {q \in Sizes : Total(q) <= 5}, r \in {<<>>, <<-1>>}}
SplitCalls == {c \in Split : Total(SelectSeq(c.sizes, LAMBDA v : v > 0)) <= Len(c.s)}

Calls == IF Part = 1 THEN GofCalls ELSE Cov \cup XLog \cup SplitCalls
Init == e \in Calls
Next == FALSE /\ UNCHANGED e
Spec == Init /\ [][Next]_vars

Eps == "1e-25"
Chi2Laws(x, k) ==
    LET p == Chi2Sf(x, k)
        step == DMul("0.001", DAdd(x, "0.001"))
        \* probability density
        h == DDiv(x, "2")
        \* P(k + 2) - P(k) = (x/2)^(k/2) exp(-x/2) / Gamma(k/2 + 1)
        Gam == FoldLeft(LAMBDA acc, j : IF j % 2 = k % 2 THEN DMul(acc, DDiv(DFromInt(j), "2")) ELSE acc,
                        IF k % 2 = 0 THEN "1" ELSE DSqrt(Pi), [j \in 1 .. k |-> j])
        Pow == DMul(FoldLeft(LAMBDA acc, j : DMul(acc, h), "1", [j \in 1 .. k \div 2 |-> j]), IF k % 2 = 0 THEN "1" ELSE DSqrt(h))
    IN /\ DLe("0", p) /\ DLe(p, "1")
       /\ DLe(Chi2Sf(DAdd(x, step), k), p)
       /\ DLe(p, Chi2Sf(x, k + 1))
       /\ DClose(DSub(Chi2Sf(x, k + 2), p), DDiv(DMul(Pow, DExp(DNeg(h))), Gam), "1e-15", "1e-20")
\* values from tables
ASSUME /\ DClose(Chi2Sf("3.841458820694124", 1), "0.05", "1e-13", "0")
       /\ DClose(Chi2Sf("5.991464547107979", 2), "0.05", "1e-13", "0")
       /\ DClose(Chi2Sf("11.344866730144373", 3), "0.01", "1e-13", "0")
       /\ DClose(Chi2Sf("18.307038053275146", 10), "0.05", "1e-13", "0")
Laws ==
    CASE e.op = "s_pearson" ->
            LET s == Pearson(e.n, e.nu) IN
            /\ DLe("0", s) /\ (IsZero(s) <=> \A i \in 1 .. Len(e.n) : DEq(e.n[i], e.nu[i]))
            /\ Chi2Laws(s, e.dof)
      [] e.op = "s_default" ->
            LET s == ChiSquare(e.n, e.nu, e.u) IN
            /\ DLe("0", s) /\ (IsZero(s) <=> \A i \in 1 .. Len(e.n) : DEq(e.n[i], e.nu[i]))
            \* Pearson's for the uncertainty of a Poisson variable; doubled uncertainties
            /\ DClose(ChiSquare(e.n, e.nu, VSqrt(e.nu)), Pearson(e.n, e.nu), Eps, Eps)
            /\ DClose(ChiSquare(e.n, e.nu, VScale("2", e.u)), DDiv(s, "4"), Eps, Eps)
            /\ Chi2Laws(s, e.dof)
      [] e.op = "s_cowan" ->
            LET s == LikelihoodRatio(e.n, e.nu) q == [i \in 1 .. Len(e.n) |-> DMul(e.nu[i], "1.0001")]
                near == LikelihoodRatio(q, e.nu) IN
            /\ DLe("-1e-28", s) /\ ((\A i \in 1 .. Len(e.n) : DEq(e.n[i], e.nu[i])) <=> DClose(s, "0", "0", Eps))
            \* close to Pearson's where the data are close to the expectation
            /\ DClose(near, Pearson(q, e.nu), "1e-3", "0")
            /\ Chi2Laws(IF DLt(s, "0") THEN "0" ELSE s, e.dof)
      [] e.op = "u_cov2corr" ->
            LET c == Cov2Corr(e.m) IN
            /\ \A i \in 1 .. 2 : DClose(c[i][i], "1", Eps, Eps)
            /\ MClose(Corr2Cov(c, VSqrt([i \in 1 .. 2 |-> e.m[i][i]])), e.m, Eps, Eps)
      [] e.op = "u_corr2cov" -> MClose(Cov2Corr(Corr2Cov(e.m, e.s)), e.m, Eps, Eps)
      [] e.op = "u_xlogyx" ->
            \A i \in 1 .. Len(e.x) : LET v == XLogYX(e.x[i], e.y[i]) IN
               /\ DLe(v, DAdd(DSub(e.y[i], e.x[i]), Eps))                  \* ln t <= t - 1
               /\ DEq(e.x[i], e.y[i]) => DClose(v, "0", "0", Eps)
               /\ ~IsZero(e.x[i]) => DClose(XLogYX(DMul(e.x[i], "3"), DMul(e.y[i], "3")), DMul("3", v), Eps, Eps)
      [] e.op = "u_split" ->
            LET p == SplitInto(e.s, e.sizes)
                all == FoldLeft(LAMBDA acc, v : acc \o v, <<>>, p) IN
            /\ IsPrefix(all, e.s)
            /\ Len(p) = Len(e.sizes)
            /\ \A i \in 1 .. Len(p) : e.sizes[i] >= 0 => Len(p[i]) = e.sizes[i]
            /\ e.sizes[Len(e.sizes)] = -1 => all = e.s
Printed == PrintT(<<"RUN", ToJson(e)>>)
=============================================================================
