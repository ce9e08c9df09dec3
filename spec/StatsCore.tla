----------------------------- MODULE StatsCore -----------------------------
(* Goodness of fit tests and small helpers.                                   *)
EXTENDS Num

Pearson(n, nu) == DSum(Tab(Len(n), LAMBDA i : DDiv(VSq(<<DSub(n[i], nu[i])>>)[1], nu[i])))
ChiSquare(n, nu, u) == DSum(Tab(Len(n), LAMBDA i : VSq(<<DDiv(DSub(n[i], nu[i]), u[i])>>)[1]))
\* an empty bin contributes 2 nu
LikelihoodRatio(n, nu) ==
    DMul("2", DSum(Tab(Len(n), LAMBDA i :
        IF IsZero(n[i]) THEN nu[i]
        ELSE DSub(DAdd(DMul(n[i], DLn(DDiv(n[i], nu[i]))), nu[i]), n[i]))))

\* Probability that a chi-square variable with k degrees of freedom exceeds x:
\* k even:  exp(-x/2) sum_{j < k/2} (x/2)^j / j!
\* k odd:   erfc(sqrt(x/2)) + exp(-x/2) sum_{j < (k-1)/2} (x/2)^(j+1/2) / Gamma(j+3/2)
Pi == "3.14159265358979323846264338327950288"
\* erfc by its power series (small a) or its continued fraction (large a)
Erfc(a) ==
    LET a2 == DMul(a, a)
        Ser == LET st == FoldLeft(LAMBDA s, k :
                        LET t == DDiv(DMul(DMul("2", a2), s.t), DFromInt(2 * k + 1))
                        IN [t |-> t, s |-> DAdd(s.s, t)],
                        [t |-> a, s |-> a], [k \in 1 .. 80 |-> k])
               IN DSub("1", DMul(DMul(DDiv("2", DSqrt(Pi)), DExp(DNeg(a2))), st.s))
        \* erfc(a) = exp(-a^2)/sqrt(pi) * 1/(a + (1/2)/(a + 1/(a + (3/2)/(a + ...))))
        Cf == LET f == FoldLeft(LAMBDA acc, k : DAdd(a, DDiv(DDiv(DFromInt(81 - k), "2"), acc)),
                                a, [k \in 1 .. 80 |-> k])
              IN DDiv(DExp(DNeg(a2)), DMul(DSqrt(Pi), f))
    IN IF DLt(a, "2.5") THEN Ser ELSE Cf
Chi2Sf(x, k) ==
    LET h == DDiv(x, "2")
        Fold(t0, from, n) ==  \* t0 + t0 h/from + t0 h^2/(from (from+1)) + ... (n terms)
            FoldLeft(LAMBDA s, j :
                        LET t == DDiv(DMul(s.t, h), DAdd(from, DFromInt(j - 1)))
                        IN [t |-> t, s |-> DAdd(s.s, t)],
                     [t |-> t0, s |-> t0], [j \in 1 .. n - 1 |-> j]).s
    IN IF IsZero(x) THEN "1"
       ELSE IF k % 2 = 0 THEN Fold(DExp(DNeg(h)), "1", k \div 2)
       ELSE LET r == DSqrt(h)
                e == Erfc(r)
            IN IF k = 1 THEN e
               ELSE DAdd(e, Fold(DDiv(DMul(DExp(DNeg(h)), r), DDiv(DSqrt(Pi), "2")), "1.5", (k - 1) \div 2))

\* x ln(y / x), 0 for x = 0
XLogYX(x, y) == IF IsZero(x) THEN "0" ELSE DMul(x, DLn(DDiv(y, x)))

\* consecutive parts of the given sizes (-1: the rest, which ends the list)
RECURSIVE SplitInto(_, _)
SplitInto(s, sizes) ==
    IF sizes = <<>> THEN <<>>
    ELSE IF sizes[1] < 0 THEN <<s>>
    ELSE LET k == IF sizes[1] > Len(s) THEN Len(s) ELSE sizes[1]
         IN <<SubSeq(s, 1, k)>> \o SplitInto(SubSeq(s, k + 1, Len(s)), Tail(sizes))
=============================================================================
