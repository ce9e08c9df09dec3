------------------------------ MODULE HistCore ------------------------------
(* Histograms.  A histogram is a record
     dim    1 or 2
     edges  one increasing sequence of numbers per axis
     shape  number of bins per axis
     cnt    sum of weights per bin, esq  sum of squared weights per bin
            (flat, row major)
     mag    sum of absolute weights per bin: scale of the rounding errors of
            the floating point sums of the implementation
     filled whether the histogram counts as filled                           *)
EXTENDS Num

HSize(shape) == FoldLeft(LAMBDA a, n : a * n, 1, shape)
ShapeOf(edges) == Tab(Len(edges), LAMBDA a : Len(edges[a]) - 1)

HEmpty(edges) ==
    LET sh == ShapeOf(edges) n == HSize(sh)
    IN [dim |-> Len(edges), edges |-> edges, shape |-> sh,
        cnt |-> VZero(n), esq |-> VZero(n), mag |-> VZero(n), filled |-> FALSE]

HFromBinned(edges, counts, errs) ==
    [dim |-> Len(edges), edges |-> edges, shape |-> ShapeOf(edges),
     cnt |-> VNorm(counts), esq |-> VSq(errs), mag |-> VAbs(counts), filled |-> TRUE]

\* 0 if x lies in no bin, else the number of its bin.  A bin contains its lower
\* and not its upper edge, the last one contains both.
BinOf(es, x) ==
    LET n == Len(es) - 1
    IN IF ~DLe(es[1], x) \/ ~DLe(x, es[n + 1]) THEN 0
       ELSE IF DEq(x, es[n + 1]) THEN n
       ELSE CHOOSE i \in 1 .. n : DLe(es[i], x) /\ DLt(x, es[i + 1])

\* flat index of an entry, 0 if it lies outside
CellOf(edges, cols, k) ==
    LET i == BinOf(edges[1], cols[1][k])
    IN IF Len(edges) = 1 THEN i
       ELSE LET j == BinOf(edges[2], cols[2][k])
            IN IF i = 0 \/ j = 0 THEN 0 ELSE (i - 1) * (Len(edges[2]) - 1) + j

Book(n, cells, vals) ==
    TLCEval([b \in 1 .. n |->
        DSum([q \in 1 .. Len(cells) |-> IF cells[q] = b THEN vals[q] ELSE "0"])])

\* the same, with the entries of a bin selected first
BookFast(n, cells, vals) ==
    LET pick(b) == SelectSeq([q \in 1 .. Len(cells) |-> q], LAMBDA q : cells[q] = b)
    IN TLCEval([b \in 1 .. n |-> LET s == pick(b) IN DSum([q \in 1 .. Len(s) |-> vals[s[q]]])])

\* sums of the weights of the entries in each bin
BinSums(edges, cols, w) ==
    LET cells == Tab(Len(cols[1]), LAMBDA k : CellOf(edges, cols, k))
    IN BookFast(HSize(ShapeOf(edges)), cells, w)

FillWeights(n, hasw, w) == IF hasw THEN VNorm(w) ELSE VConst(n, "1")

HFill(h, cols, w) ==
    LET cells == Tab(Len(cols[1]), LAMBDA k : CellOf(h.edges, cols, k))
        n == Len(h.cnt)
    IN [h EXCEPT !.cnt = VAdd(@, BookFast(n, cells, w)),
                 !.esq = VAdd(@, BookFast(n, cells, VSq(w))),
                 !.mag = VAdd(@, BookFast(n, cells, VAbs(w))),
                 !.filled = TRUE]

\* a fill is rejected unless there is one weight per entry and one value per
\* axis and entry
FillOk(h, cols, hasw, w, junk) ==
    /\ ~junk
    /\ Len(cols) = h.dim
    /\ \A a \in 1 .. Len(cols) : Len(cols[a]) = Len(cols[1])
    /\ hasw => Len(w) = Len(cols[1])

HProject(h, axis) ==
    LET nx == h.shape[1] ny == h.shape[2]
        P(f) == IF axis = 1 THEN RowSums(f, nx, ny) ELSE ColSums(f, nx, ny)
    IN [dim |-> 1, edges |-> <<h.edges[axis]>>, shape |-> <<h.shape[axis]>>,
        cnt |-> P(h.cnt), esq |-> P(h.esq), mag |-> P(h.mag), filled |-> TRUE]

HScale(h, c) ==
    [h EXCEPT !.cnt = VScale(c, @), !.esq = VScale(DMul(c, c), @),
              !.mag = VScale(DAbs(c), @)]

Mids(es) == Tab(Len(es) - 1, LAMBDA i : DDiv(DAdd(es[i], es[i + 1]), "2"))
Widths(es) == Tab(Len(es) - 1, LAMBDA i : DSub(es[i + 1], es[i]))
HRange(h) == TLCEval([a \in 1 .. h.dim |-> <<h.edges[a][1], h.edges[a][Len(h.edges[a])]>>])

\* Equal width edges.  The implementation's floating point edges e may differ
\* from the exact ones in the last digits; they are adopted if they are
\* increasing, end exactly at the limits and agree to 12 digits.
EqualEdges(lo, hi, n) == LinSpace(lo, hi, n + 1)
EdgesAgree(e, lo, hi, n) ==
    LET x == EqualEdges(lo, hi, n)
    IN /\ Len(e) = n + 1
       /\ AllFinite(e)
       /\ DEq(e[1], lo) /\ DEq(e[n + 1], hi)
       /\ \A i \in 1 .. n : DLt(e[i], e[i + 1])
       /\ \A i \in 1 .. n + 1 :
            DClose(e[i], x[i], "1e-12", DMul("1e-12", DSub(hi, lo)))

\* ---- invariants of a histogram ----
HistOk(h) ==
    /\ h.dim \in {1, 2} /\ Len(h.edges) = h.dim
    /\ h.shape = ShapeOf(h.edges)
    /\ Len(h.cnt) = HSize(h.shape) /\ Len(h.esq) = Len(h.cnt)
    /\ \A a \in 1 .. h.dim : \A i \in 1 .. h.shape[a] : DLt(h.edges[a][i], h.edges[a][i + 1])
    /\ \A b \in 1 .. Len(h.cnt) : DLe("0", h.esq[b]) /\ DLe(DAbs(h.cnt[b]), h.mag[b])
=============================================================================
