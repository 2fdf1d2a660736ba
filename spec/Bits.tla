-------------------------------- MODULE Bits --------------------------------
(***************************************************************************)
(* Crossovers and mutations of words and numbers.  A word is a sequence of *)
(* chunks of 16 bits, the lowest first; bits are counted from 0.           *)
(***************************************************************************)
EXTENDS Common

P2 == [k \in 0..16 |-> IF k = 0 THEN 1 ELSE IF k = 1 THEN 2 ELSE IF k = 2 THEN 4 ELSE IF k = 3 THEN 8
        ELSE IF k = 4 THEN 16 ELSE IF k = 5 THEN 32 ELSE IF k = 6 THEN 64 ELSE IF k = 7 THEN 128
        ELSE IF k = 8 THEN 256 ELSE IF k = 9 THEN 512 ELSE IF k = 10 THEN 1024 ELSE IF k = 11 THEN 2048
        ELSE IF k = 12 THEN 4096 ELSE IF k = 13 THEN 8192 ELSE IF k = 14 THEN 16384 ELSE IF k = 15 THEN 32768 ELSE 65536]

\* bits of b below position p, bits of a from it on; a, b < 2^16, p in 0..16
Mix(a, b, p) == a - (a % P2[p]) + (b % P2[p])
\* of words
Cross(a, b, p) == [k \in Idx(a) |-> IF p >= 16 * k THEN b[k]
                                    ELSE IF p <= 16 * (k - 1) THEN a[k]
                                    ELSE Mix(a[k], b[k], p - 16 * (k - 1))]
Positions(w) == 1..w - 1

\* one list of children (of the two parents) for every call
IsCrossing(w, a, b, o) == \E p \in Positions(w) : o = Cross(a, b, p)
RandomCrossings(w, a, b, o) == \A k \in Idx(o) : Len(o[k]) = 1 /\ IsCrossing(w, a, b, o[k][1])
AllCrossings(w, a, b) == {Cross(a, b, p) : p \in Positions(w)}

\* o: the positions of the flipped bits
FlipsOf(w, k, o) == /\ Len(o) <= k /\ Len(o) % 2 = k % 2
                    /\ \A i \in Idx(o) : o[i] < w
\* h[i]: how often bit i - 1 was flipped in n mutations, sizes[i]: how often i - 1 bits differed
HitsOf(w, k, n, h, sizes) ==
    /\ \A i \in Idx(h) : IF i <= w THEN h[i] > 0 ELSE h[i] = 0
    /\ \A i \in Idx(sizes) : sizes[i] > 0 => i - 1 <= k /\ (i - 1) % 2 = k % 2
    \* bits are drawn with replacement: all numbers of the same parity occur
    /\ \A c \in 0..k : c % 2 = k % 2 => sizes[c + 1] > 0

\* g: the genes before, o: after, by: what the gene mutation adds, m: probability in tenths of a percent
Mutated(by, g, o) == {i \in Idx(g) : o[i] = g[i] + by}
VecMutated(m, by, g, same, o, calls) ==
    /\ same /\ Len(o) = Len(g)
    /\ \A i \in Idx(g) : o[i] = g[i] \/ o[i] = g[i] + by
    /\ m = 0 => o = g
    /\ m = 1000 => Mutated(by, g, o) = Idx(g)
    /\ calls = LET at == SelectSeq([i \in Idx(g) |-> i], LAMBDA i : o[i] = g[i] + by)
               IN [i \in Idx(at) |-> g[at[i]]]
VecFrequency(m, n, h, rows) ==
    /\ \A i \in Idx(h) : Abs1(1000 * h[i] - m * n) <= 1000 * 190
    /\ m = 0 => \A i \in Idx(h) : h[i] = 0
    /\ m = 1000 => \A i \in Idx(h) : h[i] = n
    \* genes are decided separately
    /\ rows # <<>> =>
        /\ \A i, j \in Idx(h) : i < j =>
             LET seen == {<<rows[k][i], rows[k][j]>> : k \in Idx(rows)} IN \A x, y \in {0, 1} : <<x, y>> \in seen
        /\ \A i, j \in Idx(h) :
             LET seen == {<<rows[k][i], rows[k + 1][j]>> : k \in 1..Len(rows) - 1}
             IN \A x, y \in {0, 1} : <<x, y>> \in seen

\* ---- numeric crossovers ----

Sum(g) == FoldSeq(LAMBDA x, acc : x + acc, 0, g)
Product(g) == FoldSeq(LAMBDA x, acc : x * acc, 1, g)
\* o: children, multiplied by the number of parents unless they are integers
Mean(int, g, o) == /\ Len(o) = 1
                   /\ IF int THEN Abs1(o[1] * Len(g) - Sum(g)) < Len(g) ELSE o[1] = Sum(g)
\* o: children, to the power of the number of parents
Geometric(g, o) == o = <<Product(g)>>

ExpChild(a, b, c) == /\ IsCrossing(64, a.m, b.m, c.m)
                     /\ \E p \in Positions(16) : c.e = Mix(a.e, b.e, p)
                     /\ c.s \in {a.s, b.s}
ExpCrossings(a, b, o) == \A k \in Idx(o) : Len(o[k]) = 1 /\ ExpChild(a, b, o[k][1])
ExpReach(a, b, m, ex, s) == /\ Range1(m) = AllCrossings(64, a.m, b.m)
                            /\ Range1(ex) = {Mix(a.e, b.e, p) : p \in Positions(16)}
                            /\ Range1(s) = {a.s, b.s}

\* calls: <<gene of the first, gene of the second parent, result>>
VecCrossed(a, b, o, calls) ==
    /\ Len(calls) = Len(a)
    /\ \A i \in Idx(a) : Len(calls[i]) = 3 /\ calls[i][1] = a[i] /\ calls[i][2] = b[i]
    /\ o = <<[i \in Idx(a) |-> calls[i][3]]>>
VecMean(a, b, o) == o = <<[i \in Idx(a) |-> a[i] + b[i]]>>

ParentsRefused(k, n) == IF k \in {"mean", "geo"} THEN n < 2 ELSE n # 2
=============================================================================
