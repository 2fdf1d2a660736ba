------------------------------- MODULE Pairing -------------------------------
(***************************************************************************)
(* Random pairing and tournaments on one population.                       *)
(***************************************************************************)
EXTENDS Common

VARIABLES vals    \* goal values of the population

N == Len(vals)
Best(S) == MinOf({vals[i] : i \in S})

\* a possible partner: the best of nr + 1 draws
Winners(nr) == {i \in Idx(vals) : \E D \in [1..nr + 1 -> Idx(vals)] : i \in Range1(D) /\ vals[i] = Best(Range1(D))}

Members(f) == \A i \in Idx(f) : \A j \in Idx(f[i]) : f[i][j] \in Idx(vals)

Populate(vs) == vals' = vs

RandomPairs(f) ==
    /\ Must({"C18"}, Len(f) = N \div 2 /\ (\A i \in Idx(f) : Len(f[i]) = 2) /\ Members(f))
    /\ UNCHANGED vals

\* all: the draws of every partner are known to cover the whole population
Tournaments(nf, np, nr, all, f) ==
    /\ Must({"C18"}, IF N = 0 THEN f = <<>>
                     ELSE Len(f) = nf /\ (\A i \in Idx(f) : Len(f[i]) = np) /\ Members(f))
    /\ Must({"C18"}, (all /\ N > 0) => \A i \in Idx(f) : \A j \in Idx(f[i]) : vals[f[i][j]] = Best(Idx(vals)))
    /\ UNCHANGED vals

SumPairs(S) == FoldSet(LAMBDA x, acc : x[2] + acc, 0, S)
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)

\* w[p][i]: how often individual i was partner p in `total` families.  A partner is as bad as v or worse
\* if and only if all draws were; six standard deviations are allowed (at most 3 * sqrt(total)).
Worse(v) == {i \in Idx(vals) : vals[i] >= v}
TournamentFrequencies(nr, total, w, both) ==
    /\ Must({"C18"}, \A p \in Idx(w) : \A v \in Range1(vals) :
           LET seen == SumPairs({<<i, w[p][i]>> : i \in Worse(v)})
               d == seen * Pow(N, nr + 1) - total * Pow(Cardinality(Worse(v)), nr + 1)
           IN Abs1(d) <= 190 * Pow(N, nr + 1))
    \* a single draw reaches everybody, in every combination
    /\ Must({"C18"}, nr = 0 => \A i \in Idx(both) : both[i] > 0)
    /\ UNCHANGED vals
RandomFrequencies(w, both) ==
    /\ Must({"C18"}, (\A p \in Idx(w) : \A i \in Idx(w[p]) : w[p][i] > 0) /\ \A i \in Idx(both) : both[i] > 0)
    /\ UNCHANGED vals
=============================================================================
