------------------------------- MODULE Select -------------------------------
(***************************************************************************)
(* The shipped selections and pre-birth filters, on one population.        *)
(***************************************************************************)
EXTENDS Common

VARIABLES
    vals,    \* goal values of the individuals
    genes,   \* their genes
    alive    \* 1: alive, 0: killed

selvars == <<vals, genes, alive>>

Live == {i \in Idx(vals) : alive[i] = 1}
Min2(a, b) == IF a < b THEN a ELSE b

\* Sets of the k worst live individuals
WorstSets(k) == {K \in SUBSET Live :
                   /\ Cardinality(K) = Min2(k, Cardinality(Live))
                   /\ \A i \in K, j \in Live \ K : vals[j] <= vals[i]}
IsWorst(k, K) == /\ K \subseteq Live
                 /\ Cardinality(K) = Min2(k, Cardinality(Live))
                 /\ LET L == Live \ K
                        top == FoldSet(LAMBDA j, acc : IF vals[j] > acc THEN vals[j] ELSE acc, NINF, L)
                    IN \A i \in K : top <= vals[i]
Surplus(n) == IF Cardinality(Live) > n THEN Cardinality(Live) - n ELSE 0

NonFinite == {i \in Live : ~Finite(vals[i])}

\* genes inside the closed intervals of their positions
Inside(g, iv) == Len(g) = Len(iv) /\ \A d \in Idx(g) : Finite(g[d]) /\ iv[d][1] <= g[d] /\ g[d] <= iv[d][2]

Killed(K) == [i \in Idx(vals) |-> IF i \in K THEN 0 ELSE alive[i]]

SelInit == vals = <<>> /\ genes = <<>> /\ alive = <<>>

\* a new population
Populate(vs, g) == vals' = vs /\ genes' = g /\ alive' = [i \in Idx(vs) |-> 1]
Die(i) == alive' = [alive EXCEPT ![i] = 0] /\ UNCHANGED <<vals, genes>>

\* Actions with their result al (alive flags afterwards)
Dead(al) == {i \in Live : al[i] = 0}
Result(al, la, same) ==
    /\ Must({"C04", "C05"}, Len(al) = Len(vals) /\ same)
    /\ Must({"C04", "C05"}, \A i \in Idx(vals) : alive[i] = 0 => al[i] = 0)
    /\ Must({"C04"}, la = Cardinality({i \in Idx(al) : al[i] = 1}))
    /\ alive' = al
    /\ UNCHANGED <<vals, genes>>

Limit(n, al, la, same) == Must({"C04"}, IsWorst(Surplus(n), Dead(al))) /\ Result(al, la, same)
KillWorst(n, al, la, same) == Must({"C04"}, IsWorst(n, Dead(al))) /\ Result(al, la, same)
KillNonFinite(al, la, same) == Must({"C05"}, Dead(al) = NonFinite) /\ Result(al, la, same)
CheckInterval(iv, al, la, same) ==
    Must({"C05"}, Dead(al) = {i \in Live : ~Inside(genes[i], iv)}) /\ Result(al, la, same)
PreBirth(iv, g, o) ==
    /\ Must({"C05"}, o = SelectSeq(g, LAMBDA x : Inside(x, iv)))
    /\ UNCHANGED selvars
=============================================================================
