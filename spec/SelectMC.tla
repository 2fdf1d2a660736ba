------------------------------ MODULE SelectMC ------------------------------
(***************************************************************************)
(* All small populations, all selections in any order.                     *)
(***************************************************************************)
EXTENDS Select, Json
CONSTANTS MaxLen, MaxOps, Emit
VARIABLES ops, op
mcvars == <<selvars, ops, op>>

Values == {1, 2, NINF, PINF, NAN}
MCInit ==
    /\ \E n \in 0..MaxLen : vals \in [1..n -> Values] /\ alive \in [1..n -> {0, 1}]
    /\ genes = <<>>
    /\ ops = 0
    /\ op = <<"none", 0>>

Count(al) == Cardinality({i \in Idx(al) : al[i] = 1})
Do(K) == Killed(K)

MCNext ==
    /\ ops < MaxOps
    /\ ops' = ops + 1
    /\ \/ \E n \in 0..MaxLen + 1 : \E K \in WorstSets(Surplus(n)) :
             LET al == Killed(K) IN Limit(n, al, Count(al), TRUE) /\ op' = <<"limit", n>>
       \/ \E n \in 0..MaxLen + 1 : \E K \in WorstSets(n) :
             LET al == Killed(K) IN KillWorst(n, al, Count(al), TRUE) /\ op' = <<"worst", n>>
       \/ LET al == Killed(NonFinite) IN KillNonFinite(al, Count(al), TRUE) /\ op' = <<"nan", 0>>
Spec == MCInit /\ [][MCNext]_mcvars

PrintScript == ~Emit \/ ops > 0 \/ PrintT("SCRIPT " \o ToJson([i \in Idx(vals) |-> [v |-> vals[i], a |-> alive[i]]]))

\* the relations are never empty: every selection has an answer
Possible == \A n \in 0..MaxLen + 1 : WorstSets(n) # {} /\ WorstSets(Surplus(n)) # {}
Bounded == op[1] = "limit" => Cardinality(Live) <= op[2]
NoRevival == [][\A i \in Idx(vals) : alive[i] = 0 => alive'[i] = 0]_mcvars
\* values of the survivors do not depend on the choice among ties
Multiset(S, f) == [v \in Values |-> Cardinality({i \in S : f[i] = v})]
Deterministic == \A n \in 0..MaxLen + 1 : \A K1, K2 \in WorstSets(n) : Multiset(K1, vals) = Multiset(K2, vals)
\* the filter followed by a limit of at least one keeps a best finite individual
KeepsBest == [][(op'[1] = "limit" /\ op'[2] >= 1 /\ Live # {})
                => MinOf({vals[i] : i \in {j \in Idx(vals) : alive'[j] = 1}}) = MinOf({vals[i] : i \in Live})]_mcvars
Twice == [][(op[1] = op'[1] /\ op[2] = op'[2] /\ op[1] \in {"limit", "nan"}) => alive' = alive]_mcvars
=============================================================================
