------------------------------ MODULE ShapesMC ------------------------------
(***************************************************************************)
(* Every short history of configurations and uses of a component.          *)
(***************************************************************************)
EXTENDS Shapes, Json
CONSTANTS MaxLen, MaxSize, Emit
VARIABLES script,   \* the calls made so far
          said      \* what the last one said: "none", "made", "done", "refused"
mcvars == <<comp, script, said>>
Sizes == 0..MaxSize
Numbers == {<<15, 0>>, <<16, -1>>, <<16, 0>>, <<16, 1>>, <<17, 0>>, <<NAN, 0>>, <<PINF, 0>>, <<NINF, 0>>}
Alphas == {<<0, 0>>, <<0, 1>>, <<4, 0>>, <<8, -1>>, <<8, 0>>, <<NAN, 0>>}
Lists(k) == IF k \in PairKinds \cup MeanKinds THEN {<<n>> : n \in 0..MaxSize + 1}
            ELSE IF k \in {"boundary", "teleport", "dims"} THEN {<<n>> : n \in Sizes}
            ELSE IF k = "swarm" THEN Sizes \X Sizes
            ELSE UNION {[1..m -> Sizes] : m \in 0..2}
Configs(k) == IF k \in SizedKinds \cup {"any", "all"} THEN {<<n>> : n \in Sizes}
              ELSE IF k = "predicate" THEN Sizes \X Sizes
              ELSE IF k = "canonical" THEN Numbers \X Numbers \X Alphas
              ELSE {<<>>}
MCInit == comp = NoComp /\ script = <<>> /\ said = "none"
Note(a) == script' = IF Emit THEN Append(script, a) ELSE <<>>
MCNext ==
    /\ Len(script) < MaxLen
    /\ \/ /\ script = <<>>
          /\ \E k \in UsedKinds \cup ConfigKinds : \E c \in Configs(k) : \E r \in BOOLEAN :
                /\ Configure(k, c, r) /\ said' = IF r THEN "refused" ELSE "made"
                /\ Note([a |-> "config", k |-> k, c |-> c, d |-> <<>>])
       \/ /\ comp.k \in UsedKinds
          /\ \E d \in Lists(comp.k) : \E r \in BOOLEAN :
                /\ Use(d, r, TRUE, 0, 0) /\ said' = IF r THEN "refused" ELSE "done"
                /\ Note([a |-> "use", k |-> comp.k, c |-> <<>>, d |-> d])
Spec == MCInit /\ [][MCNext]_mcvars
PrintScript == ~Emit \/ script = <<>> \/ PrintT("SCRIPT " \o ToJson(script))
\* no component with a contradictory configuration is ever in use
Sane == comp.k = "canonical" \/ ~(comp.k \in {"any", "all"} /\ comp.n = 0)
\* a refusal changes nothing, and every call has exactly one outcome
Kept == [][said' = "refused" => comp' = comp]_mcvars
Decided == \A k \in SizedKinds : \A n \in Sizes : \A d \in Lists(k) :
              Mismatch(k, n, d) \in BOOLEAN /\ (d = <<n>> => ~Mismatch(k, n, d))
\* a shape that fits is the only one that does
OneFits == \A k \in {"boundary", "teleport", "dims"} : \A d \in Lists(k) :
              Cardinality({n \in Sizes : ~Mismatch(k, n, d)}) = 1
\* of more parents than two only a mean can be made
Parents == \A k \in PairKinds \cup MeanKinds : \A d \in Lists(k) :
              ~Mismatch(k, 0, d) <=> (d = <<2>> \/ (k \in MeanKinds /\ d[1] > 2))
Useful == \E x, y \in Numbers : \E z \in Alphas : ~Contradictory("canonical", <<x, y, z>>)
=============================================================================
