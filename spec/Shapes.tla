------------------------------- MODULE Shapes -------------------------------
(***************************************************************************)
(* What contradicts itself is refused, by a panic: configurations that no  *)
(* component may have, and data whose shape does not fit the component.    *)
(* A refusal changes nothing: the component in use stays in use and works  *)
(* as if the call had not been made.                                       *)
(***************************************************************************)
EXTENDS Common

VARIABLE comp \* the component in use: its kind and configured size (kind "none": there is none)
NoComp == [k |-> "none", n |-> 0]

SizedKinds == {"prebirth", "select", "boundary", "teleport", "dims"}
FreeKinds == {"average", "deviation", "swarm"}   \* nothing is configured
PairKinds == {"bits", "exp", "genes"}            \* crossovers of two parents
MeanKinds == {"mean", "geomean"}                 \* crossovers of at least two
UsedKinds == SizedKinds \cup FreeKinds \cup PairKinds \cup MeanKinds
ConfigKinds == {"predicate", "canonical", "any", "all"}

\* a number: whole <<eighths, steps>>, where a step is smaller than any difference of eighths
Above(x, y) == x[1] > y[1] \/ (x[1] = y[1] /\ x[2] > y[2])
Plus2(x, y) == IF x[1] = NAN \/ y[1] = NAN \/ {x[1], y[1]} = {NINF, PINF} THEN <<NAN, 0>>
               ELSE IF PINF \in {x[1], y[1]} THEN <<PINF, 0>>
               ELSE IF NINF \in {x[1], y[1]} THEN <<NINF, 0>>
               ELSE <<x[1] + y[1], x[2] + y[2]>>
Number(x) == x[1] # NAN

\* c: the configuration
Contradictory(k, c) ==
    CASE k \in UsedKinds -> FALSE
      [] k = "predicate" -> c[1] # c[2]      \* numbers of expected values and of tolerances
      [] k \in {"any", "all"} -> c[1] = 0    \* number of criteria
      [] k = "canonical" ->                  \* <<personal, global, alpha>>
           LET phi == Plus2(c[1], c[2]) IN
           ~ /\ Number(phi) /\ Number(c[3])
             /\ Above(phi, <<32, 0>>) /\ Above(c[3], <<0, 0>>) /\ Above(<<8, 0>>, c[3])

\* d: the sizes of what the component is given
Mismatch(k, n, d) ==
    CASE k \in SizedKinds -> \E i \in Idx(d) : d[i] # n
      [] k \in FreeKinds -> \E i \in Idx(d) : d[i] # d[1]
      [] k \in PairKinds -> d[1] # 2      \* the number of parents
      [] k \in MeanKinds -> d[1] < 2
      [] OTHER -> FALSE

Size(k, c) == IF c = <<>> \/ k = "canonical" THEN 0 ELSE c[1]

Configure(k, c, refused) ==
    /\ Must({"C33"}, refused = Contradictory(k, c))
    /\ comp' = IF refused THEN comp ELSE [k |-> k, n |-> Size(k, c)]

\* same: what the component was given is unchanged and nothing was evaluated
\* o, fresh: the result, and that of a component on which no other call was made
Use(d, refused, same, o, fresh) ==
    /\ Must({"C33"}, refused = Mismatch(comp.k, comp.n, d))
    /\ Must({"C33"}, refused => same)
    /\ Must({"C33"}, ~refused => o = fresh)
    /\ UNCHANGED comp
=============================================================================
