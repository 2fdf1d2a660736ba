------------------------------- MODULE Search -------------------------------
(***************************************************************************)
(* A search driven by the shipped stop criteria: the loop of an optimizer  *)
(* (find_min, next_iterations) composed with a tree of criteria (Stop).    *)
(* What an iteration does is left open; it is specified in Genetic and     *)
(* Swarm.                                                                  *)
(***************************************************************************)
EXTENDS Stop

VARIABLES alg,    \* "ga" or "pso"
          sph,    \* "idle", "asking", "ending"
          it,     \* completed iterations
          sv,     \* goal value of the reported best solution (none or one)
          known,  \* whether the next question must show sv
          from    \* iteration at the beginning of the call
searchvars == <<stopvars, alg, sph, it, sv, known, from>>

SearchStart(c) == /\ Start(c.nodes)
                  /\ alg = c.alg /\ sph = "idle" /\ it = 0 /\ sv = <<>> /\ known = FALSE /\ from = 0

\* the genetic optimizer has no solution before its first generation
Call(w) ==
    /\ sph = "idle" /\ sph' = "asking"
    /\ it' = IF w = "find" THEN 0 ELSE it
    /\ from' = it'
    /\ sv' = IF w = "find" THEN <<>> ELSE sv
    /\ known' = (w = "next" \/ alg = "ga")
    /\ UNCHANGED <<stopvars, alg>>

\* forced: the environment gives up and stops the search, whatever the criterion says
Question(i, v, calls, a, forced) ==
    /\ Must({"C07", "C30"}, sph = "asking" /\ i = it /\ (known => v = sv))
    /\ Ask(i, v, calls, a)
    /\ sph' = IF a \/ forced THEN "ending" ELSE "asking"
    \* told to go on, the optimizer makes exactly one iteration
    /\ it' = IF a \/ forced THEN i ELSE i + 1
    /\ sv' = v
    /\ known' = FALSE
    /\ UNCHANGED <<alg, from>>

\* n questions in a row, with the same best value
Questions(i, n, v, calls, segs, forced) ==
    /\ Must({"C07", "C30"}, sph = "asking" /\ i = it /\ (known => v = sv))
    /\ AskMany(i, n, v, calls, segs)
    /\ LET yes == \E k \in Idx(segs) : segs[k].a
           end == yes \/ forced
       IN /\ Must({"C07", "C30"}, yes => Len(segs) <= 2 /\ segs[Len(segs)] = [a |-> TRUE, n |-> 1])
          /\ sph' = IF end THEN "ending" ELSE "asking"
          /\ it' = IF end THEN i + n - 1 ELSE i + n
    /\ sv' = v /\ known' = FALSE
    /\ UNCHANGED <<alg, from>>

\* the iterations that a logger was told about in this call, run-length coded
Heard(h) ==
    /\ Must({"C08", "C30"}, h = IF it > from THEN <<[it |-> from + 1, n |-> it - from]>> ELSE <<>>)
    /\ UNCHANGED searchvars

Result(i, v) ==
    /\ Must({"C07", "C30"}, sph = "ending" /\ i = it /\ v = sv)
    /\ sph' = "idle" /\ it' = i /\ sv' = v /\ known' = TRUE
    /\ UNCHANGED <<stopvars, alg, from>>

Replace(ns) ==
    /\ sph = "idle"
    /\ nodes' = ns /\ mem' = [n \in Idx(ns) |-> Fresh]
    /\ UNCHANGED <<alg, sph, it, sv, known, from>>
=============================================================================
