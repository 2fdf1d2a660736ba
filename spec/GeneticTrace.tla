---------------------------- MODULE GeneticTrace ----------------------------
(***************************************************************************)
(* Decides whether recorded executions of the genetic optimizer are        *)
(* behaviours of Genetic.  A trace that is one is reported as OK; one that *)
(* is not gets stuck at the first event that cannot be explained.          *)
(***************************************************************************)
EXTENDS Genetic, Json

CONSTANTS TraceFile, Diagnose

Traces == ndJsonDeserialize(TraceFile)

VARIABLES t, l
vars == <<t, l, gvars>>

Tr == Traces[t].ev
E == Tr[l]

Init ==
    /\ t \in Idx(Traces)
    /\ l = 1
    /\ InitVars(Traces[t].cfg)

Target(e) ==
    CASE e.e = "find" -> Idle
      [] e.e = "nextit" -> Idle
      [] e.e = "set" -> Idle
      [] e.e = "cc" -> Idle
      [] e.e = "create" -> Creating
      [] e.e = "eval" -> IF ph \in {Creating, Birth0} THEN Birth0 ELSE Birth
      [] e.e = "log" -> CASE e.w = "start" -> LStart
                          [] e.w = "resume" -> LResume
                          [] e.w = "next" -> LNext
                          [] OTHER -> LFinish
      [] e.e = "test" -> Testing
      [] e.e = "pair" -> Pairing
      [] e.e \in {"cross", "mut"} -> Breeding
      [] e.e = "pre" -> PreBirthing
      [] e.e = "sel" -> Selecting
      [] e.e = "ret" -> Returning
      [] OTHER -> -1    \* "panic", "hang": never allowed

EventTags(e) == CASE e.e = "ret" -> {"C07"}
                  [] e.e \in {"find", "nextit", "set", "cc"} -> {"C07"}
                  [] OTHER -> PhaseTags(Target(e)) \cup
                              (IF e.e = "create" THEN {"C01", "C09", "C10"} ELSE {})

\* The phases that follow p without a call
RECURSIVE Path(_)
Path(p) == IF p \in Silent THEN {Succ(p)} \cup Path(Succ(p)) ELSE {}

Consume ==
    CASE E.e = "find" -> FindMin
      [] E.e = "nextit" -> NextIterations
      [] E.e = "set" -> SetPlugins(E.cfg)
      [] E.e = "cc" -> Must({"C26"}, E.n = evals) /\ UNCHANGED gvars
      [] E.e = "create" -> Create(E.g, E.xs)
      [] E.e = "eval" -> Evaluate(E.c)
      [] E.e = "log" -> Log(E.g, E.it, E.b)
      [] E.e = "test" -> Test(E.g, E.it, E.b, E.a)
      [] E.e = "pair" -> Pair(E.g, E, E.f)
      [] E.e = "cross" -> Cross(E.g, E.c)
      [] E.e = "mut" -> Mutate(E.g, E.c)
      [] E.e = "pre" -> PreBirth(E.g, E, E.i, E.o)
      [] E.e = "sel" -> Select(E.g, E, E.d2, E.same, E.meant)
      [] OTHER -> Return(E.b)

\* The event does not belong to this point of the pipeline.  Adopted by checks of other properties.
Jump ==
    /\ Must(EventTags(E) \cup (IF ph \in Silent THEN {} ELSE PhaseTags(ph)), FALSE)
    /\ ph' = Target(E)
    /\ k' = 0
    /\ UNCHANGED <<cfg, px, pv, dead, iter, bestC, worstC, fam, kids, nb, ev, nrun, seg, evals, gbest>>

Step ==
    /\ l <= Len(Tr)
    /\ Target(E) # -1
    /\ IF ph = Target(E) THEN Consume /\ l' = l + 1
       ELSE /\ l' = l
            /\ IF Target(E) \in Path(ph) THEN Advance ELSE Jump
    /\ UNCHANGED t

\* A finished trace ends between two calls of the user.
Done == l = Len(Tr) + 1 /\ ph = Idle /\ PrintT(<<"OK", t>>) /\ UNCHANGED vars

Next == \/ Step
        \/ Done
        \/ Diagnose /\ l <= Len(Tr) /\ ~ENABLED Step /\ PrintT(<<"STUCK", t, l>>) /\ UNCHANGED vars
=============================================================================
