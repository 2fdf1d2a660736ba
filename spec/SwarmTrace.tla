----------------------------- MODULE SwarmTrace -----------------------------
(***************************************************************************)
(* Decides whether recorded executions of the particle swarm optimizer are *)
(* behaviours of Swarm.                                                    *)
(***************************************************************************)
EXTENDS Swarm, Json

CONSTANTS TraceFile, Diagnose

Traces == ndJsonDeserialize(TraceFile)

VARIABLES t, l
vars == <<t, l, svars>>

Tr == Traces[t].ev
E == Tr[l]

Init ==
    /\ t \in Idx(Traces)
    /\ l = 1
    /\ InitVars(Traces[t].cfg)

Target(e) ==
    CASE e.e \in {"find", "nextit", "set", "cc"} -> Idle
      [] e.e \in {"xinit", "vinit"} -> Init0
      [] e.e \in {"pm", "eval"} -> IF ph = Init0 THEN Init0 ELSE Moving
      [] e.e \in {"calc", "cv"} -> Moving
      [] e.e = "log" -> CASE e.w = "start" -> LStart
                          [] e.w = "resume" -> LResume
                          [] e.w = "next" -> LNext
                          [] OTHER -> LFinish
      [] e.e \in {"weigh", "weight"} -> Idle
      [] e.e = "test" -> Testing
      [] e.e = "ret" -> Returning
      [] OTHER -> -1

EventTags(e) == CASE e.e \in {"ret", "find", "nextit", "set", "cc", "weigh", "weight"} -> {"C07"}
                  [] e.e = "eval" -> {"C06", "C12"}
                  [] e.e \in {"xinit", "vinit"} -> {"C06", "C09", "C10", "C12"}
                  [] e.e = "pm" -> {"C12"}
                  [] OTHER -> PhaseTags(Target(e))

RECURSIVE Path(_)
Path(q) == IF q \in Silent THEN {Succ(q)} \cup Path(Succ(q)) ELSE {}

Consume ==
    CASE E.e = "find" -> FindMin
      [] E.e = "nextit" -> NextIterations
      [] E.e = "set" -> SetPlugins(E.cfg)
      [] E.e = "cc" -> Must({"C26"}, E.n = evals) /\ UNCHANGED svars
      [] E.e = "weigh" -> AsksInertia(E.it, E.asked)
      [] E.e = "weight" -> LinearWeight(E.w, E.n, E.t, E.o)
      [] E.e = "xinit" -> XInit(E.g, E.xs)
      [] E.e = "vinit" -> VInit(E.g, E.vs)
      [] E.e = "pm" -> PostMove(E.g, E.i, E.o)
      [] E.e = "eval" -> Evaluate(E.c)
      [] E.e = "calc" -> Calc(E)
      [] E.e = "cv" -> CorrectVelocity(E)
      [] E.e = "log" -> Log(E.g, E.it, E.b)
      [] E.e = "test" -> Test(E.g, E.it, E.b, E.a)
      [] OTHER -> Return(E.b)

Jump ==
    /\ Must(EventTags(E) \cup (IF ph \in Silent THEN {} ELSE PhaseTags(ph)), FALSE)
    /\ ph' = Target(E)
    /\ k' = 0
    /\ st' = [i \in 1..Len(cfg.pm) + 1 |-> <<>>]
    /\ p' = 0 /\ mv' = 0
    /\ UNCHANGED <<cfg, got, iv, nc, u, ev, px, pv, pu, pb, pbv, pw, pwv, iter, bestC, gw, gwv,
                   nrun, seg, evals, gbest, sep, past>>

Step ==
    /\ l <= Len(Tr)
    /\ Target(E) # -1
    /\ IF ph = Target(E) THEN Consume /\ l' = l + 1
       ELSE /\ l' = l
            /\ IF Target(E) \in Path(ph) THEN Advance ELSE Jump
    /\ UNCHANGED t

Done == /\ l = Len(Tr) + 1 /\ ph = Idle
        /\ Must({"C13"}, Separated)
        /\ PrintT(<<"OK", t>>) /\ UNCHANGED vars

Next == \/ Step
        \/ Done
        \/ Diagnose /\ l <= Len(Tr) /\ ~ENABLED Step /\ PrintT(<<"STUCK", t, l>>) /\ UNCHANGED vars
=============================================================================
