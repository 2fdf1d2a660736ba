------------------------------- MODULE TwinMC -------------------------------
(***************************************************************************)
(* Two small searches, each with a state of its own and choices of its own *)
(* plug-ins, run any number of times, one after the other, nested or       *)
(* interleaved at every step, or cut off by a panic of a plug-in.          *)
(***************************************************************************)
EXTENDS Twin
CONSTANTS Answers, Steps, Runs
VARIABLES choice,  \* what the plug-ins of a scenario answer, step by step
          state,   \* states of the searches under way
          runs     \* runs begun
mcvars == <<twinvars, choice, state, runs>>
S == {1, 2}

MCInit == /\ TwinInit(S)
          /\ choice \in [S -> [1..Steps -> Answers]]
          /\ state = [m \in S |-> 0] /\ runs = 0
\* a search shows its state and goes on as its plug-ins choose
DoBegin(m) == /\ runs < Runs /\ (\E w \in {"C09", "C10", "C31", "C32"} : Begin(m, w)) /\ runs' = runs + 1 /\ state' = [state EXCEPT ![m] = 0] /\ UNCHANGED choice
\* the choices end the search early when they bring it to 2
Over(m) == run[m] = Steps \/ state[m] >= 2
DoShow(m) == /\ ~Over(m) /\ Show(m, state[m])
             /\ state' = [state EXCEPT ![m] = @ + choice[m][run[m] + 1]] /\ UNCHANGED <<choice, runs>>
DoEnd(m) == /\ Over(m) /\ End(m, run[m]) /\ UNCHANGED <<choice, state, runs>>
\* the search is paused between two steps; its state stays
DoPause(m) == /\ Pause(m) /\ UNCHANGED <<choice, state, runs>>
\* a plug-in panics; what the search had come to is left behind
DoAbort(m) == /\ run[m] >= 0 /\ Abort(m, TRUE, 0) /\ UNCHANGED <<choice, state, runs>>
MCNext == \E m \in S : DoBegin(m) \/ DoShow(m) \/ DoEnd(m) \/ DoAbort(m) \/ DoPause(m)
Spec == MCInit /\ [][MCNext]_mcvars

\* no run of a scenario differs from the first: the guards never stand in the way
NeverStuck == \A m \in S : run[m] >= 0 => IF Over(m) THEN ENABLED DoEnd(m) ELSE ENABLED DoShow(m)
\* and what is shown depends on nothing but the choices
RECURSIVE Alone(_, _)
Alone(m, n) == IF n = 1 THEN 0 ELSE Alone(m, n - 1) + choice[m][n - 1]
Own == \A m \in S : \A i \in Idx(seen[m]) : seen[m][i] = Alone(m, i)
=============================================================================
