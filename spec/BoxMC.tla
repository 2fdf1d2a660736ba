------------------------------- MODULE BoxMC -------------------------------
(***************************************************************************)
(* A particle under the corrections, in every small box.                   *)
(***************************************************************************)
EXTENDS Box, Json
CONSTANTS MaxDim, MaxSteps, Emit
VARIABLES iv,     \* the box: <<lo, hi>> per dimension
          x,      \* the particle's position
          steps,
          what    \* the last action
mcvars == <<iv, x, steps, what>>
Places == 0..3 \cup {NINF, PINF, NAN}
Boxes == {<<1, 1>>, <<1, 2>>, <<2, 2>>}
Lo == [i \in Idx(iv) |-> iv[i][1]]
Hi == [i \in Idx(iv) |-> iv[i][2]]
Points == [Idx(iv) -> Places]

MCInit == /\ \E d \in 0..MaxDim : iv \in [1..d -> Boxes] /\ x \in [1..d -> Places]
          /\ steps = 0 /\ what = "start"
Act(w, R(_)) == \E o \in Points : R(o) /\ x' = o /\ what' = w
MCNext == /\ steps < MaxSteps /\ steps' = steps + 1 /\ UNCHANGED iv
          /\ \/ x' \in Points /\ what' = "move"
             \/ Act("bound", LAMBDA o : Boundary(Lo, Hi, x, o))
             \/ Act("never", LAMBDA o : Teleport(0, Lo, Hi, x, o))
             \/ Act("always", LAMBDA o : Teleport(100, Lo, Hi, x, o))
             \/ Act("perhaps", LAMBDA o : Teleport(50, Lo, Hi, x, o))
Spec == MCInit /\ [][MCNext]_mcvars
PrintScript == ~Emit \/ steps > 0 \/ PrintT("SCRIPT " \o ToJson([iv |-> iv, x |-> x]))

\* after the boundary correction the particle is in its box, and stays as teleports go on
Contained == what \in {"bound", "always"} => Inside(Lo, Hi, x)
StaysIn == [][(Inside(Lo, Hi, x) /\ what' # "move") => Inside(Lo, Hi, x')]_mcvars
Idempotent == [][(Inside(Lo, Hi, x) /\ what' = "bound") => x' = x]_mcvars
NeverMoves == [][what' = "never" => x' = x]_mcvars
\* every correction has a result
Possible == (\E o \in Points : Boundary(Lo, Hi, x, o)) /\ (\E o \in Points : Teleport(100, Lo, Hi, x, o))
\* limits: result within the bound, twice is once (bound 2, negative bound 1, say, by rank)
LimitOk == \A i \in Idx(x) : LET l == LimitDim(2, 1, x[i]) IN
              Within(1, 2, l) /\ LimitDim(2, 1, l) = l /\ (Within(1, 2, x[i]) => l = x[i])
=============================================================================
