-------------------------------- MODULE Twin --------------------------------
(***************************************************************************)
(* Searches as machines of their own: what a search shows of itself is     *)
(* determined by the choices of its plug-ins (its scenario).  The first    *)
(* run of a scenario teaches what every further one has to show, whatever  *)
(* runs before, inside, or next to it: other searches (C31), earlier ones  *)
(* on the same optimizer (C10), also such as were cut off by a panic of    *)
(* one of their plug-ins (C32).  Pauses (C09) show themselves, but change  *)
(* nothing of what the search shows otherwise.                             *)
(***************************************************************************)
EXTENDS Common

VARIABLES seen,   \* scenario -> what its first run showed (<<>>: not run)
          len,    \* scenario -> <<how much that was in all>>
          run,    \* the runs under way: scenario -> position, -1 when there is none
          first,  \* scenario -> whether the run under way is the first
          why     \* scenario -> the property by which the run under way has to be like the first
twinvars == <<seen, len, run, first, why>>

TwinInit(S) == /\ seen = [m \in S |-> <<>>] /\ len = [m \in S |-> <<>>]
               /\ run = [m \in S |-> -1] /\ first = [m \in S |-> TRUE]
               /\ why = [m \in S |-> "C31"]

Begin(m, w) == /\ run[m] = -1
               /\ run' = [run EXCEPT ![m] = 0]
               /\ first' = [first EXCEPT ![m] = len[m] = <<>>]
               /\ why' = [why EXCEPT ![m] = w]
               /\ UNCHANGED <<seen, len>>
Show(m, x) ==
    /\ run[m] >= 0
    /\ run' = [run EXCEPT ![m] = @ + 1]
    /\ IF first[m] THEN seen' = [seen EXCEPT ![m] = Append(@, x)]
       ELSE /\ Must({why[m]}, run[m] < Len(seen[m]) /\ seen[m][run[m] + 1] = x)
            /\ UNCHANGED seen
    /\ UNCHANGED <<len, first, why>>
\* the end of a piece of the search, and the beginning of the next
Pause(m) == run[m] >= 0 /\ UNCHANGED twinvars
\* n: how much was shown (more than is written down)
End(m, n) ==
    /\ run[m] >= 0
    /\ run' = [run EXCEPT ![m] = -1]
    /\ IF first[m] THEN len' = [len EXCEPT ![m] = <<n>>]
       ELSE /\ Must({why[m]}, run[m] = Len(seen[m]) /\ len[m] = <<n>>)
            /\ UNCHANGED len
    /\ UNCHANGED <<seen, first, why>>
\* a plug-in panicked; same: what the caller caught is the very panic; late: plug-ins called afterwards.
\* A run that was cut off teaches nothing.
Abort(m, same, late) ==
    /\ run[m] >= 0
    /\ Must({"C32"}, same /\ late = 0)
    /\ run' = [run EXCEPT ![m] = -1]
    /\ seen' = IF first[m] THEN [seen EXCEPT ![m] = <<>>] ELSE seen
    /\ UNCHANGED <<len, first, why>>
=============================================================================
