------------------------------ MODULE TwinTrace ------------------------------
EXTENDS Twin, Json
CONSTANTS TraceFile, Diagnose
Traces == ndJsonDeserialize(TraceFile)
VARIABLES t, l
vars == <<t, l, twinvars>>
Tr == Traces[t].ev
E == Tr[l]
Init == t \in Idx(Traces) /\ l = 1 /\ TwinInit({1, 2})
\* what only shows that a search is cut into pieces
Between(x) == \/ x.e \in {"nextit", "test", "ret"}
              \/ x.e = "log" /\ x.w \in {"resume", "finish"}
Consume ==
    CASE E.e = "run" -> Begin(E.m, E.why)
      [] E.e = "see" -> IF Traces[t].cfg.pieces /\ Between(E.x) THEN Pause(E.m) ELSE Show(E.m, E.x)
      [] E.e = "end" -> End(E.m, E.n)
      [] E.e = "abort" -> Abort(E.m, E.same, E.late)
      [] OTHER -> FALSE
Step == l <= Len(Tr) /\ Consume /\ l' = l + 1 /\ UNCHANGED t
Done == l = Len(Tr) + 1 /\ PrintT(<<"OK", t>>) /\ UNCHANGED vars
Next == \/ Step
        \/ Done
        \/ Diagnose /\ l <= Len(Tr) /\ ~ENABLED Step /\ PrintT(<<"STUCK", t, l>>) /\ UNCHANGED vars
=============================================================================
