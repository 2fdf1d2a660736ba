------------------------------ MODULE StopTrace ------------------------------
EXTENDS Stop, Json
CONSTANTS TraceFile, Diagnose
Traces == ndJsonDeserialize(TraceFile)
VARIABLES t, l
vars == <<t, l, stopvars>>
Tr == Traces[t].ev
E == Tr[l]
Init == t \in Idx(Traces) /\ l = 1 /\ Start(Traces[t].cfg.nodes)
Consume ==
    CASE E.e = "ask" -> Ask(E.it, E.v, E.calls, E.a)
      [] E.e = "asks" -> AskMany(E.it, E.n, E.v, E.calls, E.segs)
      [] E.e = "empty" -> Must({"C21"}, E.refused) /\ UNCHANGED stopvars
      [] OTHER -> FALSE
Step == l <= Len(Tr) /\ Consume /\ l' = l + 1 /\ UNCHANGED t
Done == l = Len(Tr) + 1 /\ PrintT(<<"OK", t>>) /\ UNCHANGED vars
Next == \/ Step
        \/ Done
        \/ Diagnose /\ l <= Len(Tr) /\ ~ENABLED Step /\ PrintT(<<"STUCK", t, l>>) /\ UNCHANGED vars
=============================================================================
