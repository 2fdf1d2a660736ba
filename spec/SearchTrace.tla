----------------------------- MODULE SearchTrace -----------------------------
EXTENDS Search, Json
CONSTANTS TraceFile, Diagnose
Traces == ndJsonDeserialize(TraceFile)
VARIABLES t, l
vars == <<t, l, searchvars>>
Tr == Traces[t].ev
E == Tr[l]
Init == t \in Idx(Traces) /\ l = 1 /\ SearchStart(Traces[t].cfg)
Consume ==
    CASE E.e = "call" -> Call(E.w)
      [] E.e = "ask" -> Question(E.it, E.v, E.calls, E.a, E.forced)
      [] E.e = "asks" -> Questions(E.it, E.n, E.v, E.calls, E.segs, E.forced)
      [] E.e = "heard" -> Heard(E.h)
      [] E.e = "ret" -> Result(E.it, E.v)
      [] E.e = "set" -> Replace(E.nodes)
      [] OTHER -> FALSE
Step == l <= Len(Tr) /\ Consume /\ l' = l + 1 /\ UNCHANGED t
Done == l = Len(Tr) + 1 /\ sph = "idle" /\ PrintT(<<"OK", t>>) /\ UNCHANGED vars
Next == \/ Step
        \/ Done
        \/ Diagnose /\ l <= Len(Tr) /\ ~ENABLED Step /\ PrintT(<<"STUCK", t, l>>) /\ UNCHANGED vars
=============================================================================
