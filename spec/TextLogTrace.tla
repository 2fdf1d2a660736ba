---------------------------- MODULE TextLogTrace ----------------------------
EXTENDS TextLog, Json
CONSTANTS TraceFile, Diagnose
Traces == ndJsonDeserialize(TraceFile)
VARIABLES t, l
vars == <<t, l, textvars>>
Tr == Traces[t].ev
P == Traces[t].cfg.p
E == Tr[l]
Init == t \in Idx(Traces) /\ l = 1 /\ Start0
Consume ==
    CASE E.e = "call" -> Call(E.w, E.it, E.s, P, E.out, E.lo, E.hi)
      [] E.e = "session" -> Session(E.new, E.bs, P, E.out, E.lo, E.hi)
      [] OTHER -> FALSE
Step == l <= Len(Tr) /\ Consume /\ l' = l + 1 /\ UNCHANGED t
Done == l = Len(Tr) + 1 /\ PrintT(<<"OK", t>>) /\ UNCHANGED vars
Next == \/ Step
        \/ Done
        \/ Diagnose /\ l <= Len(Tr) /\ ~ENABLED Step /\ PrintT(<<"STUCK", t, l>>) /\ UNCHANGED vars
=============================================================================
