----------------------------- MODULE SelectTrace -----------------------------
EXTENDS Select, Json
CONSTANTS TraceFile, Diagnose
Traces == ndJsonDeserialize(TraceFile)
VARIABLES t, l
vars == <<t, l, selvars>>
Tr == Traces[t].ev
E == Tr[l]
Init == t \in Idx(Traces) /\ l = 1 /\ SelInit
Consume ==
    CASE E.e = "pop" -> Populate(E.vs, E.g)
      [] E.e = "die" -> Must({"C04", "C05"}, E.al = [alive EXCEPT ![E.n] = 0]) /\ Result(E.al, E.la, E.same)
      [] E.e = "limit" -> Limit(E.n, E.al, E.la, E.same)
      [] E.e = "worst" -> KillWorst(E.n, E.al, E.la, E.same)
      [] E.e = "nan" -> KillNonFinite(E.al, E.la, E.same)
      [] E.e = "ival" -> CheckInterval(E.iv, E.al, E.la, E.same)
      [] E.e = "pre" -> PreBirth(E.iv, E.g, E.o)
      [] OTHER -> FALSE
Step == l <= Len(Tr) /\ Consume /\ l' = l + 1 /\ UNCHANGED t
Done == l = Len(Tr) + 1 /\ PrintT(<<"OK", t>>) /\ UNCHANGED vars
Next == \/ Step
        \/ Done
        \/ Diagnose /\ l <= Len(Tr) /\ ~ENABLED Step /\ PrintT(<<"STUCK", t, l>>) /\ UNCHANGED vars
=============================================================================
