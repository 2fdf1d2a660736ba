---------------------------- MODULE TestFuncTrace ----------------------------
EXTENDS TestFunc, Json
CONSTANTS TraceFile, Diagnose
Traces == ndJsonDeserialize(TraceFile)
VARIABLES t, l
vars == <<t, l>>
Tr == Traces[t].ev
E == Tr[l]
Init == t \in Idx(Traces) /\ l = 1
Consume ==
    CASE E.e = "val" -> Must({"C28"}, Value(E.f, E.x, E.u, E.v, E.single))
      [] E.e = "pos" -> Must({"C28"}, NotNegative(E.v, E.n, E.single))
      [] E.e = "min" -> Must({"C28"}, Minimal(E.v, E.n, E.single))
      [] E.e = "half" -> Must({"C28"}, HalfPeriod(E.a, E.v, E.w, E.single))
      [] E.e = "mirror" -> Must({"C28"}, Mirrored(E.v, E.w, E.n, E.single))
      [] E.e = "far" -> Must({"C28"}, Far(E.f, E.x, E.v))
      [] E.e = "parts" -> Must({"C28"}, Parts(E.v, E.vs, E.single))
      [] OTHER -> FALSE
Step == l <= Len(Tr) /\ Consume /\ l' = l + 1 /\ UNCHANGED t
Done == l = Len(Tr) + 1 /\ PrintT(<<"OK", t>>) /\ UNCHANGED vars
Next == \/ Step
        \/ Done
        \/ Diagnose /\ l <= Len(Tr) /\ ~ENABLED Step /\ PrintT(<<"STUCK", t, l>>) /\ UNCHANGED vars
=============================================================================
