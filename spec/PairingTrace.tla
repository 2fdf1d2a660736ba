---------------------------- MODULE PairingTrace ----------------------------
EXTENDS Pairing, Json
CONSTANTS TraceFile, Diagnose
Traces == ndJsonDeserialize(TraceFile)
VARIABLES t, l
vars == <<t, l, vals>>
Tr == Traces[t].ev
E == Tr[l]
Init == t \in Idx(Traces) /\ l = 1 /\ vals = <<>>
Consume ==
    CASE E.e = "pop" -> Populate(E.vs)
      [] E.e = "random" -> RandomPairs(E.f)
      [] E.e = "tour" -> Tournaments(E.nf, E.np, E.nr, E.all, E.f)
      [] E.e = "tfreq" -> TournamentFrequencies(E.nr, E.total, E.w, E.both)
      [] E.e = "rfreq" -> RandomFrequencies(E.w, E.both)
      [] OTHER -> FALSE
Step == l <= Len(Tr) /\ Consume /\ l' = l + 1 /\ UNCHANGED t
Done == l = Len(Tr) + 1 /\ PrintT(<<"OK", t>>) /\ UNCHANGED vars
Next == \/ Step
        \/ Done
        \/ Diagnose /\ l <= Len(Tr) /\ ~ENABLED Step /\ PrintT(<<"STUCK", t, l>>) /\ UNCHANGED vars
=============================================================================
