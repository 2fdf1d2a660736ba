------------------------------ MODULE BoxTrace ------------------------------
EXTENDS Box, Json
CONSTANTS TraceFile, Diagnose
Traces == ndJsonDeserialize(TraceFile)
VARIABLES t, l
vars == <<t, l>>
Tr == Traces[t].ev
E == Tr[l]
Init == t \in Idx(Traces) /\ l = 1
Consume ==
    CASE E.e = "dims" -> Must({"C14"}, E.o = LimitDims(E.m, E.n, E.v))
      [] E.e = "abs" -> Must({"C14"}, LimitAbs(E.h, E.m, E.v, E.xv, E.xo, E.o, E.br, E.sg))
      [] E.e = "bound" -> Must({"C15"}, Boundary(E.lo, E.hi, E.x, E.o))
      [] E.e = "tele" -> Must({"C15"}, Teleport(E.p, E.lo, E.hi, E.x, E.o))
      [] E.e = "tfreq" -> Must({"C15"}, TeleportFrequency(E.p, E.n, E.hit, E.part))
      [] E.e = "trare" -> Must({"C15"}, Rare(E.ppm, E.h))
      [] E.e = "prob" -> Must({"C15"}, E.refused = ProbabilityRefused(E.zero, E.one, E.p))
      [] E.e = "make" -> Must({"C19"}, Made(E.n, E.lo, E.hi, E.o))
      [] E.e = "zero" -> Must({"C19"}, Zeros(E.n, E.dim, E.o))
      [] E.e = "refuse" -> Must({"C19"}, E.refused = Refused(E.k, E.n, E.lo, E.hi))
      [] E.e = "fill" -> Must({"C15", "C19"}, Filled(E.lo, E.hi, E.q1, E.q3, E.o))
      [] OTHER -> FALSE
Step == l <= Len(Tr) /\ Consume /\ l' = l + 1 /\ UNCHANGED t
Done == l = Len(Tr) + 1 /\ PrintT(<<"OK", t>>) /\ UNCHANGED vars
Next == \/ Step
        \/ Done
        \/ Diagnose /\ l <= Len(Tr) /\ ~ENABLED Step /\ PrintT(<<"STUCK", t, l>>) /\ UNCHANGED vars
=============================================================================
