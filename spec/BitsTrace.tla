------------------------------ MODULE BitsTrace ------------------------------
EXTENDS Bits, Json
CONSTANTS TraceFile, Diagnose
Traces == ndJsonDeserialize(TraceFile)
VARIABLES t, l
vars == <<t, l>>
Tr == Traces[t].ev
E == Tr[l]
Init == t \in Idx(Traces) /\ l = 1
Consume ==
    CASE E.e = "bytes" -> Must({"C16"}, Len(E.o) = 256 /\ \A b \in 0..255 : E.o[b + 1] = Mix(E.a, b, E.p))
      [] E.e = "words" -> Must({"C16"}, E.o = [p \in Positions(E.w) |-> Cross(E.a, E.b, p)])
      [] E.e = "bitwise" -> Must({"C16"}, RandomCrossings(E.w, E.a, E.b, E.o))
      [] E.e = "reach" -> Must({"C16"}, Range1(E.o) = AllCrossings(E.w, E.a, E.b))
      [] E.e = "parents16" -> Must({"C16"}, E.refused = ParentsRefused("bitwise", E.n))
      [] E.e = "flip" -> Must({"C17"}, \A k \in Idx(E.o) : FlipsOf(E.w, E.k, E.o[k]))
      [] E.e = "hits" -> Must({"C17"}, HitsOf(E.w, E.k, E.n, E.h, E.sizes))
      [] E.e = "vmut" -> Must({"C17"}, VecMutated(E.m, E.by, E.g, E.same, E.o, E.calls))
      [] E.e = "vfreq" -> Must({"C17"}, VecFrequency(E.m, E.n, E.h, E.rows))
      [] E.e = "vrare" -> Must({"C17"}, Rare(E.ppm, E.h))
      [] E.e = "mean" -> Must({"C20"}, Mean(E.int, E.g, E.o))
      [] E.e = "geo" -> Must({"C20"}, Geometric(E.g, E.o))
      [] E.e = "one" -> Must({"C20"}, E.n = 1)
      [] E.e = "exp" -> Must({"C20"}, ExpCrossings(E.a, E.b, E.o))
      [] E.e = "expreach" -> Must({"C20"}, ExpReach(E.a, E.b, E.m, E.ex, E.s))
      [] E.e = "vec" -> Must({"C20"}, VecCrossed(E.a, E.b, E.o, E.calls))
      [] E.e = "vecmean" -> Must({"C20"}, VecMean(E.a, E.b, E.o))
      [] E.e = "parents20" -> Must({"C20"}, E.refused = ParentsRefused(E.k, E.n))
      [] OTHER -> FALSE
Step == l <= Len(Tr) /\ Consume /\ l' = l + 1 /\ UNCHANGED t
Done == l = Len(Tr) + 1 /\ PrintT(<<"OK", t>>) /\ UNCHANGED vars
Next == \/ Step
        \/ Done
        \/ Diagnose /\ l <= Len(Tr) /\ ~ENABLED Step /\ PrintT(<<"STUCK", t, l>>) /\ UNCHANGED vars
=============================================================================
