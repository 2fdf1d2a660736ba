------------------------------ MODULE StatsTrace ------------------------------
EXTENDS Stats, Json
CONSTANTS TraceFile, Diagnose
Traces == ndJsonDeserialize(TraceFile)
VARIABLES t, l
vars == <<t, l, statvars>>
Tr == Traces[t].ev
E == Tr[l]
Init == t \in Idx(Traces) /\ l = 1 /\ Start(Traces[t].cfg.n, Traces[t].cfg.m)
Consume ==
    CASE E.e = "log" -> Log(E.o, E.w, E.s)
      [] E.e = "nexts" -> Nexts(E.o, E.n, E.s)
      [] E.e = "runs" -> Runs(E.o, E.n, E.s)
      [] E.e = "session" -> Session(E.o, E.new, E.bs)
      [] E.e = "unite" -> Unite(E.o, E.p)
      [] E.e = "dump" -> Dump(E.o, E.n, E.res, E.conv)
      [] E.e = "cnext" -> CNext(E.o)
      [] E.e = "cadd" -> CAdd(E.o, E.n)
      [] E.e = "cgoal" -> CGoal(E.o, E.x, E.seen, E.v, E.r)
      [] E.e = "csearch" -> CSearch(E.o, E.n)
      [] E.e = "cunite" -> CUnite(E.o, E.p)
      [] E.e = "cdump" -> CDump(E.o, E.c, E.avg)
      [] E.e = "agg" -> Aggregate(E.rs, E.ag, E.dg, E.av, E.dv)
      [] E.e = "aconv" -> AvgConv(E.rows, E.o, E.n)
      [] E.e = "pg" -> PredGoal(E.v, E.x, E.d, E.a)
      [] E.e = "pp" -> PredPoint(E.v, E.x, E.d, E.a)
      [] E.e = "rate" -> Rate(E.rs, E.how, E.x, E.d, E.r, E.k)
      [] OTHER -> FALSE
Step == l <= Len(Tr) /\ Consume /\ l' = l + 1 /\ UNCHANGED t
Done == l = Len(Tr) + 1 /\ PrintT(<<"OK", t>>) /\ UNCHANGED vars
Next == \/ Step
        \/ Done
        \/ Diagnose /\ l <= Len(Tr) /\ ~ENABLED Step /\ PrintT(<<"STUCK", t, l>>) /\ UNCHANGED vars
=============================================================================
