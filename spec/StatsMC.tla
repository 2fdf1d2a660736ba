------------------------------ MODULE StatsMC ------------------------------
(***************************************************************************)
(* Modes:                                                                  *)
(*  "record": all short histories of two statistics objects                *)
(*  "count":  all short histories of two counters                          *)
(*  "agg":    all short lists of results                                   *)
(*  "conv":   all small convergence tables                                 *)
(*  "rate":   all short lists of results under predicates                  *)
(***************************************************************************)
EXTENDS Stats, Json
CONSTANTS Mode, Depth, Emit
VARIABLES ops,   \* what was done
          run,   \* per object: "none", "running", "done"
          x      \* the list under consideration
mcvars == <<statvars, ops, run, x>>

Objs == 1..2
Sols == {<<>>, <<<<1, 0>>>>, <<<<2, 1>>>>}
MCInit == Start(2, 2) /\ ops = <<>> /\ run = [o \in Objs |-> "none"] /\ x = <<>>

Op(w, o, s) == [w |-> w, o |-> o, s |-> s]
Do(w, o, s, r) == /\ Log(o, w, s) /\ ops' = Append(ops, Op(w, o, s))
                  /\ run' = [run EXCEPT ![o] = r] /\ UNCHANGED x
Record ==
    \/ \E o \in Objs :
        \/ run[o] # "running" /\ Do("start", o, <<>>, "running")
        \/ run[o] # "running" /\ Do("resume", o, <<>>, "running")
        \/ run[o] = "running" /\ \E s \in Sols : Do("next", o, s, "running")
        \/ run[o] = "running" /\ \E s \in Sols : Do("finish", o, s, "done")
    \/ \E o \in Objs : LET p == 3 - o IN
        /\ run[o] # "running" /\ run[p] # "running" /\ Unite(o, p)
        /\ ops' = Append(ops, Op("unite", o, <<>>))
        /\ run' = [run EXCEPT ![o] = IF run[o] = "done" \/ run[p] = "done" THEN "done" ELSE "none", ![p] = "none"]
        /\ UNCHANGED x
Count ==
    /\ UNCHANGED <<run, x>>
    /\ \E o \in Objs :
        \/ CNext(o) /\ ops' = Append(ops, Op("next", o, 0))
        \/ \E n \in {0, 3} : CAdd(o, n) /\ ops' = Append(ops, Op("add", o, n))
        \/ CAdd(o, 1) /\ ops' = Append(ops, Op("inc", o, 1))
        \/ CGoal(o, 5, <<5>>, 7, 7) /\ ops' = Append(ops, Op("goal", o, 1))
        \/ CUnite(o, 3 - o) /\ ops' = Append(ops, Op("unite", o, 0))
Values == {-1, 0, 2, PINF, NAN}
Points == {<<0, 2>>, <<3, -1>>}
Sol(p, v) == <<[x |-> p, v |-> v, ok |-> (p[1] = 0) # (v = 2)]>>
Lists == {<<>>} \cup {Sol(p, v) : p \in Points, v \in Values}
Grow(S) == /\ \E s \in S : x' = Append(x, s) /\ UNCHANGED <<statvars, ops, run>>
Rows == UNION {[1..n -> {<<>>, <<1>>, <<4>>}] : n \in 0..2}
MCNext == /\ Len(ops) + Len(x) < Depth
          /\ CASE Mode = "record" -> Record
               [] Mode = "count" -> Count
               [] Mode \in {"agg", "rate"} -> Grow(Lists)
               [] Mode = "conv" -> Grow(Rows)
Spec == MCInit /\ [][MCNext]_mcvars

PrintScript == ~Emit \/ (Mode \in {"record", "count"} /\ Len(ops) < Depth)
                \/ PrintT("SCRIPT " \o ToJson([mode |-> Mode, ops |-> ops, x |-> x]))

\* ---- the meaning ----

\* between searches results and histories have the same length
SameLength == \A o \in Objs : run[o] # "running" => Len(Results(st[o])) = Len(Conv(st[o])) /\ \A i \in Idx(st[o]) : Len(st[o][i].f) = 1
Of(o) == SelectSeq(ops, LAMBDA p : p.o = o)
United == \E i \in Idx(ops) : ops[i].w = "unite"
Number(s, w) == Cardinality({i \in Idx(s) : s[i].w = w})
\* without unions: as many runs as starts (or one, resumed only), every iteration recorded in order, the last result kept
Faithful == (Mode = "record" /\ ~United) => \A o \in Objs : LET p == Of(o) IN
    /\ Len(st[o]) = Number(p, "start") + (IF p # <<>> /\ p[1].w = "resume" THEN 1 ELSE 0)
    /\ Flat(Conv(st[o])) = (LET q == SelectSeq(p, LAMBDA e : e.w = "next") IN [i \in Idx(q) |-> q[i].s])
    /\ LET f == {i \in Idx(p) : p[i].w = "finish"} IN
         (run[o] = "done") => Last1(Results(st[o])) = p[MaxOf(f)].s
\* a union keeps everything: nothing of the number of iterations is lost
Kept == Mode = "record" => Len(Flat(Conv(st[1]))) + Len(Flat(Conv(st[2]))) = Number(ops, "next")
Counted == Mode = "count" => Total(cc[1]) + Total(cc[2]) =
             Number(ops, "inc") + Number(ops, "goal") + FoldSeq(LAMBDA p, y : (IF p.w = "add" THEN p.s ELSE 0) + y, 0, ops)

AllFinite(vs) == \A i \in Idx(vs) : Finite(vs[i])
Shift(vs) == [i \in Idx(vs) |-> vs[i] + 3]
Meant == (Mode = "agg") => LET vs == Goals(x) IN (Len(vs) > 0 /\ AllFinite(vs)) =>
    /\ IsMean((AvgUnit * Sum(vs)) \div Len(vs), vs)
    /\ \A v \in Range1(vs) : (IsMean(AvgUnit * v, vs) <=> Len(vs) * v = Sum(vs))
    /\ Spread(Shift(vs)) = Spread(vs) /\ Spread(Reverse(vs)) = Spread(vs)
    /\ (Len(vs) > 1 => (IsDeviation(0, vs) <=> Cardinality(Range1(vs)) = 1))
\* the mean lies between the extremes
Between == (Mode = "agg") => LET vs == Goals(x) IN (Len(vs) > 0 /\ AllFinite(vs)) =>
    LET a == (AvgUnit * Sum(vs)) \div Len(vs) IN a >= AvgUnit * MinOf(Range1(vs)) /\ a <= AvgUnit * MaxOf(Range1(vs))
\* NaN never succeeds, and wider is easier
Success == (Mode = "rate") => \A i \in Idx(Found(x)) : LET s == Found(x)[i] IN \A e \in {0, 2} :
    /\ s.v = NAN => ~GoalOk(s.v, e, PINF)
    /\ \A d \in 0..3 : (GoalOk(s.v, e, d) => GoalOk(s.v, e, d + 1)) /\ ~GoalOk(s.v, e, 0)
    /\ \A d \in 0..3 : PointOk(s.x, <<e, e>>, <<d, d>>) => PointOk(s.x, <<e, e>>, <<d, d + 1>>)
    /\ PointOk(s.x, s.x, <<0, 0>>)
Table == (Mode = "conv") => \A i \in Idx(x) : Len(x[i]) >= Shortest(x)
=============================================================================
