------------------------------- MODULE Stats -------------------------------
(***************************************************************************)
(* Statistics of runs, counters of goal calls, and what is computed from   *)
(* them.  Solutions are optional: a sequence of none or one.               *)
(***************************************************************************)
EXTENDS Common

VARIABLES st,    \* statistics objects: a sequence of runs [h: solutions after the iterations, f: final results]
          cc     \* counters: a sequence of numbers of calls
statvars == <<st, cc>>

NewRun == [h |-> <<>>, f |-> <<>>]
Start(n, m) == st = [o \in 1..n |-> <<>>] /\ cc = [o \in 1..m |-> <<>>]

----------------------------------------------------------------------------
(* The records (C23) *)

Conv(rs) == [i \in Idx(rs) |-> rs[i].h]
Results(rs) == Flat([i \in Idx(rs) |-> rs[i].f])

LastRun(rs, run) == [rs EXCEPT ![Len(rs)] = run]
Logged(rs, w, s) ==
    LET cur == Last1(rs) IN
    CASE w = "start" -> Append(rs, NewRun)
      \* the logger was put in after the start of the run
      [] w = "resume" -> IF rs = <<>> THEN <<NewRun>> ELSE rs
      [] w = "next" -> LastRun(rs, [cur EXCEPT !.h = Append(@, s)])
      \* a resumed run still has one final result, the last
      [] w = "finish" -> LastRun(rs, [cur EXCEPT !.f = <<s>>])

Log(o, w, s) == st' = [st EXCEPT ![o] = Logged(@, w, s)] /\ UNCHANGED cc
\* n iterations of the last run with the same solution, n runs that end where they start
Nexts(o, n, s) ==
    /\ st' = [st EXCEPT ![o] = LastRun(@, [Last1(@) EXCEPT !.h = @ \o [i \in 1..n |-> s]])]
    /\ UNCHANGED cc
Runs(o, n, s) == st' = [st EXCEPT ![o] = @ \o [i \in 1..n |-> [h |-> <<>>, f |-> <<s>>]]] /\ UNCHANGED cc
\* a whole search, or a continuation, and the solutions seen by the stop criterion: before it, after each iteration
Session(o, new, bs) ==
    LET begun == Logged(st[o], IF new THEN "start" ELSE "resume", <<>>)
        cur == Last1(begun)
        done == [h |-> cur.h \o Tail(bs), f |-> <<Last1(bs)>>]
    IN st' = [st EXCEPT ![o] = LastRun(begun, done)] /\ UNCHANGED cc
\* p's runs after o's; p is used up
Unite(o, p) == o # p /\ st' = [st EXCEPT ![o] = @ \o st[p], ![p] = <<>>] /\ UNCHANGED cc
Dump(o, n, res, conv) ==
    /\ Must({"C23"}, conv = Conv(st[o]) /\ res = Results(st[o]) /\ n = Len(st[o]))
    /\ UNCHANGED statvars

----------------------------------------------------------------------------
(* Counters (C26) *)

Plus(c, n) == IF c = <<>> THEN <<n>> ELSE [c EXCEPT ![Len(c)] = @ + n]
Total(c) == FoldSeq(LAMBDA x, y : x + y, 0, c)
CNext(o) == cc' = [cc EXCEPT ![o] = Append(@, 0)] /\ UNCHANGED st
CAdd(o, n) == cc' = [cc EXCEPT ![o] = Plus(@, n)] /\ UNCHANGED st
\* point given, points the counted function got, its value, the value returned
CGoal(o, x, seen, v, r) ==
    /\ Must({"C26"}, seen = <<x>> /\ r = v)
    /\ cc' = [cc EXCEPT ![o] = Plus(@, 1)] /\ UNCHANGED st
\* a search that made n points
CSearch(o, n) == cc' = [cc EXCEPT ![o] = Plus(@, n)] /\ UNCHANGED st
CUnite(o, p) == o # p /\ cc' = [cc EXCEPT ![o] = @ \o cc[p], ![p] = <<>>] /\ UNCHANGED st
Near(a, b, tol) == a - b <= tol /\ b - a <= tol
\* avg in 1/1000
CDump(o, c, avg) ==
    /\ Must({"C26"}, c = cc[o])
    /\ Must({"C26"}, IF c = <<>> THEN avg = <<>> ELSE Len(avg) = 1 /\ Near(avg[1] * Len(c), 1000 * Total(c), Len(c)))
    /\ UNCHANGED statvars

----------------------------------------------------------------------------
(* Means and deviations (C24).  Values are integers or NINF, PINF, NAN.     *)

Found(rs) == Flat(rs)      \* the solutions that are there
Sum(vs) ==                 \* of a sequence of values, as in floating point
    LET s == Range1(vs) IN
    IF NAN \in s \/ {NINF, PINF} \subseteq s THEN NAN
    ELSE IF PINF \in s THEN PINF ELSE IF NINF \in s THEN NINF
    ELSE FoldSeq(LAMBDA x, y : x + y, 0, vs)
\* a: a mean, in 1/100000
AvgUnit == 100000
IsMean(a, vs) == LET s == Sum(vs) IN
    IF Finite(s) THEN Finite(a) /\ Abs1(a) <= 30000000 /\ Abs1(a) <= 1000000000 \div Len(vs) /\ Near(a * Len(vs), AvgUnit * s, 40 * Len(vs)) ELSE a = s
\* n * (sum of squared deviations)
Spread(vs) == LET s == Sum(vs) IN Len(vs) * FoldSeq(LAMBDA x, y : x * x + y, 0, vs) - s * s
\* d: a standard deviation, in 1/DevUnit
DevUnit == 128
IsDeviation(d, vs) ==
    IF \E i \in Idx(vs) : ~Finite(vs[i]) THEN d = NAN
    \* very many values: to within a quotient, as TLC has no large numbers
    ELSE IF Len(vs) > 30
    THEN LET q == Spread(vs) \div Len(vs)
             m == Len(vs) - 1
             lo == IF d < 1 THEN 0 ELSE 2 * d - 2
             hi == 2 * d + 2
         IN d >= 0 /\ d <= 312 /\ (lo * lo * m) \div 4 <= (q + 1) * DevUnit * DevUnit
            /\ q * DevUnit * DevUnit <= (hi * hi * m) \div 4 + 1
    ELSE LET m == Len(vs) * (Len(vs) - 1)
             r == 4 * DevUnit * DevUnit * Spread(vs)
             lo == IF d < 1 THEN 0 ELSE 2 * d - 2
             hi == 2 * d + 2
         IN d >= 0 /\ d <= 4000 /\ lo * lo * m <= r /\ r <= hi * hi * m

\* a result: <<>> or <<[x, v]>>, x a sequence of coordinates; an observed one likewise
Goals(rs) == LET f == Found(rs) IN [i \in Idx(f) |-> f[i].v]
Coord(rs, k) == LET f == Found(rs) IN [i \in Idx(f) |-> f[i].x[k]]
Dim(rs) == Len(Found(rs)[1].x)
IsAvgGoal(o, rs) == IF Found(rs) = <<>> THEN o = <<>> ELSE Len(o) = 1 /\ IsMean(o[1], Goals(rs))
IsDevGoal(o, rs) == IF Len(Found(rs)) < 2 THEN o = <<>> ELSE Len(o) = 1 /\ IsDeviation(o[1], Goals(rs))
IsAvg(o, rs) == IF Found(rs) = <<>> THEN o = <<>>
                ELSE /\ Len(o) = 1 /\ IsMean(o[1].v, Goals(rs)) /\ Len(o[1].x) = Dim(rs)
                     /\ \A k \in 1..Dim(rs) : IsMean(o[1].x[k], Coord(rs, k))
IsDev(o, rs) == IF Len(Found(rs)) < 2 THEN o = <<>>
                ELSE /\ Len(o) = 1 /\ IsDeviation(o[1].v, Goals(rs)) /\ Len(o[1].x) = Dim(rs)
                     /\ \A k \in 1..Dim(rs) : IsDeviation(o[1].x[k], Coord(rs, k))
Aggregate(rs, ag, dg, av, dv) ==
    /\ Must({"C24"}, IsAvgGoal(ag, rs) /\ IsDevGoal(dg, rs) /\ IsAvg(av, rs) /\ IsDev(dv, rs))
    /\ UNCHANGED statvars

\* rows: for each run the optional values after its iterations
Shortest(rows) == IF rows = <<>> THEN 0 ELSE MinOf({Len(rows[i]) : i \in Idx(rows)})
Column(rows, k) == Flat([i \in Idx(rows) |-> rows[i][k]])
IsAvgConv(rows, o) ==
    /\ Len(o) = Shortest(rows)
    /\ \A k \in Idx(o) : LET c == Column(rows, k) IN
         IF c = <<>> THEN o[k] = <<>> ELSE Len(o[k]) = 1 /\ IsMean(o[k][1], c)
AvgConv(rows, o, n) == Must({"C24"}, IsAvgConv(rows, o) /\ n = Shortest(rows)) /\ UNCHANGED statvars

----------------------------------------------------------------------------
(* Success (C25) *)

\* |a - b| for values of which b is finite
Dist(a, b) == IF a = NAN THEN NAN ELSE IF ~Finite(a) THEN PINF ELSE Abs1(a - b)
Closer(a, b, d) == LET x == Dist(a, b) IN x # NAN /\ d # NAN /\ x < d
Within(a, b, d) == LET x == Dist(a, b) IN x # NAN /\ d # NAN /\ x <= d
GoalOk(v, e, d) == Closer(v, e, d)
PointOk(x, e, d) == \A i \in Idx(x) : Within(x[i], e[i], d[i])
PredGoal(v, e, d, a) == Must({"C25"}, a = GoalOk(v, e, d)) /\ UNCHANGED statvars
PredPoint(x, e, d, a) == Must({"C25"}, a = PointOk(x, e, d)) /\ UNCHANGED statvars
\* rate in 1/100000; n of all, ok of them successful; k: rate times n
IsRate(r, k, n, ok) == IF n = 0 THEN r = <<>>
                    ELSE k = <<ok>> /\ Len(r) = 1 /\ r[1] >= 0 /\ r[1] <= 100000 /\ Near(r[1] * n, 100000 * ok, n)
\* how: "goal", "point" (the library's predicates, with e and d) or "any": an arbitrary one, the answer in each solution
Successful(s, how, e, d) == CASE how = "goal" -> GoalOk(s.v, e[1], d[1])
                              [] how = "point" -> PointOk(s.x, e, d)
                              [] OTHER -> s.ok
Rate(rs, how, e, d, r, k) ==
    /\ Must({"C25"}, LET f == Found(rs) IN
         IsRate(r, k, Len(rs), Cardinality({i \in Idx(f) : Successful(f[i], how, e, d)})))
    /\ UNCHANGED statvars
=============================================================================
