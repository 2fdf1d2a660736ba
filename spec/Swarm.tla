------------------------------- MODULE Swarm -------------------------------
(***************************************************************************)
(* The particle swarm optimizer: searches (find_min), continuations        *)
(* (next_iterations), and the plug-in calls they consist of, one action    *)
(* per plug-in call, with the motion of every particle, its memory, and    *)
(* the best and worst of the swarm and of the run.                         *)
(*                                                                         *)
(* Positions and velocities are sequences of integers (cfg.int), or opaque *)
(* tokens; then the sum of a position and a velocity is supplied with the  *)
(* observation.                                                            *)
(***************************************************************************)
EXTENDS Common

VARIABLES
    cfg,      \* the installed plug-ins (instance numbers), in order
    ph,       \* phase, see below
    k,        \* loggers already called in this phase
    got,      \* in Init: which of the initializers were called
    iv,       \* in Init: initial velocities
    st,       \* st[i]: points that have passed i-1 position corrections
    nc,       \* velocity corrections made in the present move
    mv,       \* 0: the next particle is to be given a velocity, 1: it is moving
    u,        \* its new velocity
    ev,       \* evaluations of the points under way
    px, pv, pu,     \* positions, values and velocities of the particles
    pb, pbv,        \* personal best: possible positions, and value
    pw, pwv,        \* personal worst
    p,        \* particles already moved in this iteration
    iter,     \* completed iterations
    bestC,    \* what may be reported as the best solution: a set of <<>> or <<point, value>>
    gw, gwv,  \* worst of the run: possible positions, and value
    nrun,     \* searches started
    seg,      \* "first", "rerun", "resumed" until the first iteration is completed, then ""
    evals,    \* number of evaluations since the optimizer was made
    gbest,    \* solution reported before the previous iteration of this run
    sep,      \* independence of the random factors of the velocity rules: counts
    past      \* what the rules could show of earlier runs: [old, good, bad]

svars == <<cfg, ph, k, got, iv, st, nc, mv, u, ev, px, pv, pu, pb, pbv, pw, pwv, p, iter, bestC, gw, gwv,
           nrun, seg, evals, gbest, sep, past>>

Idle == 0
Init0 == 1       \* initial points and velocities, correction and evaluation
LStart == 2
LResume == 3
Testing == 4
Moving == 5
LNext == 6
LFinish == 7
Returning == 8

Silent == {Init0, LStart, LResume, Moving, LNext, LFinish}
Succ(q) == CASE q = LNext -> Testing
             [] OTHER -> q + 1

PhaseTags(q) == CASE q = Init0 -> {"C06", "C10"}
                  [] q \in {LStart, LResume, LNext, LFinish} -> {"C08"}
                  [] q \in {Testing, Returning, Idle} -> {"C07"}
                  [] OTHER -> {"C12"}

Seg(tags) == tags \cup (CASE seg = "resumed" -> {"C09"} [] seg = "rerun" -> {"C10"} [] OTHER -> {})

NoSol == <<>>
\* all non-finite values are equal and worse than every finite one
Key(v) == IF Finite(v) THEN v ELSE PINF

\* positions of the particles with the extreme value
BestOf(xs, vs) ==
    LET m == MinOf({Key(v) : v \in Range1(vs)})
    IN {<<xs[i], vs[i]>> : i \in {j \in Idx(vs) : Key(vs[j]) = m}}
WorstOf(xs, vs) ==
    LET m == MaxOf({Key(v) : v \in Range1(vs)})
    IN {<<xs[i], vs[i]>> : i \in {j \in Idx(vs) : Key(vs[j]) = m}}
Firsts(S) == {s[1] : s \in S}
ValueOf(S) == (CHOOSE s \in S : TRUE)[2]

InitVars(c) ==
    /\ cfg = c
    /\ ph = Idle
    /\ k = 0 /\ got = {} /\ iv = <<>> /\ st = <<>> /\ nc = 0 /\ mv = 0 /\ u = <<>> /\ ev = <<>>
    /\ px = <<>> /\ pv = <<>> /\ pu = <<>>
    /\ pb = <<>> /\ pbv = <<>> /\ pw = <<>> /\ pwv = <<>>
    /\ p = 0
    /\ iter = 0
    /\ bestC = {NoSol}
    /\ gw = {} /\ gwv = NINF
    /\ nrun = 0
    /\ seg = "first"
    /\ evals = 0
    /\ gbest = NoSol
    /\ sep = <<>>
    /\ past = [old |-> {}, good |-> 0, bad |-> FALSE]

----------------------------------------------------------------------------
(* Calls of the user *)

FindMin ==
    /\ ph = Idle
    /\ ph' = Init0
    /\ got' = {} /\ iv' = <<>> /\ ev' = <<>>
    /\ st' = [i \in 1..Len(cfg.pm) + 1 |-> <<>>]
    /\ px' = <<>> /\ pv' = <<>> /\ pu' = <<>>
    /\ pb' = <<>> /\ pbv' = <<>> /\ pw' = <<>> /\ pwv' = <<>>
    /\ p' = 0
    /\ iter' = 0
    /\ bestC' = {NoSol}
    /\ gw' = {} /\ gwv' = NINF
    /\ nrun' = nrun + 1
    /\ seg' = IF nrun = 0 THEN "first" ELSE "rerun"
    /\ k' = 0
    /\ gbest' = NoSol
    /\ past' = [past EXCEPT !.old = gw]
    /\ UNCHANGED <<cfg, nc, mv, u, evals, sep>>

NextIterations ==
    /\ ph = Idle
    /\ ph' = LResume
    /\ seg' = IF nrun = 0 THEN "first" ELSE "resumed"
    /\ k' = 0
    /\ UNCHANGED <<cfg, got, iv, st, nc, mv, u, ev, px, pv, pu, pb, pbv, pw, pwv, p, iter, bestC, gw, gwv,
                   nrun, evals, gbest, sep, past>>

SetPlugins(c) ==
    /\ ph = Idle
    /\ cfg' = c
    /\ UNCHANGED <<ph, k, got, iv, st, nc, mv, u, ev, px, pv, pu, pb, pbv, pw, pwv, p, iter, bestC, gw, gwv,
                   nrun, seg, evals, gbest, sep, past>>

----------------------------------------------------------------------------
(* Initialisation: the two initializers in either order; every initial     *)
(* point passes all corrections in order, and is then evaluated.  The      *)
(* calls for different points may interleave.                              *)

XInit(g, xs) ==
    /\ ph = Init0
    /\ Must({"C10", "C12"}, g = cfg.x /\ "x" \notin got)
    /\ got' = got \cup {"x"}
    /\ st' = [i \in 1..Len(cfg.pm) + 1 |-> IF i = 1 THEN xs ELSE <<>>]
    /\ UNCHANGED <<cfg, ph, k, iv, nc, mv, u, ev, px, pv, pu, pb, pbv, pw, pwv, p, iter, bestC, gw, gwv,
                   nrun, seg, evals, gbest, sep, past>>

VInit(g, vs) ==
    /\ ph = Init0
    /\ Must({"C10", "C12"}, g = cfg.v /\ "v" \notin got)
    /\ got' = got \cup {"v"}
    /\ iv' = vs
    /\ UNCHANGED <<cfg, ph, k, st, nc, mv, u, ev, px, pv, pu, pb, pbv, pw, pwv, p, iter, bestC, gw, gwv,
                   nrun, seg, evals, gbest, sep, past>>

PosOf(s, g) == IF \E i \in Idx(s) : s[i] = g THEN CHOOSE i \in Idx(s) : s[i] = g ELSE 0

\* the next point that arrives at position correction number i
Passes(s, i, x) == Len(s[i + 1]) < Len(s[i]) /\ s[i][Len(s[i + 1]) + 1] = x

\* s: the points under way when the first correction of a move begins
Correct(g, x, y, s) ==
    LET i == PosOf(cfg.pm, g) IN
    /\ Must({"C12"} \cup (IF i = 0 THEN {"C09"} ELSE {}), i # 0 /\ Passes(s, i, x))
    /\ st' = IF i = 0 THEN s ELSE [s EXCEPT ![i + 1] = Append(@, y)]

\* c: consecutive evaluations <<point, value, inside the box, made faithfully by the adapter of plain functions>>
Evaluations(c, s) ==
    LET fin == s[Len(s)] IN
    /\ Must(IF ph = Init0 /\ nrun > 1 THEN {"C06", "C10"} ELSE {"C06"},
            /\ Len(ev) + Len(c) <= Len(fin)
            /\ \A i \in Idx(c) : c[i][1] = fin[Len(ev) + i])
    /\ Must({"C06"}, \A i \in Idx(c) : c[i][4] = 1)
    /\ Must({"C15"}, cfg.box => \A i \in Idx(c) : c[i][3] = 1)

----------------------------------------------------------------------------
(* The velocity rules.  A record r describes one shipped rule called for    *)
(* the particle that is about to move: kind, doubled weights of the six     *)
(* terms (best personal, current, global, worst personal, current, global), *)
(* scale and inertia parameters, mode of the random factors (0: all 0,      *)
(* 1: all 1, 2 and 3: random), and the returned velocities as floor and     *)
(* ceiling of 256 times each component.                                     *)

RuleScale(r) == CASE r.k = 1 -> (8 * r.xi) \div ((r.ph[1] + r.ph[3]) \div 2 - 2)   \* xi * 16
                  [] r.k = 4 -> r.xi                                               \* xi * 4
                  [] OTHER -> 1
\* the inertia weight * 128
Weight(r, t) == IF r.k = 2 THEN 32 * r.w[1]
                ELSE 32 * r.w[2] - (32 * (r.w[2] - r.w[1]) * (IF t < r.w[3] THEN t ELSE r.w[3])) \div r.w[3]
\* the inertia is asked for the weight of the iteration the swarm is in
AsksInertia(it, asked) == Must({"C13"}, asked = <<it>>) /\ UNCHANGED svars
\* LinearInertia of w[1] / 4 and w[2] / 4 and n iterations, n a multiple of 8, asked about iteration t: the weight
\* times 128, rounded down and up.  t is a multiple of n \div 8, or beyond n.
LinearWeight(w, n, t, o) ==
    LET j == IF t >= n THEN 8 ELSE t \div (n \div 8)
        x == 32 * w[2] - 4 * (w[2] - w[1]) * j
    IN Must({"C13"}, o[1] <= x /\ x <= o[2] /\ o[2] - o[1] <= 2) /\ UNCHANGED svars
\* what remains of the velocity, and the weight of a term, all times 256
Base(r, v, t) == CASE r.k = 0 -> 256 * v
                   [] r.k = 1 -> 16 * RuleScale(r) * v
                   [] r.k \in {2, 3} -> 2 * Weight(r, t) * v
                   [] OTHER -> 64 * RuleScale(r) * v
Coef(r, j) == LET w == CASE r.k = 1 -> 8 * RuleScale(r) * r.ph[j]
                         [] r.k = 4 -> 32 * RuleScale(r) * r.ph[j]
                         [] OTHER -> 128 * r.ph[j]
              IN IF j > 3 THEN -w ELSE w

Terms == 1..6
Active(r) == {j \in Terms : r.ph[j] # 0}
SumOver(S, f(_)) == FoldSet(LAMBDA j, acc : acc + f(j), 0, S)
Positive(n) == IF n > 0 THEN n ELSE 0
Negative(n) == IF n < 0 THEN n ELSE 0

\* every returned component is possible, if the six points are A[1..6]
RuleHolds(r, x, v, t, A) ==
    LET act == Active(r)
        D(j, i) == Coef(r, j) * (A[j][i] - x[i])
    IN \A i \in Idx(x) :
         LET b == Base(r, v[i], t)
             sum == SumOver(act, LAMBDA j : D(j, i))
             lo == SumOver(act, LAMBDA j : Negative(D(j, i)))
             hi == SumOver(act, LAMBDA j : Positive(D(j, i)))
         IN \A n \in Idx(r.o) :
              CASE r.r = 0 -> r.o[n][i][1] >= b - 1 /\ r.o[n][i][2] <= b + 1
                [] r.r = 1 -> r.o[n][i][1] >= b + sum - 1 /\ r.o[n][i][2] <= b + sum + 1
                [] OTHER -> r.o[n][i][1] >= b + lo - 1 /\ r.o[n][i][2] <= b + hi + 1

\* candidates of the six points; those of weight 0 do not matter
Chosen(r, x, S) == [j \in Terms |-> IF r.ph[j] = 0 THEN {x} ELSE S[j]]
Cap(n) == IF n > 1000 THEN 1000 ELSE n
Product(C) == FoldSet(LAMBDA j, acc : Cap(acc * Cap(Cardinality(C[j]))), 1, Terms)
RuleOK(r, x, v, t, S) ==
    LET C == Chosen(r, x, S) IN
    /\ \A n \in Idx(r.o) : Len(r.o[n]) = Len(x)
    \* with too many ties nothing is decided
    /\ \/ Product(C) > 100
       \/ \E a1 \in C[1] : \E a2 \in C[2] : \E a3 \in C[3] : \E a4 \in C[4] : \E a5 \in C[5] : \E a6 \in C[6] :
          RuleHolds(r, x, v, t, <<a1, a2, a3, a4, a5, a6>>)

\* Random factors drawn separately: <<chances, separations>> per rule and pair of terms, or dimension.
\* With one factor for both terms the change of the velocity is between 0 and the sum of the terms.
Apart(r, x, v, t, A) ==
    LET act == Active(r)
        D(j, i) == Coef(r, j) * (A[j][i] - x[i])
        two == r.r = 2 /\ Cardinality(act) = 2
        one == r.r = 3 /\ Cardinality(act) = 1
        j1 == MinOf(act)
        j2 == MaxOf(act)
        good == IF two THEN {i \in Idx(x) : /\ Negative(D(j1, i)) + Negative(D(j2, i)) < 0
                                            /\ Positive(D(j1, i)) + Positive(D(j2, i)) > 0
                                            /\ Abs1(D(j1, i)) <= 4 * Abs1(D(j2, i))
                                            /\ Abs1(D(j2, i)) <= 4 * Abs1(D(j1, i))}
                ELSE IF one THEN {i \in Idx(x) : D(j1, i) # 0}
                ELSE {}
        \* the factor * 1000
        F(n, i) == (1000 * (r.o[n][i][1] - Base(r, v[i], t))) \div D(j1, i)
        off(n, i) == LET d == r.o[n][i][1] - Base(r, v[i], t)
                         s == D(j1, i) + D(j2, i)
                     IN d < Negative(s) - 2 \/ d > Positive(s) + 2
    IN IF two THEN <<Cardinality(good) * Len(r.o),
                     Cardinality({z \in Idx(r.o) \X good : off(z[1], z[2])})>>
       ELSE IF one /\ Cardinality(good) > 1
            THEN <<Len(r.o), Cardinality({n \in Idx(r.o) : Abs1(F(n, MinOf(good)) - F(n, MaxOf(good))) > 100})>>
       ELSE <<0, 0>>

CountApart(old, r, x, v, t, S) ==
    LET C == Chosen(r, x, S)
        key == <<r.k, r.r, Active(r)>>
    IN IF r.r < 2 \/ \E j \in Terms : Cardinality(C[j]) # 1 THEN old
       ELSE LET a == Apart(r, x, v, t, [j \in Terms |-> CHOOSE y \in C[j] : TRUE])
            IN IF a[1] = 0 THEN old
               ELSE IF key \in DOMAIN old
                    THEN [old EXCEPT ![key] = <<@[1] + a[1], @[2] + a[2]>>]
                    ELSE (key :> a) @@ old

\* the draws of different terms and dimensions are not always the same
Separated == \A key \in DOMAIN sep : sep[key][1] >= 150 => sep[key][2] > 0

\* A rule that was right throughout the first search is now right only with the candidates A
\* (points that were forgotten or should have been)
Exact(r) == r.k = 4 /\ r.r = 1
Blames(e, S, A) ==
    /\ ~past.bad /\ past.good >= 3
    /\ \E i \in Idx(e.rules) : /\ Exact(e.rules[i])
                               /\ ~RuleOK(e.rules[i], e.x, e.u[1], iter, S)
                               /\ RuleOK(e.rules[i], e.x, e.u[1], iter, A)

----------------------------------------------------------------------------
(* An iteration *)

\* what the calculator sees: e.n particles, e.sw (all of them, or not recorded), iteration, best,
\* the particle e.x, e.v with velocity e.u and memory e.pb (<<>>: not seen); it returns e.o, and e.s is e.x + e.o
Calc(e) ==
    /\ ph = Moving
    /\ Must({"C12"}, mv = 0 /\ e.g = cfg.calc /\ p < Len(px))
    /\ Must(Seg({"C12"}), e.n = Len(px))
    \* every way to look at the swarm shows the same
    /\ Must({"C29"}, e.ok /\ (e.sw # <<>> => e.n = Len(e.sw) /\ \E i \in Idx(e.sw) : e.sw[i] = <<e.x, e.v>>))
    /\ Must(Seg({"C12"}), e.sw # <<>> => [i \in Idx(e.sw) |-> e.sw[i][1]] = px)
    /\ Must(Seg({"C06"}), e.sw # <<>> => [i \in Idx(e.sw) |-> e.sw[i][2]] = pv)
    /\ Must(Seg({"C07"}), e.it = iter)
    /\ Must(Seg({"C11"}), e.b \in bestC)
    /\ bestC' = {e.b}
    /\ Must({"C12"}, p < Len(px) => e.x = px[p + 1])
    /\ Must({"C06"}, p < Len(px) => e.v = pv[p + 1])
    /\ Must(Seg({"C12"}), (p < Len(px) /\ e.u # <<>>) => e.u[1] = pu[p + 1])
    /\ Must(Seg({"C13"}), (p < Len(px) /\ e.pb # <<>>) => e.pb[1] \in pb[p + 1])
    /\ IF p >= Len(px) THEN UNCHANGED <<sep, past>> ELSE
       LET S == <<pb[p + 1], Firsts(BestOf(px, pv)), Firsts({e.b}), pw[p + 1], Firsts(WorstOf(px, pv)), gw>>
       IN /\ Must({"C13"}, (e.rules # <<>> /\ e.u # <<>>) =>
                      \A i \in Idx(e.rules) : RuleOK(e.rules[i], e.x, e.u[1], iter, S))
          /\ sep' = IF "C13" \in Enforce /\ e.rules # <<>>
                    THEN FoldSeq(LAMBDA r, acc : CountApart(acc, r, e.x, e.u[1], iter, S), sep, e.rules)
                    ELSE sep
          /\ Must({"C10"}, (e.u # <<>> /\ nrun > 1) => ~Blames(e, S, [S EXCEPT ![6] = past.old]))
          /\ Must({"C09"}, (e.u # <<>> /\ seg = "resumed")
                 => /\ ~Blames(e, S, [S EXCEPT ![6] = S[5]])
                    /\ ~Blames(e, S, [S EXCEPT ![4] = {e.x}]))
          /\ past' = IF nrun = 1 /\ seg # "resumed" /\ e.u # <<>> /\ {"C09", "C10"} \cap Enforce # {}
                     THEN [past EXCEPT !.good = @ + Cardinality({i \in Idx(e.rules) : Exact(e.rules[i])}),
                                       !.bad = @ \/ \E i \in Idx(e.rules) : Exact(e.rules[i])
                                                      /\ ~RuleOK(e.rules[i], e.x, e.u[1], iter, S)]
                     ELSE past
    \* checks of other properties go on from what is seen
    /\ px' = IF e.sw # <<>> THEN [i \in Idx(e.sw) |-> e.sw[i][1]] ELSE px
    /\ pv' = IF e.sw # <<>> THEN [i \in Idx(e.sw) |-> e.sw[i][2]] ELSE pv
    /\ pb' = IF p < Len(px) /\ e.pb # <<>> /\ e.pb[1] \notin pb[p + 1] THEN [pb EXCEPT ![p + 1] = {e.pb[1]}] ELSE pb
    /\ u' = e.o
    /\ nc' = 0
    /\ mv' = 1
    /\ ev' = <<>>
    /\ st' = [i \in 1..Len(cfg.pm) + 1 |->
                IF i > 1 THEN <<>>
                ELSE <<IF cfg.int THEN [d \in Idx(e.x) |-> e.x[d] + e.o[d]] ELSE e.s>>]
    /\ UNCHANGED <<cfg, ph, k, got, iv, pu, pbv, pw, pwv, p, iter, gw, gwv, nrun, seg, evals, gbest>>

CorrectVelocity(e) ==
    /\ ph = Moving
    /\ Must({"C12"} \cup (IF e.g \in Range1(cfg.cv) THEN {} ELSE {"C09"}),
            /\ mv = 1 /\ nc < Len(cfg.cv) /\ cfg.cv[nc + 1] = e.g
            /\ \A i \in Idx(st) : i > 1 => st[i] = <<>>)
    /\ Must({"C12"}, e.i = u)
    /\ u' = e.o
    /\ nc' = nc + 1
    /\ st' = [i \in 1..Len(cfg.pm) + 1 |->
                IF i > 1 THEN <<>>
                ELSE <<IF cfg.int /\ p < Len(px) THEN [d \in Idx(px[p + 1]) |-> px[p + 1][d] + e.o[d]] ELSE e.s>>]
    /\ UNCHANGED <<cfg, ph, k, got, iv, mv, ev, px, pv, pu, pb, pbv, pw, pwv, p, iter, bestC, gw, gwv,
                   nrun, seg, evals, gbest, sep, past>>

PostMove(g, x, y) ==
    /\ ph \in {Init0, Moving}
    /\ Must({"C12"}, ph = Moving => mv = 1 /\ nc = Len(cfg.cv))
    /\ Correct(g, x, y, st)
    /\ UNCHANGED <<cfg, ph, k, got, iv, nc, mv, u, ev, px, pv, pu, pb, pbv, pw, pwv, p, iter, bestC, gw, gwv,
                   nrun, seg, evals, gbest, sep, past>>

Evaluate(c) ==
    /\ ph \in {Init0, Moving}
    /\ Must({"C12"}, ph = Moving => mv = 1 /\ nc = Len(cfg.cv))
    /\ Evaluations(c, st)
    /\ evals' = evals + Len(c)
    /\ IF ph = Init0 THEN
          /\ ev' = ev \o [i \in Idx(c) |-> <<c[i][1], c[i][2]>>]
          /\ UNCHANGED <<px, pv, pu, pb, pbv, pw, pwv, p, mv>>
       ELSE
          \* the particle has moved; the point comes from the corrections, the value from the evaluation
          /\ ev' = <<>>
          /\ mv' = 0
          /\ p' = p + 1
          /\ IF p >= Len(px) THEN UNCHANGED <<px, pv, pu, pb, pbv, pw, pwv>>
             ELSE LET i == p + 1
                      fin == st[Len(st)]
                      x == IF fin # <<>> THEN fin[1] ELSE c[1][1]
                      v == c[1][2]
                  IN
                  /\ px' = [px EXCEPT ![i] = x]
                  /\ pv' = [pv EXCEPT ![i] = v]
                  /\ pu' = [pu EXCEPT ![i] = u]
                  /\ pb' = IF Key(v) < pbv[i] THEN [pb EXCEPT ![i] = {x}]
                           ELSE IF Key(v) = pbv[i] THEN [pb EXCEPT ![i] = @ \cup {x}] ELSE pb
                  /\ pbv' = IF Key(v) < pbv[i] THEN [pbv EXCEPT ![i] = Key(v)] ELSE pbv
                  /\ pw' = IF Key(v) > pwv[i] THEN [pw EXCEPT ![i] = {x}]
                           ELSE IF Key(v) = pwv[i] THEN [pw EXCEPT ![i] = @ \cup {x}] ELSE pw
                  /\ pwv' = IF Key(v) > pwv[i] THEN [pwv EXCEPT ![i] = Key(v)] ELSE pwv
    /\ UNCHANGED <<cfg, ph, k, got, iv, st, nc, u, iter, bestC, gw, gwv, nrun, seg, gbest, sep, past>>

----------------------------------------------------------------------------
(* Observers *)

LogTags == IF ph = LResume /\ seg = "resumed" THEN {"C08", "C09"}
           ELSE IF seg = "rerun" /\ ph \in {LStart, LResume} THEN {"C08", "C10"}
           ELSE {"C08"}

Log(g, it, b) ==
    /\ ph \in {LStart, LResume, LNext, LFinish}
    /\ Must({"C08"} \cup (IF g \in Range1(cfg.log) THEN {} ELSE {"C09"}),
            k < Len(cfg.log) /\ cfg.log[k + 1] = g)
    /\ Must(LogTags, it = iter)
    /\ Must(LogTags \cup {"C11"}, b \in bestC)
    /\ bestC' = {b}
    /\ k' = k + 1
    /\ UNCHANGED <<cfg, ph, got, iv, st, nc, mv, u, ev, px, pv, pu, pb, pbv, pw, pwv, p, iter, gw, gwv,
                   nrun, seg, evals, gbest, sep, past>>

Test(g, it, b, ans) ==
    /\ ph = Testing
    /\ Must(IF g = cfg.stop THEN {} ELSE {"C07", "C09"}, g = cfg.stop)
    /\ Must(Seg({"C07"}), it = iter)
    /\ Must(Seg({"C07", "C11"}), b \in bestC)
    /\ bestC' = {b}
    \* the best never gets worse
    /\ Must({"C11"}, gbest # NoSol => (b # NoSol /\ Key(b[2]) <= Key(gbest[2])))
    /\ gbest' = b
    /\ ph' = IF ans THEN LFinish ELSE Moving
    /\ k' = 0
    /\ p' = 0
    /\ mv' = 0
    /\ UNCHANGED <<cfg, got, iv, st, nc, u, ev, px, pv, pu, pb, pbv, pw, pwv, iter, gw, gwv,
                   nrun, seg, evals, sep, past>>

Return(b) ==
    /\ ph = Returning
    /\ Must(Seg({"C11", "C07"}), b \in bestC)
    /\ bestC' = {b}
    /\ ph' = Idle
    /\ UNCHANGED <<cfg, k, got, iv, st, nc, mv, u, ev, px, pv, pu, pb, pbv, pw, pwv, p, iter, gw, gwv,
                   nrun, seg, evals, gbest, sep, past>>

----------------------------------------------------------------------------
(* Ends of phases *)

\* reported best after an iteration: replaced only by a strictly better point
NewBest == LET now == BestOf(px, pv)
               old == CHOOSE o \in bestC : TRUE
           IN IF px = <<>> THEN bestC
              ELSE IF old = NoSol THEN now
              ELSE IF Key(ValueOf(now)) < Key(old[2]) THEN now ELSE bestC
NewWorst == LET now == WorstOf(px, pv) IN
            IF px = <<>> \/ Key(ValueOf(now)) < gwv THEN gw
            ELSE IF Key(ValueOf(now)) = gwv THEN gw \cup Firsts(now) ELSE Firsts(now)

Advance ==
    /\ ph \in Silent
    /\ ph' = Succ(ph)
    /\ k' = 0
    /\ CASE ph = Init0 ->
              LET fin == st[Len(st)]
                  vs == IF Len(ev) = Len(fin) THEN [i \in Idx(ev) |-> ev[i][2]] ELSE [i \in Idx(fin) |-> NAN]
              IN
              /\ Must({"C06"}, [i \in Idx(ev) |-> ev[i][1]] = fin)
              /\ Must({"C10", "C12"}, got = {"x", "v"} /\ Len(fin) = Len(iv))
              /\ Must({"C12"}, \A i \in Idx(st) : Len(st[i]) = Len(st[1]))
              /\ px' = fin /\ pv' = vs
              /\ pu' = IF Len(iv) = Len(fin) THEN iv ELSE fin
              /\ pb' = [i \in Idx(fin) |-> {fin[i]}] /\ pbv' = [i \in Idx(fin) |-> Key(vs[i])]
              /\ pw' = [i \in Idx(fin) |-> {fin[i]}] /\ pwv' = [i \in Idx(fin) |-> Key(vs[i])]
              /\ bestC' = IF fin = <<>> THEN {NoSol} ELSE BestOf(fin, vs)
              /\ gw' = IF fin = <<>> THEN {} ELSE Firsts(WorstOf(fin, vs))
              /\ gwv' = IF fin = <<>> THEN NINF ELSE Key(ValueOf(WorstOf(fin, vs)))
              /\ ev' = <<>> /\ iv' = <<>> /\ got' = {} /\ st' = <<>>
              /\ UNCHANGED <<p, iter, seg>>
         [] ph = Moving ->
              /\ Must({"C12"}, p = Len(px) /\ mv = 0)
              /\ iter' = iter + 1
              /\ bestC' = NewBest
              /\ gw' = NewWorst
              /\ gwv' = IF px = <<>> THEN gwv ELSE MaxOf({gwv, Key(ValueOf(WorstOf(px, pv)))})
              /\ seg' = ""
              /\ p' = 0
              /\ st' = <<>>
              /\ UNCHANGED <<got, iv, ev, px, pv, pu, pb, pbv, pw, pwv>>
         [] OTHER ->
              /\ Must({"C08"}, k = Len(cfg.log))
              /\ UNCHANGED <<got, iv, st, ev, px, pv, pu, pb, pbv, pw, pwv, p, iter, bestC, gw, gwv, seg>>
    /\ UNCHANGED <<cfg, nc, mv, u, nrun, evals, gbest, sep, past>>
=============================================================================
