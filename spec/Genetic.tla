------------------------------ MODULE Genetic ------------------------------
(***************************************************************************)
(* The genetic optimizer: searches (find_min), continuations               *)
(* (next_iterations), and the plug-in calls they consist of, one action    *)
(* per plug-in call.  Where the code may interleave calls of different     *)
(* plug-ins without changing what any of them sees (crossing and           *)
(* mutation), the specification allows every interleaving.                 *)
(*                                                                         *)
(* Actions take what was observed (or, when model checking, what the       *)
(* environment chose) as arguments.                                        *)
(***************************************************************************)
EXTENDS Common

VARIABLES
    cfg,      \* the installed plug-ins (instance numbers), in order
    ph,       \* phase, see below
    k,        \* plug-ins already called in a phase with several of them
    px, pv,   \* points and values of the individuals
    dead,     \* positions of those killed in this generation
    iter,     \* completed iterations
    bestC, worstC,  \* what may be reported as best and worst: a set of <<>> or <<point, value>>
    fam,      \* families that are still to be crossed
    kids,     \* children that are still to be mutated
    nb,       \* points about to be born
    ev,       \* evaluations made of them: <<point, value>>
    nrun,     \* searches started
    seg,      \* "first", "rerun", "resumed" until the first generation is paired, then ""
    evals,    \* number of evaluations since the optimizer was made
    gbest     \* solution reported before the previous iteration of this run

gvars == <<cfg, ph, k, px, pv, dead, iter, bestC, worstC, fam, kids, nb, ev, nrun, seg, evals, gbest>>

Idle == 0
Creating == 1
Birth0 == 2      \* evaluation of the initial population
LStart == 3
LResume == 4
Testing == 5
Pairing == 6
Breeding == 7    \* crossing and mutation
PreBirthing == 8
Birth == 9       \* evaluation of the newborns
Selecting == 10
LNext == 11
LFinish == 12
Returning == 13

\* Phases that end without a call of their own; the phase that follows.
Silent == {Birth0, LStart, LResume, Breeding, PreBirthing, Birth, Selecting, LNext, LFinish}
Succ(p) == CASE p = LResume -> Testing
             [] p = LNext -> Testing
             [] OTHER -> p + 1

PhaseTags(p) == CASE p \in {Creating} -> {"C10"}
                  [] p \in {Birth0, Birth} -> {"C06"}
                  [] p \in {LStart, LResume, LNext, LFinish} -> {"C08"}
                  [] p \in {Testing, Returning, Idle} -> {"C07"}
                  [] OTHER -> {"C01"}

\* Guards on the state a call sees are also part of resuming and of starting anew.
Seg(tags) == tags \cup (CASE seg = "resumed" -> {"C09"} [] seg = "rerun" -> {"C10"} [] OTHER -> {})

EvX(e) == [i \in Idx(e) |-> e[i][1]]
EvV(e) == [i \in Idx(e) |-> e[i][2]]

\* The extremes of a population.
NoSol == <<>>
BestOf(xs, vs) ==
    LET m == MinOf(Range1(vs)) IN {<<xs[i], vs[i]>> : i \in {j \in Idx(vs) : vs[j] = m}}
WorstOf(xs, vs) ==
    LET num == {v \in Range1(vs) : v # NAN}
        m == IF num = {} THEN NAN ELSE MaxOf(num)
    IN {<<xs[i], vs[i]>> : i \in {j \in Idx(vs) : vs[j] = m}}

InitVars(c) ==
    /\ cfg = c
    /\ ph = Idle
    /\ k = 0
    /\ px = <<>> /\ pv = <<>> /\ dead = {}
    /\ iter = 0
    /\ bestC = {NoSol} /\ worstC = {NoSol}
    /\ fam = <<>> /\ kids = <<>> /\ nb = <<>> /\ ev = <<>>
    /\ nrun = 0
    /\ seg = "first"
    /\ evals = 0
    /\ gbest = NoSol

----------------------------------------------------------------------------
(* Calls of the user *)

FindMin ==
    /\ ph = Idle
    /\ ph' = Creating
    /\ px' = <<>> /\ pv' = <<>> /\ dead' = {}
    /\ iter' = 0
    /\ bestC' = {NoSol} /\ worstC' = {NoSol}
    /\ fam' = <<>> /\ kids' = <<>> /\ nb' = <<>> /\ ev' = <<>>
    /\ nrun' = nrun + 1
    /\ seg' = IF nrun = 0 THEN "first" ELSE "rerun"
    /\ k' = 0
    /\ gbest' = NoSol
    /\ UNCHANGED <<cfg, evals>>

NextIterations ==
    /\ ph = Idle
    /\ ph' = LResume
    /\ seg' = IF nrun = 0 THEN "first" ELSE "resumed"
    /\ k' = 0
    /\ UNCHANGED <<cfg, px, pv, dead, iter, bestC, worstC, fam, kids, nb, ev, nrun, evals, gbest>>

SetPlugins(c) ==
    /\ ph = Idle
    /\ cfg' = c
    /\ UNCHANGED <<ph, k, px, pv, dead, iter, bestC, worstC, fam, kids, nb, ev, nrun, seg, evals, gbest>>

----------------------------------------------------------------------------
(* What a call sees *)

\* o is a reported solution
SeesBest(o, tags) ==
    /\ Must(tags, o \in bestC)
    /\ bestC' = {o}

\* view of the population by a genetic plug-in; np, nv: the individuals expected
SeesPop(v, np, nv, tags) ==
    /\ Must({"C29"}, v.ok)
    /\ Must(Seg({"C01"}), v.xs = np)
    /\ Must(Seg({"C06"}), v.vs = nv)
    /\ Must(Seg({"C07"}), v.it = iter)
    /\ SeesBest(v.b, Seg({"C02"}))
    /\ Must(Seg({"C02"}), v.w \in worstC)
    /\ worstC' = {v.w}

----------------------------------------------------------------------------
(* Calls of plug-ins *)

\* g is the plug-in that has to be called after the first n of the installed ones
Plug(g, installed, n) ==
    Must({"C01"} \cup (IF g \in Range1(installed) THEN {} ELSE {"C09"}),
         n < Len(installed) /\ installed[n + 1] = g)

Create(g, xs) ==
    /\ ph = Creating
    /\ Must({"C01", "C10"}, g = cfg.create)
    /\ nb' = xs
    /\ ev' = <<>>
    /\ ph' = Birth0
    /\ UNCHANGED <<cfg, k, px, pv, dead, iter, bestC, worstC, fam, kids, nrun, seg, evals, gbest>>

\* c: consecutive evaluations <<point, value, inside the box, made faithfully by the adapter of plain functions>>
Evaluate(c) ==
    /\ ph \in {Birth0, Birth}
    /\ Must({"C06"} \cup (IF ph = Birth0 /\ nrun > 1 THEN {"C10"} ELSE {}),
            /\ Len(ev) + Len(c) <= Len(nb)
            /\ \A i \in Idx(c) : c[i][1] = nb[Len(ev) + i])
    /\ Must({"C06"}, \A i \in Idx(c) : c[i][4] = 1)
    /\ Must({"C15"}, (ph = Birth /\ cfg.box) => \A i \in Idx(c) : c[i][3] = 1)
    /\ ev' = ev \o [i \in Idx(c) |-> <<c[i][1], c[i][2]>>]
    /\ evals' = evals + Len(c)
    /\ UNCHANGED <<cfg, ph, k, px, pv, dead, iter, bestC, worstC, fam, kids, nb, nrun, seg, gbest>>

LogTags == IF ph = LResume /\ seg = "resumed" THEN {"C08", "C09"}
           ELSE IF seg = "rerun" /\ ph \in {LStart, LResume} THEN {"C08", "C10"}
           ELSE {"C08"}

Log(g, it, b) ==
    /\ ph \in {LStart, LResume, LNext, LFinish}
    /\ Must({"C08"} \cup (IF g \in Range1(cfg.log) THEN {} ELSE {"C09"}),
            k < Len(cfg.log) /\ cfg.log[k + 1] = g)
    /\ Must(LogTags, it = iter)
    /\ SeesBest(b, LogTags \cup {"C02"})
    /\ k' = k + 1
    /\ UNCHANGED <<cfg, ph, px, pv, dead, iter, worstC, fam, kids, nb, ev, nrun, seg, evals, gbest>>

Test(g, it, b, ans) ==
    /\ ph = Testing
    /\ Must(IF g = cfg.stop THEN {} ELSE {"C07", "C09"}, g = cfg.stop)
    /\ Must(Seg({"C07"}), it = iter)
    /\ SeesBest(b, Seg({"C02", "C07"}))
    \* the shipped selections never lose the best
    /\ Must({"C03"}, (cfg.lim > 0 /\ gbest # NoSol) => (b # NoSol /\ b[2] <= gbest[2]))
    /\ gbest' = b
    /\ ph' = IF ans THEN LFinish ELSE Pairing
    /\ k' = 0
    /\ UNCHANGED <<cfg, px, pv, dead, iter, worstC, fam, kids, nb, ev, nrun, seg, evals>>

Pair(g, v, f) ==
    /\ ph = Pairing
    /\ Plug(g, <<cfg.pair>>, 0)
    /\ Must({"C01"}, v.d = <<>>)
    /\ SeesPop(v, px, pv, {})
    /\ px' = v.xs /\ pv' = v.vs
    /\ fam' = f
    /\ kids' = <<>> /\ nb' = <<>> /\ ev' = <<>>
    /\ ph' = Breeding
    /\ k' = 0
    /\ seg' = ""
    /\ UNCHANGED <<cfg, dead, iter, nrun, evals, gbest>>

\* c: consecutive crossings <<parents, children>>
Cross(g, c) ==
    /\ ph = Breeding
    /\ Plug(g, <<cfg.cross>>, 0)
    /\ Must({"C01"},
            /\ Len(c) <= Len(fam)
            /\ \A i \in Idx(c) : c[i][1] = [j \in Idx(fam[i]) |-> px[fam[i][j]]])
    /\ fam' = IF Len(c) <= Len(fam) THEN SubSeq(fam, Len(c) + 1, Len(fam)) ELSE <<>>
    /\ kids' = kids \o Flat([i \in Idx(c) |-> c[i][2]])
    /\ UNCHANGED <<cfg, ph, k, px, pv, dead, iter, bestC, worstC, nb, ev, nrun, seg, evals, gbest>>

\* c: consecutive mutations <<point, mutant>>
Mutate(g, c) ==
    /\ ph = Breeding
    /\ Plug(g, <<cfg.mut>>, 0)
    /\ Must({"C01"}, Len(c) <= Len(kids) /\ \A i \in Idx(c) : c[i][1] = kids[i])
    /\ kids' = IF Len(c) <= Len(kids) THEN SubSeq(kids, Len(c) + 1, Len(kids)) ELSE <<>>
    /\ nb' = nb \o [i \in Idx(c) |-> c[i][2]]
    /\ UNCHANGED <<cfg, ph, k, px, pv, dead, iter, bestC, worstC, fam, ev, nrun, seg, evals, gbest>>

PreBirth(g, v, in, out) ==
    /\ ph = PreBirthing
    /\ Plug(g, cfg.pre, k)
    /\ Must({"C01"}, in = nb)
    /\ Must({"C01"}, v.d = <<>>)
    /\ SeesPop(v, px, pv, {})
    /\ nb' = out
    /\ k' = k + 1
    /\ UNCHANGED <<cfg, ph, px, pv, dead, iter, fam, kids, ev, nrun, seg, evals, gbest>>

\* d2: the positions of the dead afterwards; same: nothing else was changed, and everything agrees;
\* meant: whom a scripted selection chose (<<>>: not known)
Select(g, v, d2, same, meant) ==
    /\ ph = Selecting
    /\ Plug(g, cfg.sel, k)
    /\ Must({"C01"}, Range1(v.d) = dead)
    /\ SeesPop(v, px, pv, {})
    /\ px' = v.xs /\ pv' = v.vs
    /\ dead' = Range1(d2)
    /\ Must({"C29"}, same)
    /\ Must({"C29"}, meant # <<>> => dead' = Range1(v.d) \cup Range1(meant[1]))
    /\ k' = k + 1
    /\ UNCHANGED <<cfg, ph, iter, fam, kids, nb, ev, nrun, seg, evals, gbest>>

Return(b) ==
    /\ ph = Returning
    /\ SeesBest(b, Seg({"C02", "C07"}))
    /\ ph' = Idle
    /\ UNCHANGED <<cfg, k, px, pv, dead, iter, worstC, fam, kids, nb, ev, nrun, seg, evals, gbest>>

----------------------------------------------------------------------------
(* Ends of phases: everything that had to be done in the phase is done. *)

Settled == Without(px, dead)
SettledV == Without(pv, dead)

\* What the shipped selections guarantee (C03)
LimitHolds(xs, vs) ==
    LET fin == Cardinality({i \in Idx(pv) : Finite(pv[i])}) IN
    /\ Len(xs) <= cfg.lim
    /\ \A i \in Idx(vs) : Finite(vs[i])
    /\ fin >= cfg.lim => Len(xs) = cfg.lim

Advance ==
    /\ ph \in Silent
    /\ ph' = Succ(ph)
    /\ k' = 0
    /\ CASE ph \in {Birth0, Birth} ->
              /\ Must({"C06"}, EvX(ev) = nb)
              \* the points come from the pre-birth filters, the values from the evaluations
              /\ px' = px \o nb
              /\ pv' = pv \o (IF Len(ev) = Len(nb) THEN EvV(ev) ELSE [i \in Idx(nb) |-> NAN])
              /\ nb' = <<>> /\ ev' = <<>>
              /\ UNCHANGED <<dead, iter, bestC, worstC, fam, kids, seg, gbest>>
         [] ph = Breeding ->
              /\ Must({"C01"}, fam = <<>> /\ kids = <<>>)
              /\ UNCHANGED <<px, pv, dead, iter, bestC, worstC, fam, kids, nb, ev, seg, gbest>>
         [] ph = PreBirthing ->
              /\ Must({"C01"}, k = Len(cfg.pre))
              /\ UNCHANGED <<px, pv, dead, iter, bestC, worstC, fam, kids, nb, ev, seg, gbest>>
         [] ph = Selecting ->
              /\ Must({"C01"}, k = Len(cfg.sel))
              /\ px' = Settled /\ pv' = SettledV /\ dead' = {}
              /\ iter' = iter + 1
              /\ bestC' = IF Settled = <<>> THEN bestC ELSE BestOf(Settled, SettledV)
              /\ worstC' = IF Settled = <<>> THEN worstC ELSE WorstOf(Settled, SettledV)
              /\ Must({"C03"}, cfg.lim > 0 => LimitHolds(Settled, SettledV))
              /\ UNCHANGED <<fam, kids, nb, ev, gbest, seg>>
         [] OTHER ->
              /\ Must({"C08"}, k = Len(cfg.log))
              /\ UNCHANGED <<px, pv, dead, iter, bestC, worstC, fam, kids, nb, ev, seg, gbest>>
    /\ UNCHANGED <<cfg, nrun, evals>>
=============================================================================
