----------------------------- MODULE GeneticMC -----------------------------
(***************************************************************************)
(* Genetic with a nondeterministic environment: small populations, all     *)
(* choices of the plug-ins and of the user.  Checked exhaustively for the  *)
(* invariants below, and used to generate scripts of environment choices   *)
(* (hist) that the harness replays on the real optimizer.                  *)
(***************************************************************************)
EXTENDS Genetic, Json

CONSTANTS
    N0,        \* sizes of initial populations
    Vals,      \* goal values
    Fams,      \* numbers of families
    FamSizes,  \* sizes of families
    Kids,      \* numbers of children of a family
    NPre, NSel, NLog,  \* numbers of plug-ins: sets
    MaxIter,   \* iterations per run
    MaxCalls,  \* calls of find_min and next_iterations
    MaxPop,    \* no more births above this size
    MaxEvals,
    Lim,       \* 0: arbitrary selections; N: the shipped non-finite filter and limit N
    Record,    \* whether hist is kept
    Rename     \* whether plug-ins are replaced between calls

VARIABLES
    pts,       \* points made so far (they are numbered)
    calls,     \* calls of the user
    cnt,       \* calls of logger methods <<start, resume, next, finish>>
    tot,       \* <<iterations, points created, finished calls>> since the optimizer was made
    paused,    \* state at the last return
    hist       \* environment choices, as a script

mvars == <<gvars, pts, calls, cnt, tot, paused, hist>>

\* value sets for configurations
ValsAll == {1, 2, 3, NAN, PINF, NINF}
ValsNum == {1, 2}
ValsNan == {1, NAN}
ValsThree == {1, 2, NAN}
ValsFour == {1, 2, PINF, NAN}

Ids(b, n) == [i \in 1..n |-> b + i]
Cfg(b, p, s, g) == [create |-> 1, stop |-> b + 2, pair |-> b + 3, cross |-> b + 4, mut |-> b + 5,
                    pre |-> Ids(b + 10, p), sel |-> Ids(b + 20, s), log |-> Ids(b + 30, g),
                    lim |-> Lim, box |-> FALSE]

H(x) == hist' = IF Record THEN Append(hist, x) ELSE hist

MInit ==
    /\ \E p \in NPre, s \in NSel, g \in NLog :
          /\ InitVars(Cfg(0, p, IF Lim > 0 THEN 2 ELSE s, g))
          /\ hist = IF Record THEN <<[c |-> "cfg", npre |-> p, nsel |-> IF Lim > 0 THEN 2 ELSE s,
                                      nlog |-> g, lim |-> Lim]>> ELSE <<>>
    /\ pts = 0
    /\ calls = 0
    /\ cnt = <<0, 0, 0, 0>>
    /\ tot = <<0, 0, 0>>
    /\ paused = <<>>

View == [xs |-> px, vs |-> pv, d |-> <<>>, it |-> iter,
         b |-> CHOOSE o \in bestC : TRUE, w |-> CHOOSE o \in worstC : TRUE, ok |-> TRUE]
SelView == [View EXCEPT !.d = SetToSortSeq(dead, <)]
Best == CHOOSE o \in bestC : TRUE

SeqsOf(S, n) == [1..n -> S]
New(n) == [i \in 1..n |-> pts + i]

CallFind == /\ calls < MaxCalls
            /\ FindMin
            /\ calls' = calls + 1
            /\ H([c |-> "find"])
            /\ UNCHANGED <<pts, cnt, tot, paused>>
CallNext == /\ calls < MaxCalls /\ nrun > 0
            /\ NextIterations
            /\ calls' = calls + 1
            /\ H([c |-> "next"])
            /\ UNCHANGED <<pts, cnt, tot, paused>>
CallSet == /\ Rename /\ calls < MaxCalls /\ nrun > 0
           /\ cfg.stop = 2
           /\ \E p \in NPre, s \in NSel, g \in NLog :
                /\ SetPlugins(Cfg(100, p, IF Lim > 0 THEN 2 ELSE s, g))
                /\ H([c |-> "set", npre |-> p, nsel |-> IF Lim > 0 THEN 2 ELSE s, nlog |-> g])
           /\ UNCHANGED <<pts, calls, cnt, tot, paused>>
DoCreate == \E n \in N0 :
    /\ Create(cfg.create, New(n))
    /\ pts' = pts + n
    /\ tot' = [tot EXCEPT ![2] = @ + n]
    /\ H([c |-> "create", x |-> New(n)])
    /\ UNCHANGED <<calls, cnt, paused>>
DoEval == \E v \in (IF Record THEN {RandomElement(IF calls >= 0 THEN Vals ELSE {})} ELSE Vals) :
    /\ Len(ev) < Len(nb)
    /\ Evaluate(<<<<nb[Len(ev) + 1], v, 1, 1>>>>)
    /\ H([c |-> "val", x |-> v])
    /\ UNCHANGED <<pts, calls, cnt, tot, paused>>
DoLog ==
    /\ k < Len(cfg.log)
    /\ Log(cfg.log[k + 1], iter, Best)
    /\ cnt' = [cnt EXCEPT ![CASE ph = LStart -> 1 [] ph = LResume -> 2 [] ph = LNext -> 3 [] OTHER -> 4] = @ + 1]
    /\ UNCHANGED <<pts, calls, tot, paused, hist>>
DoTest == \E ans \in BOOLEAN :
    /\ (iter >= MaxIter \/ evals >= MaxEvals) => ans
    /\ Test(cfg.stop, iter, Best, ans)
    /\ H([c |-> "test", x |-> ans])
    /\ UNCHANGED <<pts, calls, cnt, tot, paused>>
FamSet == UNION {SeqsOf(Idx(px), m) : m \in FamSizes}
DoPair == \E n \in (IF Len(px) > MaxPop THEN {0} ELSE IF FamSet = {} THEN {0} ELSE Fams) :
    \E f \in (IF Record THEN {[i \in 1..n |-> RandomElement(FamSet)]} ELSE SeqsOf(FamSet, n)) :
        /\ Pair(cfg.pair, View, f)
        /\ H([c |-> "fams", x |-> f])
        /\ UNCHANGED <<pts, calls, cnt, tot, paused>>
DoCross == \E n \in Kids :
    /\ fam # <<>>
    /\ Cross(cfg.cross, <<<<[j \in Idx(fam[1]) |-> px[fam[1][j]]], New(n)>>>>)
    /\ pts' = pts + n
    /\ H([c |-> "cross", x |-> New(n)])
    /\ UNCHANGED <<calls, cnt, tot, paused>>
DoMutate == \E same \in BOOLEAN :
    /\ kids # <<>>
    /\ LET y == IF same THEN kids[1] ELSE pts + 1 IN
       /\ Mutate(cfg.mut, <<<<kids[1], y>>>>)
       /\ H([c |-> "mut", x |-> y])
    /\ pts' = IF same THEN pts ELSE pts + 1
    /\ UNCHANGED <<calls, cnt, tot, paused>>
DoPre == \E out \in {nb, <<>>, Reverse(nb), nb \o <<pts + 1>>} \cup (IF nb = <<>> THEN {} ELSE {Tail(nb)}) :
    /\ k < Len(cfg.pre)
    /\ PreBirth(cfg.pre[k + 1], View, nb, out)
    /\ pts' = pts + 1
    /\ H([c |-> "pre", x |-> out])
    /\ UNCHANGED <<calls, cnt, tot, paused>>

Better(v, w) == v < w
Live == Idx(px) \ dead
Killable ==
    IF cfg.lim = 0 THEN SUBSET Live
    ELSE IF k = 0 THEN {{i \in Live : ~Finite(pv[i])}}
    ELSE {K \in SUBSET Live :
            /\ Cardinality(K) = (IF Cardinality(Live) > cfg.lim THEN Cardinality(Live) - cfg.lim ELSE 0)
            /\ \A i \in K, j \in Live \ K : ~Better(pv[i], pv[j])}
DoSelect == \E K \in (IF Record THEN {RandomElement(Killable)} ELSE Killable) :
    /\ k < Len(cfg.sel)
    /\ Select(cfg.sel[k + 1], SelView, SetToSortSeq(dead \cup K, <), TRUE, <<SetToSortSeq(K, <)>>)
    /\ H([c |-> "sel", x |-> SetToSortSeq(K, <)])
    /\ UNCHANGED <<pts, calls, cnt, tot, paused>>
DoReturn ==
    /\ Return(Best)
    /\ paused' = <<px, pv, iter, bestC', worstC>>
    /\ tot' = [tot EXCEPT ![3] = @ + 1]
    /\ UNCHANGED <<pts, calls, cnt, hist>>

Complete == CASE ph \in {Birth0, Birth} -> Len(ev) = Len(nb)
              [] ph = Breeding -> fam = <<>> /\ kids = <<>>
              [] ph = PreBirthing -> k = Len(cfg.pre)
              [] ph = Selecting -> k = Len(cfg.sel)
              [] OTHER -> k = Len(cfg.log)
DoAdvance ==
    /\ ph \in Silent /\ Complete
    /\ Advance
    /\ tot' = CASE ph = Selecting -> [tot EXCEPT ![1] = @ + 1]
                [] ph = PreBirthing -> [tot EXCEPT ![2] = @ + Len(nb)]
                [] OTHER -> tot
    /\ UNCHANGED <<pts, calls, cnt, paused, hist>>

Finished == ph = Idle /\ calls = MaxCalls
MNext == \/ CallFind \/ CallNext \/ CallSet \/ DoCreate \/ DoEval \/ DoLog \/ DoTest \/ DoPair
         \/ DoCross \/ DoMutate \/ DoPre \/ DoSelect \/ DoReturn \/ DoAdvance
         \/ (Finished /\ ~Record /\ UNCHANGED mvars)

Spec == MInit /\ [][MNext]_mvars /\ WF_mvars(MNext)

----------------------------------------------------------------------------
(* Invariants *)

TypeOK ==
    /\ ph \in 0..13
    /\ Len(px) = Len(pv)
    /\ dead \subseteq Idx(px)
    /\ Len(ev) <= Len(nb)
    /\ bestC # {} /\ worstC # {}

\* C02: the report is an extreme survivor, or nothing before the first generation
InvBest ==
    (ph \in {LNext, Testing, Pairing, Breeding, PreBirthing} /\ px # <<>> /\ iter > 0)
        => \A o \in bestC : /\ o # NoSol
                            /\ \E i \in Idx(px) : px[i] = o[1] /\ pv[i] = o[2]
                            /\ \A i \in Idx(px) : ~Better(pv[i], o[2])
                            /\ o[2] = NAN => \A i \in Idx(px) : pv[i] = NAN
InvWorst ==
    (ph \in {LNext, Testing, Pairing, Breeding, PreBirthing} /\ px # <<>> /\ iter > 0)
        => \A o \in worstC : /\ o # NoSol
                             /\ \E i \in Idx(px) : px[i] = o[1] /\ pv[i] = o[2]
                             /\ o[2] # NAN => \A i \in Idx(px) : pv[i] = NAN \/ ~Better(o[2], pv[i])
InvNoneYet == (iter = 0) => bestC = {NoSol} /\ worstC = {NoSol}

\* C06: every created point is evaluated exactly once, nothing else is
InvEvals == ph \notin {Birth0, Birth, Creating} => evals = tot[2]

\* C08: every logger hears every event once
InvLog == (ph = Idle /\ ~Rename) =>
    LET g == Len(cfg.log) IN
    /\ cnt[1] = g * nrun
    /\ cnt[2] = g * calls
    /\ cnt[3] = g * tot[1]
    /\ cnt[4] = g * tot[3]

\* C09: a continued run starts where it stopped
InvResume == (seg = "resumed" /\ ph \in {LResume, Testing}) =>
    /\ <<px, pv, iter>> = <<paused[1], paused[2], paused[3]>>
    /\ bestC \subseteq paused[4] /\ worstC \subseteq paused[5]

\* C10: a new search starts from nothing
InvFresh == ph \in {Creating, Birth0} =>
    px = <<>> /\ pv = <<>> /\ iter = 0 /\ bestC = {NoSol} /\ worstC = {NoSol} /\ dead = {} /\ gbest = NoSol

\* C03: theorems of the shipped selections (the guard C03 of Genetic is not in force here)
InvLimit == (Lim > 0 /\ ph = LNext) =>
    /\ Len(px) <= Lim
    /\ \A i \in Idx(pv) : Finite(pv[i])
Elitist == [][(Lim > 0 /\ iter' = iter + 1) =>
                \A o \in bestC : o # NoSol => \A n \in bestC' : n # NoSol /\ n[2] <= o[2]]_mvars

\* C07: an iteration is completed at a time, and only after the criterion was asked
OneStep == [][(iter' \in {iter, iter + 1}) \/ (ph = Idle /\ iter' = 0)]_mvars

\* C01: no individual changes place, point or value while it lives
Stable == [][(ph \in {Pairing, Breeding, PreBirthing, Birth, LNext, Testing}) =>
               (SubSeq(px', 1, Len(px)) = px /\ SubSeq(pv', 1, Len(pv)) = pv)]_mvars
SurvivorsOnly == [][(ph = Selecting /\ ph' = LNext) =>
                      /\ px' = Without(px, dead) /\ pv' = Without(pv, dead)]_mvars

\* every call returns
Returns == (ph # Idle) ~> (ph = Idle)

----------------------------------------------------------------------------
(* Scripts *)
PrintScript == (Record /\ Finished) => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
