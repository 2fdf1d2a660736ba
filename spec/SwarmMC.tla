------------------------------ MODULE SwarmMC ------------------------------
(***************************************************************************)
(* Swarm with a nondeterministic environment: small swarms in the plane or *)
(* on the line, all choices of the plug-ins and of the user.  Checked      *)
(* exhaustively for the invariants below, and used to generate scripts of  *)
(* environment choices that the harness replays on the real optimizer.     *)
(***************************************************************************)
EXTENDS Swarm, Json

CONSTANTS
    N0,        \* sizes of swarms
    Dim,
    Coords,    \* initial coordinates and velocity components
    Vels,      \* components of new velocities
    Vals,      \* goal values
    NCv, NPm, NLog,  \* numbers of plug-ins: sets
    MaxIter, MaxCalls, MaxEvals,
    Record,    \* whether hist is kept
    Rename     \* whether plug-ins are replaced between calls

VARIABLES
    calls,     \* calls of the user
    cnt,       \* calls of logger methods <<start, resume, next, finish>>
    tot,       \* <<iterations, points created, finished calls>>
    paused,    \* state at the last return
    seen,      \* history: every <<point, value>> evaluated in this run, per particle
    last,      \* history: position and velocity of every particle at the start of its last move, and new velocity
    hist

mvars == <<svars, calls, cnt, tot, paused, seen, last, hist>>

ValsAll == {1, 2, 3, NAN, PINF, NINF}
ValsTwo == {1, 2}
ValsThree == {1, 2, NAN}
ValsFour == {1, 2, NAN, NINF}
CoordsAll == {-3, -2, -1, 0, 1, 2, 3}
CoordsTwo == {0, 1}
VelsTwo == {-1, 1}

Ids(b, n) == [i \in 1..n |-> b + i]
Cfg(b, c, m, g) == [x |-> 1, v |-> 2, calc |-> 3, stop |-> b + 4, cv |-> Ids(b + 10, c), pm |-> Ids(b + 20, m),
                    log |-> Ids(b + 30, g), box |-> FALSE, int |-> TRUE]

H(x) == hist' = IF Record THEN Append(hist, x) ELSE hist
\* (mentions the state: TLC evaluates constant expressions only once)
Some(S) == IF Record THEN {RandomElement(IF calls >= 0 THEN S ELSE {})} ELSE S

Points(S) == [1..Dim -> S]

MInit ==
    /\ \E c \in NCv, m \in NPm, g \in NLog :
          /\ InitVars(Cfg(0, c, m, g))
          /\ hist = IF Record THEN <<[c |-> "cfg", ncv |-> c, npm |-> m, nlog |-> g, dim |-> Dim]>> ELSE <<>>
    /\ calls = 0
    /\ cnt = <<0, 0, 0, 0>>
    /\ tot = <<0, 0, 0>>
    /\ paused = <<>>
    /\ seen = <<>>
    /\ last = <<>>

Best == CHOOSE o \in bestC : TRUE

CallFind == /\ calls < MaxCalls
            /\ FindMin
            /\ calls' = calls + 1
            /\ seen' = <<>> /\ last' = <<>>
            /\ H([c |-> "find"])
            /\ UNCHANGED <<cnt, tot, paused>>
CallNext == /\ calls < MaxCalls /\ nrun > 0
            /\ NextIterations
            /\ calls' = calls + 1
            /\ H([c |-> "next"])
            /\ UNCHANGED <<cnt, tot, paused, seen, last>>
CallSet == /\ Rename /\ calls < MaxCalls /\ nrun > 0
           /\ cfg.stop = 4
           /\ \E c \in NCv, m \in NPm, g \in NLog :
                /\ SetPlugins(Cfg(100, c, m, g))
                /\ H([c |-> "set", ncv |-> c, npm |-> m, nlog |-> g])
           /\ UNCHANGED <<calls, cnt, tot, paused, seen, last>>
DoXInit == ph = Init0 /\ \E n \in (IF "v" \in got THEN {Len(iv)} ELSE N0) : \E xs \in Some([1..n -> Points(Coords)]) :
    /\ "x" \notin got
    /\ XInit(cfg.x, xs)
    /\ tot' = [tot EXCEPT ![2] = @ + n]
    /\ H([c |-> "x", x |-> xs])
    /\ UNCHANGED <<calls, cnt, paused, seen, last>>
DoVInit ==
    /\ ph = Init0 /\ "x" \in got /\ "v" \notin got
    /\ \E vs \in Some([1..Len(st[1]) -> Points(Vels)]) :
         /\ VInit(cfg.v, vs)
         /\ H([c |-> "v", x |-> vs])
    /\ UNCHANGED <<calls, cnt, tot, paused, seen, last>>
\* positions of points under way that corrections may return: unchanged, or the origin
Corrected(x) == {x, [i \in Idx(x) |-> 0]}
DoPostMove ==
    /\ ph \in {Init0, Moving} /\ st # <<>>
    /\ ph = Init0 => got = {"x", "v"}
    /\ ph = Moving => mv = 1 /\ nc = Len(cfg.cv)
    /\ \E i \in Idx(cfg.pm) : i < Len(st) /\ Len(st[i + 1]) < Len(st[i]) /\
         LET x == st[i][Len(st[i + 1]) + 1] IN
         /\ \A j \in 1..i - 1 : (ph = Init0 /\ ~Record) => Len(st[j + 1]) = Len(st[j])
         /\ \A j \in 1..i - 1 : Len(st[j + 1]) <= Len(st[i + 1]) + 1
         /\ \E y \in Some(Corrected(x)) :
              /\ PostMove(cfg.pm[i], x, y)
              /\ H([c |-> "pm", x |-> y])
    /\ UNCHANGED <<calls, cnt, tot, paused, seen, last>>
DoEval == \E v \in Some(Vals) :
    /\ ph \in {Init0, Moving}
    /\ ph = Init0 => got = {"x", "v"}
    /\ ph = Moving => mv = 1 /\ nc = Len(cfg.cv)
    /\ st # <<>> /\ Len(ev) < Len(st[Len(st)])
    \* the code corrects all points first
    /\ ph = Init0 => \A i \in Idx(st) : Len(st[i]) = Len(st[1])
    /\ LET x == st[Len(st)][Len(ev) + 1] IN
       /\ Evaluate(<<<<x, v, 1, 1>>>>)
       /\ seen' = IF ph = Init0 THEN Append(seen, <<<<x, v>>>>)
                  ELSE [seen EXCEPT ![p + 1] = Append(@, <<x, v>>)]
    /\ H([c |-> "val", x |-> v])
    /\ UNCHANGED <<calls, cnt, tot, paused, last>>
DoCalc ==
    /\ ph = Moving /\ mv = 0 /\ p < Len(px)
    /\ \E o \in Some(Points(Vels)) :
         /\ Calc([g |-> cfg.calc, n |-> Len(px), sw |-> [i \in Idx(px) |-> <<px[i], pv[i]>>], it |-> iter,
                  b |-> Best, x |-> px[p + 1], v |-> pv[p + 1], u |-> <<pu[p + 1]>>,
                  pb |-> <<CHOOSE y \in pb[p + 1] : TRUE>>, o |-> o, s |-> <<>>, rules |-> <<>>, ok |-> TRUE])
         /\ last' = <<px[p + 1], o>>
         /\ H([c |-> "calc", x |-> o])
    /\ UNCHANGED <<calls, cnt, paused, seen>>
    /\ tot' = [tot EXCEPT ![2] = @ + 1]
DoCorrectVelocity ==
    /\ ph = Moving /\ mv = 1 /\ nc < Len(cfg.cv) /\ st # <<>>
    /\ \A i \in Idx(st) : i > 1 => st[i] = <<>>
    /\ \E o \in Some({u, [i \in Idx(u) |-> 0]}) :
         /\ CorrectVelocity([g |-> cfg.cv[nc + 1], i |-> u, o |-> o, s |-> <<>>])
         /\ last' = <<last[1], o>>
         /\ H([c |-> "cv", x |-> o])
    /\ UNCHANGED <<calls, cnt, tot, paused, seen>>
DoLog ==
    /\ k < Len(cfg.log)
    /\ Log(cfg.log[k + 1], iter, Best)
    /\ cnt' = [cnt EXCEPT ![CASE ph = LStart -> 1 [] ph = LResume -> 2 [] ph = LNext -> 3 [] OTHER -> 4] = @ + 1]
    /\ UNCHANGED <<calls, tot, paused, seen, last, hist>>
DoTest == \E ans \in BOOLEAN :
    /\ (iter >= MaxIter \/ evals >= MaxEvals) => ans
    /\ Test(cfg.stop, iter, Best, ans)
    /\ H([c |-> "test", x |-> ans])
    /\ UNCHANGED <<calls, cnt, tot, paused, seen, last>>
DoReturn ==
    /\ Return(Best)
    /\ paused' = <<px, pv, pu, pb, pw, iter, bestC', gw>>
    /\ tot' = [tot EXCEPT ![3] = @ + 1]
    /\ UNCHANGED <<calls, cnt, seen, last, hist>>

Complete == CASE ph = Init0 -> got = {"x", "v"} /\ Len(ev) = Len(st[1])
              [] ph = Moving -> p = Len(px) /\ mv = 0
              [] OTHER -> k = Len(cfg.log)
DoAdvance ==
    /\ ph \in Silent /\ Complete
    /\ Advance
    /\ tot' = IF ph = Moving THEN [tot EXCEPT ![1] = @ + 1] ELSE tot
    /\ UNCHANGED <<calls, cnt, paused, seen, last, hist>>

Finished == ph = Idle /\ calls = MaxCalls
MNext == \/ CallFind \/ CallNext \/ CallSet \/ DoXInit \/ DoVInit \/ DoPostMove \/ DoEval \/ DoCalc
         \/ DoCorrectVelocity \/ DoLog \/ DoTest \/ DoReturn \/ DoAdvance
         \/ (Finished /\ ~Record /\ UNCHANGED mvars)

Spec == MInit /\ [][MNext]_mvars

----------------------------------------------------------------------------
(* Invariants: the incremental state agrees with the whole history *)

TypeOK ==
    /\ ph \in 0..8
    /\ Len(px) = Len(pv) /\ Len(px) = Len(pu) /\ Len(px) = Len(pb) /\ Len(px) = Len(pw)
    /\ bestC # {} /\ p <= Len(px) /\ mv \in {0, 1}

AllSeen == Flat(seen)
Settled == ph \in {LStart, LResume, Testing, LNext, LFinish, Returning}

\* C11: the report is the best point ever visited in the run
InvBest == (Settled /\ seen # <<>>) =>
    LET m == MinOf({Key(s[2]) : s \in Range1(AllSeen)}) IN
    \A o \in bestC : o # NoSol /\ o \in Range1(AllSeen) /\ Key(o[2]) = m
\* and it does not move during an iteration, nor does it ever get worse
BestStays == [][(ph = Moving /\ ph' = Moving) => \A o \in bestC' : o \in bestC]_mvars
BestMonotone == [][(ph # Idle /\ bestC # {NoSol}) => \A o \in bestC' : \A n \in bestC : Key(o[2]) <= Key(n[2])]_mvars
BestStrict == [][(ph = Moving /\ ph' = LNext) =>
                   (bestC' = bestC \/ \A o \in bestC' : \A n \in bestC : Key(o[2]) < Key(n[2]))]_mvars

\* C13: memories
InvMemory == \A i \in Idx(px) :
    LET own == Range1(seen[i])
        b == MinOf({Key(s[2]) : s \in own})
        w == MaxOf({Key(s[2]) : s \in own})
    IN /\ pb[i] = {s[1] : s \in {r \in own : Key(r[2]) = b}}
       /\ pw[i] = {s[1] : s \in {r \in own : Key(r[2]) = w}}
InvWorst == (Settled /\ seen # <<>>) =>
    LET w == MaxOf({Key(s[2]) : s \in Range1(AllSeen)}) IN
    gw = {s[1] : s \in {r \in Range1(AllSeen) : Key(r[2]) = w}}

\* C12: the motion law without corrections of the position; the order of particles never changes
InvMotion == (ph = Moving /\ mv = 0 /\ p > 0) =>
    /\ pu[p] = last[2]
    /\ cfg.pm = <<>> => px[p] = [d \in Idx(px[p]) |-> last[1][d] + last[2][d]]
OnlyOwn == [][(ph = Moving /\ ph' = Moving) =>
                \A i \in Idx(px) : i # p + 1 => px'[i] = px[i] /\ pu'[i] = pu[i] /\ pv'[i] = pv[i]]_mvars

\* C06
InvEvals == ph \notin {Init0, Moving} => evals = tot[2]
\* C08
InvLog == (ph = Idle /\ ~Rename) =>
    LET g == Len(cfg.log) IN
    /\ cnt[1] = g * nrun /\ cnt[2] = g * calls /\ cnt[3] = g * tot[1] /\ cnt[4] = g * tot[3]
\* C09
InvResume == (seg = "resumed" /\ ph \in {LResume, Testing}) =>
    /\ <<px, pv, pu, pb, pw, iter, gw>> =
         <<paused[1], paused[2], paused[3], paused[4], paused[5], paused[6], paused[8]>>
    /\ bestC \subseteq paused[7]
\* C10
InvFresh == ph = Init0 => px = <<>> /\ iter = 0 /\ bestC = {NoSol} /\ gbest = NoSol /\ gw = {} /\ pb = <<>>
InvFreshBest == (ph \in {LStart, LResume} /\ seg # "resumed") =>
    /\ iter = 0
    /\ bestC = IF px = <<>> THEN {NoSol} ELSE IF ph = LStart /\ k = 0 THEN BestOf(px, pv) ELSE bestC
    /\ \A i \in Idx(px) : pb[i] = {px[i]} /\ pw[i] = {px[i]}
\* C07
OneStep == [][(iter' \in {iter, iter + 1}) \/ (ph = Idle /\ iter' = 0)]_mvars

PrintScript == (Record /\ Finished) => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
