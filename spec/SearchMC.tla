------------------------------ MODULE SearchMC ------------------------------
(***************************************************************************)
(* Searches, pauses, resumptions, new searches and replaced criteria with  *)
(* small trees of shipped criteria, for both optimizers and every course   *)
(* of the best value.                                                      *)
(***************************************************************************)
EXTENDS Search, Json
CONSTANTS Trees, Algs, Vals, MaxCalls, Depth, Emit
VARIABLES calls,   \* calls made
          asked,   \* questions so far
          says,    \* answers of the tree in this call
          quiet,   \* nothing but a resumption since a search was ended by its criterion
          hist
mcvars == <<searchvars, calls, asked, says, quiet, hist>>

Node(k, n, d, kids) == [k |-> k, n |-> n, d |-> d, kids |-> kids]
Lim1(n) == Node("max", n, 0, <<>>)
Thr(d) == Node("thr", 0, d, <<>>)
Gnc(n, d) == Node("gnc", n, d, <<>>)
Two(k, x, y) == <<Node(k, 0, 0, <<2, 3>>), x, y>>
Leafs == {Lim1(0), Lim1(2), Thr(0), Gnc(0, 0), Gnc(1, 1)}
TreesMax == {<<Lim1(n)>> : n \in 0..3}
TreesLeaf == {<<x>> : x \in Leafs}
TreesPair == {Two(k, x, y) : k \in {"any", "all"}, x \in Leafs, y \in Leafs}
TreesDeep == {<<Node("any", 0, 0, <<2, 5>>), Node("all", 0, 0, <<3, 4>>), Gnc(0, 0), Thr(1), Lim1(3)>>,
              <<Node("all", 0, 0, <<2, 5>>), Node("any", 0, 0, <<3, 4>>), Gnc(1, 0), Thr(0), Lim1(1)>>}
TreesAll == TreesMax \cup TreesLeaf \cup TreesPair \cup TreesDeep
\* trees that say stop after some number of iterations at the latest
RECURSIVE BoundedAt(_, _)
BoundedAt(ns, n) == CASE ns[n].k = "max" -> TRUE
                      [] ns[n].k = "any" -> \E i \in Idx(ns[n].kids) : BoundedAt(ns, ns[n].kids[i])
                      [] ns[n].k = "all" -> \A i \in Idx(ns[n].kids) : BoundedAt(ns, ns[n].kids[i])
                      [] OTHER -> FALSE
TreesBounded == {ns \in TreesAll : BoundedAt(ns, 1)}

ValsNum == {0, 1, 3}
ValsOdd == {0, 2, PINF, NAN}
ValsFew == {0, 2}

H(x) == hist' = IF Emit THEN Append(hist, x) ELSE hist

MCInit == /\ \E ns \in Trees, g \in Algs :
               /\ SearchStart([nodes |-> ns, alg |-> g])
               /\ hist = IF Emit THEN <<[c |-> "cfg", nodes |-> ns, alg |-> g]>> ELSE <<>>
          /\ calls = 0 /\ asked = 0 /\ says = <<>> /\ quiet = FALSE

Members(i, w) ==
    LET order == SelectSeq([n \in Idx(nodes) |-> n], LAMBDA n : IsLeaf(n))
        says1(n) == LET x == nodes[n] IN
            CASE x.k = "max" -> i >= x.n
              [] x.k = "thr" -> w # <<>> /\ w[1] # NAN /\ w[1] <= x.d
              [] OTHER -> Stagnant(Looked(mem[n], x.d, i, w), x.n, i, w)
    IN [k \in Idx(order) |-> [k |-> order[k], a |-> says1(order[k]), it |-> i, v |-> w]]
Answer(i, w) == LET c == Members(i, w) IN Says(1, [n \in Leaves |-> \E k \in Idx(c) : c[k].k = n /\ c[k].a])

DoCall == \E w \in {"find", "next"} :
    /\ calls < MaxCalls /\ (w = "next" => calls > 0)
    /\ Call(w) /\ calls' = calls + 1 /\ says' = <<>>
    /\ quiet' = (quiet /\ w = "next")
    /\ H([c |-> w]) /\ UNCHANGED asked

\* the best value after an iteration: any in the genetic optimizer, none that is worse in the swarm
Key(v) == IF Finite(v) THEN v ELSE PINF
Courses == CASE known -> {sv}
             [] alg = "ga" -> {<<v>> : v \in Vals}
             [] sv = <<>> -> {<<v>> : v \in Vals}
             [] OTHER -> {sv} \cup {<<v>> : v \in {x \in Vals : Key(x) < Key(sv[1])}}
DoAsk == \E w \in Courses :
    /\ sph = "asking"
    /\ LET a == Answer(it, w)
           forced == Depth > 0 /\ asked + 1 >= Depth
       IN /\ Question(it, w, Members(it, w), a, forced)
          /\ says' = IF Depth = 0 THEN <<>> ELSE Append(says, a)
          /\ quiet' = a
    /\ asked' = IF Depth = 0 THEN 0 ELSE asked + 1
    /\ IF known THEN UNCHANGED hist ELSE H([c |-> "v", x |-> w[1]])
    /\ UNCHANGED calls
DoReturn == /\ sph = "ending" /\ Result(it, sv) /\ UNCHANGED <<calls, asked, says, quiet, hist>>
DoSet == \E ns \in (IF calls = 1 THEN Trees ELSE {}) :
    /\ Replace(ns) /\ quiet' = FALSE
    /\ H([c |-> "set", nodes |-> ns]) /\ UNCHANGED <<calls, asked, says>>

MCNext == DoCall \/ DoAsk \/ DoReturn
MCNextSet == MCNext \/ DoSet
Spec == MCInit /\ [][MCNext]_mcvars
SpecSet == MCInit /\ [][MCNextSet]_mcvars
FairSpec == Spec /\ WF_mcvars(DoAsk) /\ WF_mcvars(DoReturn)

PrintScript == ~Emit \/ sph # "idle" \/ (asked < Depth /\ calls < MaxCalls) \/ PrintT("SCRIPT " \o ToJson(Append(hist, [c |-> "end", n |-> asked])))

\* ---- what a search with shipped criteria does ----

Ended == sph = "ending" /\ says # <<>> /\ says[Len(says)]
\* one criterion: the limit ends a call after exactly max(0, n - from) iterations
LimitExact == (Ended /\ Len(nodes) = 1 /\ nodes[1].k = "max")
                => it = (IF nodes[1].n > from THEN nodes[1].n ELSE from)
\* the threshold ends it as soon as the best solution does not exceed it
ThresholdExact == (sph \in {"asking", "ending"} /\ says # <<>> /\ Len(nodes) = 1 /\ nodes[1].k = "thr" /\ sph = "ending")
                => Last1(says) = (sv # <<>> /\ sv[1] # NAN /\ sv[1] <= nodes[1].d)
\* no iteration after a yes: all answers but the last of a call are no, and every no is one iteration
OnlyLast == \A i \in Idx(says) : says[i] => i = Len(says)
Counted == (says # <<>> /\ sph = "ending") => it = from + Len(says) - 1
\* a limit anywhere under "any" bounds every call
Within == (Len(nodes) = 3 /\ nodes[1].k = "any" /\ sph # "idle")
            => \A n \in {2, 3} : nodes[n].k = "max" => it <= (IF nodes[n].n > from THEN nodes[n].n ELSE from)
\* resuming a search that its criterion has ended does nothing
Nothing == [][(quiet /\ sph = "asking" /\ sph' # "idle") => (sph' = "ending" /\ it' = it /\ sv' = sv)]_mcvars
\* every call ends
Terminates == (sph = "asking") ~> (sph = "idle")
=============================================================================
