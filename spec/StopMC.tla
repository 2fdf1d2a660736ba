------------------------------- MODULE StopMC -------------------------------
(***************************************************************************)
(* All short histories of runs, pauses and new runs under small trees of   *)
(* criteria.                                                               *)
(***************************************************************************)
EXTENDS Stop, Json
CONSTANTS Depth, Trees, Vals, Emit
VARIABLES it, v,   \* the state shown last
          asked,   \* number of questions
          ans,     \* the last answer
          hist,    \* the states shown: the specification decides from them, without memory
          spies    \* answers of the spies
mcvars == <<stopvars, it, v, asked, ans, hist, spies>>

Node(k, n, d, kids) == [k |-> k, n |-> n, d |-> d, kids |-> kids]
Gnc(n, d) == Node("gnc", n, d, <<>>)
Spy == Node("spy", 0, 0, <<>>)
Singles == {<<Gnc(n, d)>> : n \in 0..2, d \in {0, 1}}
Basic == {<<Node("max", n, 0, <<>>)>> : n \in 0..2} \cup {<<Node("thr", 0, d, <<>>)>> : d \in {0, 1}}
\* a composite of a stateful member and another, in both orders
Pairs == UNION {{<<Node(k, 0, 0, <<2, 3>>), x, y>>, <<Node(k, 0, 0, <<2, 3>>), y, x>>} :
                  k \in {"any", "all"}, x \in {Gnc(0, 0), Gnc(1, 0)}, y \in {Spy, Node("max", 1, 0, <<>>), Node("thr", 0, 0, <<>>)}}
Nested == {<<Node("any", 0, 0, <<2, 3>>), Spy, Node("all", 0, 0, <<4, 5>>), Gnc(0, 0), Spy>>,
           <<Node("all", 0, 0, <<2, 5>>), Node("any", 0, 0, <<3, 4>>), Spy, Node("max", 1, 0, <<>>), Gnc(0, 0)>>,
           <<Node("any", 0, 0, <<2>>), Node("all", 0, 0, <<3>>), Gnc(0, 1)>>}
TreesSingle == Singles
TreesBasic == Basic
TreesComposite == Pairs \cup Nested
TreesAll == Singles \cup Basic \cup Pairs \cup Nested

ValsSmall == {0, 1, 2}
ValsOdd == {0, 2, PINF, NAN}
Opt == {<<>>} \cup {<<x>> : x \in Vals}

MCInit == /\ \E ns \in Trees : Start(ns)
          /\ it = 0 /\ v = <<>> /\ asked = 0 /\ ans = FALSE /\ hist = <<>> /\ spies = <<>>

\* the answers of the members, the spies' chosen freely
Members(i, w, sp) ==
    LET order == SelectSeq([n \in Idx(nodes) |-> n], LAMBDA n : IsLeaf(n))
        says(n) == LET x == nodes[n] IN
            CASE x.k = "max" -> i >= x.n
              [] x.k = "thr" -> w # <<>> /\ w[1] # NAN /\ w[1] <= x.d
              [] x.k = "gnc" -> Stagnant(Looked(mem[n], x.d, i, w), x.n, i, w)
              [] OTHER -> sp[n]
    IN [k \in Idx(order) |-> [k |-> order[k], a |-> says(order[k]), it |-> i, v |-> w]]
SpyNodes == {n \in Idx(nodes) : nodes[n].k = "spy"}

Show(i, w) ==
    /\ asked < Depth /\ asked' = asked + 1
    /\ it' = i /\ v' = w /\ hist' = Append(hist, [it |-> i, v |-> w])
    /\ \E sp \in [SpyNodes -> BOOLEAN] :
         /\ LET calls == Members(i, w, sp)
                a == Says(1, [n \in Leaves |-> \E k \in Idx(calls) : calls[k].k = n /\ calls[k].a]) IN
            Ask(i, w, calls, a) /\ ans' = a
         /\ spies' = spies \o [k \in 1..Cardinality(SpyNodes) |->
                                 sp[CHOOSE n \in SpyNodes : Cardinality({m \in SpyNodes : m < n}) = k - 1]]

MCNext == \/ \E w \in Opt : Show(IF asked = 0 THEN 0 ELSE it + 1, w)     \* the next iteration
          \/ asked > 0 /\ Show(it, v)                                     \* resumed
          \/ asked > 0 /\ \E w \in Opt : Show(0, w)                       \* a new run
Spec == MCInit /\ [][MCNext]_mcvars

PrintScript == ~Emit \/ asked < Depth \/ PrintT("SCRIPT " \o ToJson([nodes |-> nodes, hist |-> hist, spies |-> spies]))

\* ---- the meaning, without memory ----

\* the current run: the questions since the last one about iteration 0 that began a run
RunStart == MaxOf({i \in Idx(hist) : hist[i].it = 0})
Run == SubSeq(hist, RunStart, Len(hist))
\* the iterations of the moves in a run: the last recorded value is that of the last move
RECURSIVE Recorded(_, _)
Recorded(r, d) ==    \* <<value, iteration>> of the last move
    IF r = <<>> THEN <<>>
    ELSE LET p == Recorded(Front(r), d)
             x == r[Len(r)]
         IN IF x.v = <<>> \/ x.v[1] = NAN THEN p
            ELSE IF p = <<>> \/ Differs(p[1], x.v[1], d) THEN <<x.v[1], x.it>> ELSE p
Since(r, d) == LET p == Recorded(r, d) IN Last1(r).it - (IF p = <<>> THEN 0 ELSE p[2])
Meaning == (asked > 0 /\ Len(nodes) = 1 /\ nodes[1].k = "gnc")
            => ans = (v # <<>> /\ Since(Run, nodes[1].d) > nodes[1].n)
\* the memory of a criterion is that of a fresh one that has seen only this run
RECURSIVE After(_, _, _)
After(m, d, r) == IF r = <<>> THEN m ELSE After(Looked(m, d, Head(r).it, Head(r).v), d, Tail(r))
AsFresh == asked > 0 => \A n \in Idx(nodes) : nodes[n].k = "gnc" => mem[n] = After(Fresh, nodes[n].d, Run)
\* many questions in a row are as many single ones
RECURSIVE Singly(_, _, _, _, _)
Singly(m, d, i, n, w) == IF n = 0 THEN m ELSE Singly(Looked(m, d, i, w), d, i + 1, n - 1, w)
SaysAt(x, m, i, n, w) ==   \* the answer to question number n
    LET j == i + n - 1 IN
    CASE x.k = "max" -> j >= x.n
      [] x.k = "thr" -> w # <<>> /\ w[1] # NAN /\ w[1] <= x.d
      [] OTHER -> Stagnant(Singly(m, x.d, i, n, w), x.n, j, w)
Many == \A w \in Opt, i \in {0, it, it + 1}, n \in 1..4 : \A k \in Leaves \ SpyNodes : LET x == nodes[k] IN
          /\ LookedLong(mem[k], x.d, i, n, w) = Singly(mem[k], x.d, i, n, w)
          /\ SaysAt(x, mem[k], i, n, w) <=> FirstYes(k, Looked(mem[k], x.d, i, w), i, w) <= n
\* resuming repeats the answer of a criterion without spies
Repeats == [][(asked > 0 /\ it' = it /\ v' = v /\ SpyNodes = {} /\ it # 0) => ans' = ans]_mcvars
=============================================================================
