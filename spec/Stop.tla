-------------------------------- MODULE Stop --------------------------------
(***************************************************************************)
(* Trees of stop criteria.  A tree is a sequence of nodes in preorder, the *)
(* first is the root: [k, n, d, kids], k one of "max" "thr" "gnc" "spy"    *)
(* (members) and "any" "all" (composites).  States are an iteration number *)
(* and an optional goal value (a sequence of none or one).                 *)
(***************************************************************************)
EXTENDS Common

VARIABLES nodes,   \* the tree
          mem      \* memory of each no-change criterion
stopvars == <<nodes, mem>>

Fresh == [old |-> <<>>, change |-> 0, last |-> 0]
Start(ns) == nodes = ns /\ mem = [i \in Idx(ns) |-> Fresh]

IsLeaf(n) == nodes[n].k \notin {"any", "all"}
Leaves == {n \in Idx(nodes) : IsLeaf(n)}

\* ---- the no-change criterion ----

Differs(o, v, d) == IF o = v \/ d = PINF THEN FALSE ELSE IF Finite(o) /\ Finite(v) THEN Abs1(v - o) > d ELSE TRUE
Moves(m, d, v) == v # NAN /\ (m.old = <<>> \/ Differs(m.old[1], v, d))
\* at iteration 0, or when the number goes back, a new run begins
Looked(m, d, it, v) ==
    LET m0 == IF it = 0 \/ it < m.last THEN Fresh ELSE m
        m1 == IF v # <<>> /\ Moves(m0, d, v[1]) THEN [m0 EXCEPT !.old = v, !.change = it] ELSE m0
    IN [m1 EXCEPT !.last = it]
Stagnant(m, n, it, v) == v # <<>> /\ it - m.change > n

\* ---- answers ----

\* of a member, m: its memory after having looked at the state; a spy answers what it likes
LeafSays(n, m, it, v, a) ==
    LET x == nodes[n] IN
    CASE x.k = "max" -> Must({"C21", "C30"}, a = (it >= x.n))
      [] x.k = "thr" -> Must({"C21", "C30"}, a = (v # <<>> /\ v[1] # NAN /\ x.d # NAN /\ v[1] <= x.d))
      [] x.k = "gnc" -> Must({"C22", "C30"}, a = Stagnant(m, x.n, it, v))
      [] OTHER -> TRUE

RECURSIVE Says(_, _)
Says(n, ans) == LET x == nodes[n] IN
    CASE x.k = "any" -> \E i \in Idx(x.kids) : Says(x.kids[i], ans)
      [] x.k = "all" -> \A i \in Idx(x.kids) : Says(x.kids[i], ans)
      [] OTHER -> ans[n]

\* calls: what the members were asked and answered, in order
Ask(it, v, calls, a) ==
    /\ mem' = [n \in Idx(nodes) |-> IF nodes[n].k = "gnc" THEN Looked(mem[n], nodes[n].d, it, v) ELSE mem[n]]
    /\ UNCHANGED nodes
    \* every member sees the state, once
    /\ Must({"C21", "C30"}, Len(calls) = Cardinality(Leaves) /\ {calls[i].k : i \in Idx(calls)} = Leaves)
    /\ Must({"C21", "C30"}, \A i \in Idx(calls) : calls[i].it = it /\ calls[i].v = v)
    /\ \A i \in Idx(calls) : LeafSays(calls[i].k, mem'[calls[i].k], it, v, calls[i].a)
    /\ Must({"C21", "C30"}, LET ans == [n \in Leaves |-> \E i \in Idx(calls) : calls[i].k = n /\ calls[i].a] IN a = Says(1, ans))

\* ---- n questions in a row, at iterations i, i + 1, ..., with the same value ----

Never == 1000000000
\* the first of them to which a member says yes (as it does to all later ones); m: its memory after the first
FirstYes(n, m, i, v) ==
    LET x == nodes[n] IN
    CASE x.k = "max" -> IF x.n <= i THEN 1 ELSE x.n - i + 1
      [] x.k = "thr" -> IF v # <<>> /\ v[1] # NAN /\ x.d # NAN /\ v[1] <= x.d THEN 1 ELSE Never
      [] OTHER -> IF v = <<>> THEN Never ELSE IF x.n + m.change + 1 < i THEN 1 ELSE x.n + m.change - i + 2
RECURSIVE SaysFirst(_, _)
SaysFirst(n, fs) == LET x == nodes[n] IN
    CASE x.k = "any" -> MinOf({SaysFirst(x.kids[k], fs) : k \in Idx(x.kids)})
      [] x.k = "all" -> MaxOf({SaysFirst(x.kids[k], fs) : k \in Idx(x.kids)})
      [] OTHER -> fs[n]
\* answers, run-length coded, when the first yes is number f of n
Answers(f, n) == (IF f > 1 THEN <<[a |-> FALSE, n |-> IF f <= n THEN f - 1 ELSE n]>> ELSE <<>>)
                 \o (IF f <= n THEN <<[a |-> TRUE, n |-> n - f + 1]>> ELSE <<>>)
\* and back
FirstOf(segs) == IF segs = <<>> THEN Never ELSE IF segs[1].a THEN 1 ELSE IF Len(segs) = 1 THEN Never ELSE segs[1].n + 1
LookedLong(m, d, i, n, v) == [Looked(m, d, i, v) EXCEPT !.last = i + n - 1]

\* calls: per member what it was shown and what it answered, run-length coded
AskMany(i, n, v, calls, segs) ==
    /\ mem' = [k \in Idx(nodes) |-> IF nodes[k].k = "gnc" THEN LookedLong(mem[k], nodes[k].d, i, n, v) ELSE mem[k]]
    /\ UNCHANGED nodes
    /\ Must({"C21", "C30"}, Len(calls) = Cardinality(Leaves) /\ {calls[k].k : k \in Idx(calls)} = Leaves)
    /\ Must({"C21", "C30"}, \A k \in Idx(calls) : calls[k].shown = <<[it |-> i, n |-> n, v |-> v]>>)
    /\ \A k \in Idx(calls) : LET x == calls[k].k IN
         Must(IF nodes[x].k = "gnc" THEN {"C22", "C30"} ELSE {"C21", "C30"},
              calls[k].segs = Answers(FirstYes(x, mem'[x], i, v), n))
    /\ Must({"C21", "C30"},
            (\A k \in Idx(calls) : calls[k].segs = Answers(FirstOf(calls[k].segs), n))
              => LET fs == [x \in Leaves |-> FirstOf((CHOOSE c \in Range1(calls) : c.k = x).segs)] IN
                 segs = Answers(SaysFirst(1, fs), n))
=============================================================================
