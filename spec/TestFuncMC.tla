----------------------------- MODULE TestFuncMC -----------------------------
(***************************************************************************)
(* All points of small lattices, and the minima of the formulas there.     *)
(***************************************************************************)
EXTENDS TestFunc, Json
CONSTANTS MaxDim, Width, Emit
VARIABLE x
MCInit == x = <<>>
MCNext == Len(x) < MaxDim /\ \E a \in (-Width)..Width : x' = Append(x, a)
Spec == MCInit /\ [][MCNext]_x
PrintScript == ~Emit \/ PrintT("SCRIPT " \o ToJson([x |-> x]))

All(v) == \A i \in Idx(x) : x[i] = v
Minima == \A u \in {1, 2, 4} :
    /\ Paraboloid(x, u) >= 0 /\ (Paraboloid(x, u) = 0 <=> \A i \in Idx(x) : x[i] = u * i)
    /\ Rosenbrock(x, u) >= 0
    \* (of one coordinate it is 0 everywhere)
    /\ (Len(x) > 1 => (Rosenbrock(x, u) = 0 <=> All(u)))
MinimaCos == \A u \in {4, 6} : Rastrigin(x, u) >= 0 /\ (Rastrigin(x, u) = 0 <=> All(0))
\* nowhere on the lattice does Schwefel's function come near 0
MinimaSin == (x # <<>> /\ \A i \in Idx(x) : SchwefelLattice(7 * x[i])) =>
    LET y == [i \in Idx(x) |-> 7 * x[i]] IN Schwefel(y) > 0
\* the order of the coordinates matters only where the formula says so
Symmetric == Rastrigin(Reverse(x), 4) = Rastrigin(x, 4) /\ Schwefel([i \in Idx(x) |-> 3 * x[i]]) = Schwefel(Reverse([i \in Idx(x) |-> 3 * x[i]]))
\* the sum over the parts is the whole
Separate == Len(x) > 1 => Rastrigin(x, 6) = Rastrigin(SubSeq(x, 1, 1), 6) + Rastrigin(Tail(x), 6)
=============================================================================
