-------------------------------- MODULE Box --------------------------------
(***************************************************************************)
(* Velocity limits, position corrections and random initialisation.        *)
(* Coordinates are ranks (see Common): only their order matters here, but  *)
(* for the modulus limit, whose velocities are small integers.             *)
(***************************************************************************)
EXTENDS Common

\* ---- velocity limits ----

\* n: the negative bounds
LimitDim(m, n, v) == IF n <= v /\ v <= m THEN v ELSE IF v > m THEN m ELSE n
LimitDims(m, n, v) == [i \in Idx(v) |-> LimitDim(m[i], n[i], v[i])]

Squares(v) == FoldSeq(LAMBDA x, acc : x * x + acc, 0, v)
Sign(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Less1(x) == IF x > 0 THEN x - 1 ELSE 0

\* v: integers; their modulus is h if h > 0.  xv, xo: the numbers themselves, before and after.
\* o: the components as integers if they are some, br: their magnitudes between two multiples of 1/64.
LimitAbs(h, m, v, xv, xo, o, br, sg) ==
    LET q == Squares(v) IN
    /\ Len(xo) = Len(v)
    /\ q < m * m => xo = xv
    \* at the bound: unchanged up to rounding
    /\ q = m * m => o = v
    /\ q > m * m =>
        /\ \A i \in Idx(v) : sg[i] = IF m = 0 THEN 0 ELSE Sign(v[i])
        /\ IF h > 0
           THEN h * h = q /\ \A i \in Idx(v) : o[i] * h = v[i] * m
           ELSE \A i \in Idx(v) : LET want == v[i] * v[i] * m * m * 4096 IN
                /\ Less1(br[i][1]) * Less1(br[i][1]) * q <= want
                /\ (br[i][2] + 1) * (br[i][2] + 1) * q >= want

\* ---- position corrections ----

Within(lo, hi, x) == lo <= x /\ x <= hi
Inside(lo, hi, x) == Len(x) = Len(lo) /\ \A i \in Idx(x) : Within(lo[i], hi[i], x[i])

\* the places to which the boundary correction may move a coordinate
Corrected(lo, hi, x, y) ==
    IF ~Finite(x) THEN Within(lo, hi, y)
    ELSE y = IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Boundary(lo, hi, x, o) == Len(o) = Len(x) /\ \A i \in Idx(x) : Corrected(lo[i], hi[i], x[i], o[i])

\* p: percentage.  For p > 0 every coordinate of x lies outside its interval.
Teleport(p, lo, hi, x, o) ==
    /\ p = 0 => o = x
    /\ p = 100 => Inside(lo, hi, o)
    /\ o = x \/ Inside(lo, hi, o)
\* six standard deviations
TeleportFrequency(p, n, hit, part) ==
    /\ part = 0
    /\ p = 100 => hit = n
    /\ p = 0 => hit = 0
    /\ Abs1(100 * hit - p * n) <= 100 * 190
\* z <= p <= u
ProbabilityRefused(z, u, p) == p = NAN \/ p < z \/ p > u

\* ---- random initialisation ----

Made(n, lo, hi, o) == Len(o) = n /\ \A k \in Idx(o) : Inside(lo, hi, o[k])
Zeros(n, dim, o) == o = [k \in 1..n |-> [i \in 1..dim |-> 0]]
BadInterval(lo, hi) == lo = NAN \/ hi = NAN \/ lo >= hi
Refused(k, n, lo, hi) == \/ k = "chromo" /\ (n = 0 \/ lo = <<>>)
                         \/ \E i \in Idx(lo) : BadInterval(lo[i], hi[i])

\* Many vectors: every component reaches both ends of its interval, independently of the other
\* components of its own and of the next vector.
Part(q1, q3, x) == IF x < q1 THEN 1 ELSE IF x > q3 THEN 2 ELSE 0
Filled(lo, hi, q1, q3, o) ==
    /\ \A k \in Idx(o) : Inside(lo, hi, o[k])
    /\ LET c == [k \in Idx(o) |-> [i \in Idx(lo) |-> Part(q1[i], q3[i], o[k][i])]] IN
       /\ \A i, j \in Idx(lo) : i < j =>
            LET seen == {<<c[k][i], c[k][j]>> : k \in Idx(o)} IN \A x, y \in {1, 2} : <<x, y>> \in seen
       /\ \A i, j \in Idx(lo) :
            LET seen == {<<c[k][i], c[k + 1][j]>> : k \in 1..Len(o) - 1} IN \A x, y \in {1, 2} : <<x, y>> \in seen
=============================================================================
