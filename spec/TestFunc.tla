------------------------------ MODULE TestFunc ------------------------------
(***************************************************************************)
(* The test functions on lattices where their values are known exactly.    *)
(* A point is a sequence of integers a:                                    *)
(*   paraboloid, rosenbrock, rastrigin: the coordinate is a/u (u given,    *)
(*   4 or 6 for rastrigin);                                                *)
(*   schwefel: the coordinate is sign(a) * (a*pi/6)^2.                     *)
(***************************************************************************)
EXTENDS Common

SumUp(n, f(_)) == FoldSet(LAMBDA i, s : f(i) + s, 0, 1..n)

\* times u^2
Paraboloid(x, u) == SumUp(Len(x), LAMBDA i : (x[i] - u * i) * (x[i] - u * i))
\* times u^4
Rosenbrock(x, u) == SumUp(Len(x) - 1, LAMBDA i :
    LET d == u * x[i + 1] - x[i] * x[i] IN 100 * d * d + u * u * (u - x[i]) * (u - x[i]))
\* times u^2; 10 * cos(2*pi*a/u)
Cos10(a, u) == IF u = 4 THEN <<10, 0, -10, 0>>[(a % 4) + 1] ELSE <<10, 5, -5, -10, -5, 5>>[(a % 6) + 1]
Rastrigin(x, u) == SumUp(Len(x), LAMBDA i : u * u * (10 - Cos10(x[i], u)) + x[i] * x[i])
\* times 10000; 2 * sin(|a|*pi/6) where that is an integer
SinTwice(a) == <<0, 1, 9, 2, 9, 1, 0, -1, 9, -2, 9, -1>>[(a % 12) + 1]
Sign(a) == IF a < 0 THEN -1 ELSE 1
\* (pi/6)^2 / 2 = 0.13707784
SchwefelTerm(a) == LET m == Abs1(a)
                       q == m * m * Abs1(SinTwice(m))
                   IN Sign(a) * Sign(SinTwice(m)) * (q * 1370 + (q * 7784) \div 10000)
Schwefel(x) == 4189829 * Len(x) - SumUp(Len(x), LAMBDA i : SchwefelTerm(x[i]))
SchwefelLattice(a) == SinTwice(Abs1(a)) # 9 /\ Abs1(a) <= 42

\* units of the value that is recorded, tolerance for n coordinates (single: single precision)
Near(a, b, tol) == a - b <= tol /\ b - a <= tol
Value(f, x, u, v, single) ==
    CASE f = "paraboloid" -> v = Paraboloid(x, u)                              \* v in 1/u^2, exact
      [] f = "rosenbrock" -> v = Rosenbrock(x, u)                              \* v in 1/u^4, exact
      [] f = "rastrigin" -> Near(v, 1000 * Rastrigin(x, u), 2 * Len(x) + 2)    \* v in 1/(1000*u^2)
      [] f = "schwefel" -> Near(v, Schwefel(x), IF single THEN 20 + 30 * Len(x) ELSE 3 * Len(x) + 1)

\* a long way off, at a*2^k for a large k, the highest power is all that is left; v in 2^(k*power)
Far(f, x, v) == Near(v, IF f = "rosenbrock" THEN SumUp(Len(x) - 1, LAMBDA i : 100 * x[i] * x[i] * x[i] * x[i])
                                           ELSE SumUp(Len(x), LAMBDA i : x[i] * x[i]), 2)

\* anywhere in the documented domain; v in 1/10000, rounded down
NotNegative(v, n, single) == v >= (IF single THEN -20 - 30 * n ELSE -1)
\* at the documented minimum: 1/10000 for each coordinate
Minimal(v, n, single) == Near(v, 0, IF single THEN 20 + 30 * n ELSE n + 1)

\* relations between values at any points; values in 1/10000
\* rastrigin: half a period apart the cosines cancel: x = a/64, one coordinate; 10000 * (20 + x^2 + (x + 1/2)^2)
HalfPeriod(a, v, w, single) ==
    LET s == a * a + (a + 32) * (a + 32) IN
    Near(v + w, 200000 + (s \div 512) * 1250 + ((s % 512) * 1250) \div 512, IF single THEN 20 ELSE 4)
\* schwefel: f(x) + f(-x) is 2*418.9829 for each coordinate
Mirrored(v, w, n, single) == Near(v + w, 8379658 * n, IF single THEN 20 + 60 * n ELSE 4)
\* rastrigin, schwefel: the value of a point is the sum of the values of its parts
Parts(v, vs, single) == Near(v, FoldSeq(LAMBDA p, q : p + q, 0, vs), IF single THEN 20 + 60 * Len(vs) ELSE 2 + Len(vs))
=============================================================================
