------------------------------- MODULE BitsMC -------------------------------
(***************************************************************************)
(* All pairs of bit strings up to a length: the arithmetic of Bits against *)
(* its meaning bit by bit, and mutation as a sequence of flips.            *)
(***************************************************************************)
EXTENDS Bits, Json
CONSTANTS MaxLen, MaxFlips, Emit
VARIABLES a, b,    \* bit strings of equal length, the lowest bit first
          flips,   \* number of flips made so far
          now      \* the string being mutated, from a
mcvars == <<a, b, flips, now>>
MCInit == /\ \E n \in 0..MaxLen : a \in [1..n -> {0, 1}] /\ b \in [1..n -> {0, 1}]
          /\ flips = 0 /\ now = a
Flip == /\ flips < MaxFlips /\ flips' = flips + 1
        /\ \E i \in Idx(now) : now' = [now EXCEPT ![i] = 1 - now[i]]
        /\ UNCHANGED <<a, b>>
Spec == MCInit /\ [][Flip]_mcvars
PrintScript == ~Emit \/ flips > 0 \/ PrintT("SCRIPT " \o ToJson([a |-> a, b |-> b]))

Value(s) == FoldLeftDomain(LAMBDA acc, i : acc + s[i] * P2[i - 1], 0, s)
Bitwise(x, y, p) == [i \in Idx(x) |-> IF i <= p THEN y[i] ELSE x[i]]
\* the arithmetic means the bits
Arithmetic == \A p \in 0..Len(a) : Mix(Value(a), Value(b), p) = Value(Bitwise(a, b, p))
\* in chunks too: the string as the upper bits of one chunk and the lower bits of the next
Split(s, k) == <<Value([i \in 1..16 |-> IF i + k - 16 \in Idx(s) THEN s[i + k - 16] ELSE 0]),
                 Value([i \in 1..16 |-> IF i + k \in Idx(s) THEN s[i + k] ELSE 0])>>
Chunked == \A k \in 0..Len(a), p \in 1..31 :
    Cross(Split(a, k), Split(b, k), p) = Split(Bitwise(a, b, p - 16 + k), k)
\* no bit is invented, and none is lost in the two children
Complete == \A p \in Positions(Len(a)) : \A i \in Idx(a) :
    {Bitwise(a, b, p)[i], Bitwise(b, a, p)[i]} = {a[i], b[i]}
\* parents that differ everywhere tell the position
Telling == (\A i \in Idx(a) : a[i] # b[i]) =>
    \A p, q \in Positions(Len(a)) : Bitwise(a, b, p) = Bitwise(a, b, q) => p = q
Diff == SelectSeq([i \in Idx(a) |-> i - 1], LAMBDA i : a[i + 1] # now[i + 1])
Parity == FlipsOf(Len(a), flips, Diff)
=============================================================================
