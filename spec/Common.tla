------------------------------- MODULE Common -------------------------------
(***************************************************************************)
(* Shared by all specifications.                                           *)
(*                                                                         *)
(* Goal values are integers: finite values are themselves (or their rank   *)
(* among the values of a trace), and NINF, PINF, NAN stand for -infinity,  *)
(* +infinity and NaN.  With this coding the order of the genetic optimizer *)
(* (NaN is worst, infinities are numbers) is the order of the integers.    *)
(*                                                                         *)
(* Guards of actions are written Must(tags, cond): tags are the properties *)
(* (C01, C02, ...) of which the guard is a part.  With Enforce = AllTags   *)
(* every guard is in force; a check of one property puts only the guards   *)
(* of that property in force and adopts whatever it observes elsewhere.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

CONSTANT Enforce

\* (compared with TRUE so that TLC takes it as one condition, not as alternatives)
Must(tags, cond) == IF tags \cap Enforce = {} THEN TRUE ELSE cond = TRUE

NINF == -1000000000
PINF == 1000000000
NAN == 1000000001
Finite(v) == v > NINF /\ v < PINF

Idx(s) == 1..Len(s)
Last1(s) == s[Len(s)]
Range1(s) == {s[i] : i \in Idx(s)}
\* concatenation of a sequence of sequences
Flat(ss) == FlattenSeq(ss)
\* the elements of s whose positions are not in D, in order
Without(s, D) ==
    IF D = {} THEN s
    ELSE LET keep == SelectSeq([i \in Idx(s) |-> i], LAMBDA i : i \notin D)
         IN [i \in Idx(keep) |-> s[keep[i]]]
\* h of a million draws, of which ppm are expected: seven standard deviations are allowed
Rare(ppm, h) == (h - ppm) * (h - ppm) <= 49 * (ppm + 9)
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Abs1(x) == IF x < 0 THEN -x ELSE x
=============================================================================
