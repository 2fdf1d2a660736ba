------------------------------ MODULE TextLog ------------------------------
(***************************************************************************)
(* What the text loggers print.  Output is a sequence of lines, a line is  *)
(* a sequence of tokens: words [k |-> "word", w] and numbers [k |-> "num", *)
(* neg, int, frac, v]: sign, integer part, digits of the fraction, and the *)
(* value that the text denotes.                                            *)
(*                                                                         *)
(* Printed values are [k |-> "dy", a]: a/8, [k |-> "int", a]: a, or        *)
(* [k |-> "v", v]: special values and values that are printed exactly.     *)
(***************************************************************************)
EXTENDS Common

VARIABLES open,    \* the loop was entered
          it,      \* completed iterations
          vlines,  \* lines printed by the verbose logger
          finishes \* number of finishes
textvars == <<open, it, vlines, finishes>>

Start0 == open = FALSE /\ it = 0 /\ vlines = 0 /\ finishes = 0

----------------------------------------------------------------------------
(* Numbers *)

Pow10(p) == IF p = 0 THEN 1 ELSE IF p = 1 THEN 10 ELSE 100
DigitsValue(ds) == FoldLeft(LAMBDA x, d : 10 * x + d, 0, ds)
Zeros(ds) == \A i \in Idx(ds) : ds[i] = 0

\* a token that shows a/8 with p decimals, rounded to a nearest number
Shows8(t, a, p) ==
    /\ Len(t.frac) = p
    /\ LET m == Abs1(a) IN
         IF p < 3 THEN LET d == t.int * Pow10(p) + DigitsValue(t.frac) IN
                         Abs1(8 * d - m * Pow10(p)) <= 4 /\ (d # 0 => t.neg = (a < 0))
         ELSE /\ t.int = m \div 8 /\ DigitsValue(SubSeq(t.frac, 1, 3)) = 125 * (m % 8)
              /\ Zeros(SubSeq(t.frac, 4, p))
              /\ a # 0 => t.neg = (a < 0)
ShowsInt(t, a) == t.frac = <<>> /\ t.int = Abs1(a) /\ (a # 0 => t.neg = (a < 0))
Shows(t, x, p) ==
    /\ t.k = "num"
    /\ CASE x.k = "dy" -> t.int <= 1000000 /\ Shows8(t, x.a, p)
         [] x.k = "int" -> ShowsInt(t, x.a)
         [] OTHER -> t.v = x.v /\ Len(t.frac) = (IF Finite(x.v) THEN p ELSE 0)
Words(ts) == [i \in Idx(ts) |-> IF ts[i].k = "word" THEN ts[i].w ELSE ""]

----------------------------------------------------------------------------
(* Lines *)

\* iteration, coordinates, goal value
VerboseLine(l, n, s, p) ==
    /\ Len(l) = Len(s.x) + 2
    /\ l[1].k = "num" /\ ShowsInt(l[1], n)
    /\ \A i \in Idx(s.x) : Shows(l[i + 1], s.x[i], p)
    /\ Shows(l[Len(l)], s.v, p)
VerboseSays(ls, n, sol, p) ==
    IF sol = <<>> THEN ls = <<>> ELSE Len(ls) = 1 /\ VerboseLine(ls[1], n, sol[1], p)

\* empty lines do not count
Full(ls) == SelectSeq(ls, LAMBDA l : l # <<>>)
ItLine(l, n) == Len(l) = 3 /\ Words(l) = <<"Iterations", "count:", "">> /\ ShowsInt(l[3], n)
ResultSays(ls0, n, sol, p) ==
    LET ls == Full(ls0) IN
    IF sol = <<>> THEN Len(ls) = 2 /\ Words(ls[1]) = <<"Solution", "not", "found">> /\ ItLine(ls[2], n)
    ELSE LET s == sol[1]
             d == Len(s.x) IN
         /\ Len(ls) = d + 3
         /\ Words(ls[1]) = <<"Solution:">>
         /\ \A i \in 1..d : Len(ls[i + 1]) = 1 /\ Shows(ls[i + 1][1], s.x[i], p)
         /\ Len(ls[d + 2]) = 2 /\ Words(ls[d + 2]) = <<"Goal:", "">> /\ Shows(ls[d + 2][2], s.v, p)
         /\ ItLine(ls[d + 3], n)
\* the time between entering the loop and the end was from lo to hi milliseconds
TimeSays(ls, lo, hi) ==
    /\ Len(ls) = 1 /\ Len(ls[1]) = 4 /\ Words(ls[1]) = <<"Time", "elapsed:", "", "ms">>
    /\ LET t == ls[1][3] IN t.frac = <<>> /\ ~t.neg /\ t.int >= lo /\ t.int <= hi

----------------------------------------------------------------------------
(* Calls of the loggers: w the call, n the iteration, sol the solution,     *)
(* out the output of the verbose, result and time logger                    *)

Call(w, n, sol, p, out, lo, hi) ==
    /\ Must({"C27"}, IF w = "next" THEN VerboseSays(out.verbose, n, sol, p) ELSE out.verbose = <<>>)
    /\ Must({"C27"}, IF w = "finish" THEN ResultSays(out.result, n, sol, p) ELSE out.result = <<>>)
    /\ Must({"C27"}, IF w = "finish" THEN TimeSays(out.time, lo, hi) ELSE out.time = <<>>)
    /\ open' = (w \in {"resume", "next"})
    /\ it' = n
    /\ vlines' = vlines + Len(out.verbose)
    /\ finishes' = finishes + (IF w = "finish" THEN 1 ELSE 0)

\* a whole search or continuation: what the stop criterion saw before it and after each iteration
Session(new, bs, p, out, lo, hi) ==
    LET lines == SelectSeq(Tail(bs), LAMBDA b : b.s # <<>>) IN
    /\ Must({"C27"}, Len(out.verbose) = Len(lines) /\ \A i \in Idx(lines) : VerboseLine(out.verbose[i], lines[i].it, lines[i].s[1], p))
    /\ Must({"C27"}, ResultSays(out.result, Last1(bs).it, Last1(bs).s, p))
    /\ Must({"C27"}, TimeSays(out.time, lo, hi))
    /\ open' = FALSE
    /\ it' = Last1(bs).it
    /\ vlines' = vlines + Len(out.verbose)
    /\ finishes' = finishes + 1
=============================================================================
