----------------------------- MODULE TextLogMC -----------------------------
(***************************************************************************)
(* All short histories of logger calls with an ideal printer; all small    *)
(* numbers and precisions.                                                 *)
(***************************************************************************)
EXTENDS TextLog, Json
CONSTANTS Depth, MaxA, Emit
VARIABLES hist, clock, entered, printed, p
mcvars == <<textvars, hist, clock, entered, printed, p>>

Dy(a) == [k |-> "dy", a |-> a]
\* the ideal printer: the nearest number, either of two
RECURSIVE Digits(_, _)
Digits(n, k) == IF k = 0 THEN <<>> ELSE Append(Digits(n \div 10, k - 1), n % 10)
Print8(a, q) ==   \* tokens
    LET m == Abs1(a)
        tok(d) == [k |-> "num", neg |-> a < 0, int |-> d \div Pow10(q), frac |-> Digits(d % Pow10(q), q), v |-> 0]
        lo == (m * Pow10(q)) \div 8
        d8 == m * Pow10(q) - 8 * lo
    IN IF q >= 3 THEN {[k |-> "num", neg |-> a < 0, int |-> m \div 8, frac |-> Digits(125 * (m % 8), 3) \o [i \in 1..(q - 3) |-> 0], v |-> 0]}
       ELSE IF d8 < 4 THEN {tok(lo)} ELSE IF d8 > 4 THEN {tok(lo + 1)} ELSE {tok(lo), tok(lo + 1)}
TokInt(n) == [k |-> "num", neg |-> FALSE, int |-> n, frac |-> <<>>, v |-> 0]
Word(w) == [k |-> "word", w |-> w]
Tok(x) == CHOOSE t \in Print8(x.a, p) : TRUE

Sols == {<<>>, <<[x |-> <<>>, v |-> Dy(3)]>>, <<[x |-> <<Dy(-9), Dy(4)>>, v |-> Dy(-1)]>>}
LineV(n, s) == <<TokInt(n)>> \o [i \in Idx(s.x) |-> Tok(s.x[i])] \o <<Tok(s.v)>>
OutV(w, n, sol) == IF w = "next" /\ sol # <<>> THEN <<LineV(n, sol[1])>> ELSE <<>>
OutR(w, n, sol) ==
    LET tail == <<<<Word("Iterations"), Word("count:"), TokInt(n)>>>> IN
    IF w # "finish" THEN <<>>
    ELSE IF sol = <<>> THEN <<<<Word("Solution"), Word("not"), Word("found")>>>> \o tail
    ELSE <<<<Word("Solution:")>>>> \o [i \in Idx(sol[1].x) |-> <<Tok(sol[1].x[i])>>] \o <<<<>>, <<>>>>
         \o <<<<Word("Goal:"), Tok(sol[1].v)>>>> \o tail
OutT(w, ms) == IF w = "finish" THEN <<<<Word("Time"), Word("elapsed:"), TokInt(ms), Word("ms")>>>> ELSE <<>>

MCInit == Start0 /\ hist = <<>> /\ clock = 0 /\ entered = 0 /\ printed = 0 /\ p \in {0, 1, 2, 3, 5}
Do(w, n, sol, dt) ==
    /\ Len(hist) < Depth
    /\ clock' = clock + dt
    /\ entered' = IF w = "resume" THEN clock' ELSE entered
    /\ LET ms == clock' - entered IN
         /\ Call(w, n, sol, p, [verbose |-> OutV(w, n, sol), result |-> OutR(w, n, sol), time |-> OutT(w, ms)], ms, ms)
         /\ printed' = IF w = "finish" THEN ms ELSE printed
    /\ hist' = Append(hist, [w |-> w, it |-> n, s |-> sol, dt |-> dt])
    /\ UNCHANGED p
LastW == IF hist = <<>> THEN "none" ELSE Last1(hist).w
MCNext ==
    \/ LastW \in {"none", "finish"} /\ \E s \in Sols : Do("start", 0, s, 0)
    \/ LastW \in {"start", "finish"} /\ \E s \in Sols, d \in {0, 2} : Do("resume", it, s, d)
    \/ LastW \in {"resume", "next"} /\ \E s \in Sols, d \in {0, 3} : Do("next", it + 1, s, d)
    \/ LastW \in {"resume", "next"} /\ \E s \in Sols, d \in {0, 1} : Do("finish", it, s, d)
Spec == MCInit /\ [][MCNext]_mcvars

PrintScript == ~Emit \/ LastW # "finish" \/ PrintT("SCRIPT " \o ToJson([p |-> p, hist |-> hist]))

\* the ideal printer is accepted, and every other number is not
Faithful == \A a \in (-MaxA)..MaxA : \A q \in 0..4 :
    /\ \A tk \in Print8(a, q) : Shows8(tk, a, q)
    /\ \A b \in (-MaxA)..MaxA : (q >= 3 /\ b # a) => \A tk \in Print8(b, q) : ~Shows8(tk, a, q)
    /\ \A tk \in Print8(a, q) : ~Shows8(tk, a, q + 1)
\* one line for each iteration with a solution
Lines == vlines = Cardinality({i \in Idx(hist) : hist[i].w = "next" /\ hist[i].s # <<>>})
Ends == finishes = Cardinality({i \in Idx(hist) : hist[i].w = "finish"})
RECURSIVE SumDt(_)
SumDt(h) == IF h = <<>> THEN 0 ELSE Last1(h).dt + SumDt(Front(h))
\* the time printed is the time since the last entry of the loop
Elapsed == LastW = "finish" => LET k == MaxOf({i \in Idx(hist) : hist[i].w = "resume"}) IN
    printed = SumDt(SubSeq(hist, k + 1, Len(hist)))
=============================================================================
