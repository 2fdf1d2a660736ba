------------------------------ MODULE PairingMC ------------------------------
(***************************************************************************)
(* A tournament, draw by draw, on all small populations.                   *)
(***************************************************************************)
EXTENDS Pairing, Json
CONSTANTS MaxLen, MaxRounds, Emit
VARIABLES nr,     \* rounds of this tournament
          drawn,  \* individuals drawn so far
          champ   \* the best of them (the first of equals), 0 before the first draw
mcvars == <<vals, nr, drawn, champ>>
Values == {1, 2, NINF, PINF, NAN}
MCInit == /\ \E n \in 0..MaxLen : vals \in [1..n -> Values]
          /\ nr \in 0..MaxRounds /\ drawn = <<>> /\ champ = 0
Draw == /\ Len(drawn) <= nr
        /\ \E i \in Idx(vals) :
             /\ drawn' = Append(drawn, i)
             /\ champ' = IF champ = 0 \/ vals[i] < vals[champ] THEN i ELSE champ
        /\ UNCHANGED <<vals, nr>>
Spec == MCInit /\ [][Draw]_mcvars /\ WF_mcvars(Draw)
PrintScript == ~Emit \/ nr > 0 \/ drawn # <<>> \/ PrintT("SCRIPT " \o ToJson(vals))
Finished == Len(drawn) = nr + 1
IsBest == drawn # <<>> => champ \in Range1(drawn) /\ vals[champ] = Best(Range1(drawn))
Possible == Finished => champ \in Winners(nr)
\* NaN wins only if nothing else was drawn
NoNaN == (champ # 0 /\ vals[champ] = NAN) => \A i \in Range1(drawn) : vals[i] = NAN
Covered == (Finished /\ Range1(drawn) = Idx(vals)) => vals[champ] = Best(Idx(vals))
Ends == (vals # <<>>) => <>Finished
=============================================================================
