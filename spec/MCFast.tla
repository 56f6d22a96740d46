------------------------------- MODULE MCFast -------------------------------
(* C28, design level: the segment test.  ring[k] tells whether pixel k of    *)
(* the circle passes (brighter than the centre by more than the threshold;   *)
(* or darker, the same).  The quick rejection looks at the four compass      *)
(* pixels only, the scan counts runs and joins the last with the first.      *)
EXTENDS Integers, FiniteSets
CONSTANT Lens     \* arc lengths: 9 and 12
VARIABLES ring, len, k, run, first, verdict
vars == <<ring, len, k, run, first, verdict>>
K == 0..15
HasArc == \E s \in K : \A i \in 0..len - 1 : ring[(s + i) % 16]
Quick == IF len = 9 THEN (ring[12] \/ ring[4]) /\ (ring[8] \/ ring[0])
         ELSE (ring[0] \/ ring[8]) /\ (ring[4] \/ ring[12])
Init == /\ ring \in [K -> BOOLEAN] /\ len \in Lens
        /\ k = 0 /\ run = 0 /\ first = -1
        /\ verdict = (IF Quick THEN "open" ELSE "no")
Step == /\ verdict = "open" /\ k < 16
        /\ k' = k + 1
        /\ run' = IF ring[k] THEN run + 1 ELSE 0
        /\ first' = IF ~ring[k] /\ first = -1 THEN run ELSE first
        /\ verdict' = IF ring[k] /\ run + 1 = len THEN "yes" ELSE "open"
        /\ UNCHANGED <<ring, len>>
\* first is set by now: a full circle has been accepted long before
Wrap == /\ verdict = "open" /\ k = 16
        /\ verdict' = IF run + first >= len THEN "yes" ELSE "no"
        /\ UNCHANGED <<ring, len, k, run, first>>
Spec == Init /\ [][Step \/ Wrap]_vars
Right == (verdict = "yes" => HasArc) /\ (verdict = "no" => ~HasArc)
FirstSet == k = 16 /\ verdict = "open" => first >= 0
RunIsRun == verdict = "open" => /\ \A i \in 1..run : ring[k - i]
                                /\ run < k => ~ring[k - run - 1]
=============================================================================
