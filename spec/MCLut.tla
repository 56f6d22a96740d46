------------------------------- MODULE MCLut --------------------------------
(* C11, design level: matching one histogram to another.  Both cumulative    *)
(* histograms are walked together; every source level gets the target level  *)
(* whose cumulative fraction is nearest.                                     *)
EXTENDS Integers
CONSTANTS L, MaxCount
VARIABLES sh, th, s, y, prev, lut
vars == <<sh, th, s, y, prev, lut>>
Abs(v) == IF v < 0 THEN -v ELSE v
RECURSIVE C(_, _)
C(h, k) == IF k < 0 THEN 0 ELSE h[k] + C(h, k - 1)
Hists == {h \in [0..L - 1 -> 0..MaxCount] : C(h, L - 1) > 0}
\* fractions of the total, times both totals
SF(k) == C(sh, k) * C(th, L - 1)
TF(k) == C(th, k) * C(sh, L - 1)
Init == sh \in Hists /\ th \in Hists /\ s = 0 /\ y = 0 /\ prev = 0 /\ lut = [k \in 0..L - 1 |-> -1]
Advance == /\ s < L /\ SF(s) > TF(y) /\ y < L - 1
           /\ prev' = TF(y) /\ y' = y + 1 /\ UNCHANGED <<sh, th, s, lut>>
Assign == /\ s < L /\ ~(SF(s) > TF(y) /\ y < L - 1)
          /\ lut' = [lut EXCEPT ![s] = IF y > 0 /\ Abs(prev - SF(s)) < Abs(TF(y) - SF(s)) THEN y - 1 ELSE y]
          /\ s' = s + 1 /\ UNCHANGED <<sh, th, y, prev>>
Spec == Init /\ [][Advance \/ Assign]_vars
Before == y > 0 => prev = TF(y - 1)
Nearest == \A k \in 0..s - 1 : \A v \in 0..L - 1 : Abs(TF(lut[k]) - SF(k)) <= Abs(TF(v) - SF(k))
Monotone == \A i, j \in 0..s - 1 : i <= j => lut[i] <= lut[j]
=============================================================================
