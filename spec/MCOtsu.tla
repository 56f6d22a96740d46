------------------------------- MODULE MCOtsu -------------------------------
(* C12, design level: one pass over the levels with running class weights    *)
(* and sums; the best level so far has the greatest between-class variance.  *)
EXTENDS Integers, FiniteSets
CONSTANTS L, MaxCount
VARIABLES hist, t, bw, bs, best, bestn, bestd
vars == <<hist, t, bw, bs, best, bestn, bestd>>
RECURSIVE W(_, _), S(_, _)
W(a, b) == IF a > b THEN 0 ELSE hist[a] + W(a + 1, b)
S(a, b) == IF a > b THEN 0 ELSE a * hist[a] + S(a + 1, b)
TW == W(0, L - 1)
TS == S(0, L - 1)
\* wb wf (sb/wb - sf/wf)^2 = (sb wf - sf wb)^2 / (wb wf) as a fraction
Num(wb, sb) == LET d == sb * (TW - wb) - (TS - sb) * wb IN d * d
Den(wb) == wb * (TW - wb)
Init == /\ hist \in [0..L - 1 -> 0..MaxCount]
        /\ t = 0 /\ bw = 0 /\ bs = 0 /\ best = 0 /\ bestn = 0 /\ bestd = 1
Step == /\ t < L
        /\ LET w == bw + hist[t] s == bs + t * hist[t] IN
           /\ bw' = w /\ bs' = s
           /\ IF w = 0 THEN t' = t + 1 /\ UNCHANGED <<best, bestn, bestd>>
              ELSE IF w = TW THEN t' = L /\ UNCHANGED <<best, bestn, bestd>>
              ELSE /\ t' = t + 1
                   /\ IF Num(w, s) * bestd > bestn * Den(w)
                      THEN best' = t /\ bestn' = Num(w, s) /\ bestd' = Den(w)
                      ELSE UNCHANGED <<best, bestn, bestd>>
        /\ hist' = hist
Spec == Init /\ [][Step]_vars
Running == t < L => bw = W(0, t - 1) /\ bs = S(0, t - 1)
Value(k) == IF W(0, k) = 0 \/ W(0, k) = TW THEN <<0, 1>> ELSE <<Num(W(0, k), S(0, k)), Den(W(0, k))>>
Best == t = L => \A k \in 0..L - 1 : Value(k)[1] * Value(best)[2] <= Value(best)[1] * Value(k)[2]
SoFar == t < L => \A k \in 0..t - 1 : Value(k)[1] * bestd <= bestn * Value(k)[2]
=============================================================================
