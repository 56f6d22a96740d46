------------------------------ MODULE MCScore -------------------------------
(* C28, design level: the score is found by bisection.  The pixel is a       *)
(* corner at exactly the thresholds up to s (-1: at none).                   *)
EXTENDS Integers
CONSTANT M
VARIABLES s, t, lo, hi
vars == <<s, t, lo, hi>>
Init == s \in -1..M /\ t \in 0..M /\ lo = t /\ hi = M
Next == /\ lo # hi
        /\ LET probe == IF hi = lo + 1 THEN hi ELSE (hi + lo) \div 2 IN
           IF probe <= s THEN lo' = probe /\ hi' = hi ELSE hi' = probe - 1 /\ lo' = lo
        /\ UNCHANGED <<s, t>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Bracket == t <= lo /\ lo <= hi /\ hi <= M
\* a corner at the given threshold scores the greatest threshold at which it is one
Kept == s >= t => lo <= s /\ s <= hi
Shrinks == [][hi' - lo' < hi - lo]_vars
Ends == <>(lo = hi)
=============================================================================
