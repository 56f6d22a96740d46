----------------------------- MODULE MCSuppress -----------------------------
(* C27, design level: block-wise suppression of non-maxima.  One step takes  *)
(* one (R + 1)-block, finds its maximum and compares it with the rest of the *)
(* (2 R + 1)-square around that maximum; the result is what the definition   *)
(* pixel by pixel gives.                                                     *)
EXTENDS Integers, FiniteSets
CONSTANTS W, H, Vals, Rs
VARIABLES im, R, todo, out
vars == <<im, R, todo, out>>
P == (0..W - 1) \X (0..H - 1)
Blocks(r) == {q \in P : q[1] % (r + 1) = 0 /\ q[2] % (r + 1) = 0}
\* ties go to the lexicographically least position
Beats(a, b) == im[a] > im[b] \/ (im[a] = im[b] /\ (a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])))
Square(p) == {q \in P : q[1] - p[1] \in -R..R /\ q[2] - p[2] \in -R..R}
IsMax(p) == \A q \in Square(p) \ {p} : Beats(p, q)
Init == im \in [P -> Vals] /\ R \in Rs /\ todo = Blocks(R) /\ out = {}
Step == \E b \in todo :
          LET blk == {q \in P : q[1] - b[1] \in 0..R /\ q[2] - b[2] \in 0..R}
              best == CHOOSE q \in blk : \A o \in blk \ {q} : Beats(q, o)
              others == Square(best) \ blk
          IN /\ out' = IF \A o \in others : Beats(best, o) THEN out \cup {best} ELSE out
             /\ todo' = todo \ {b}
             /\ UNCHANGED <<im, R>>
Spec == Init /\ [][Step]_vars
\* the result holds maxima only, and all maxima of the blocks seen
Sound == \A p \in out : IsMax(p)
Seen(p) == <<p[1] - (p[1] % (R + 1)), p[2] - (p[2] % (R + 1))>> \notin todo
Complete == \A p \in P : IsMax(p) /\ Seen(p) => p \in out
=============================================================================
