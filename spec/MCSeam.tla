------------------------------- MODULE MCSeam -------------------------------
(* C31, design level: dynamic programming for the seam of least energy.  The *)
(* energy map is overwritten row by row with path energies, then the seam is *)
(* read off from the bottom row upwards.                                     *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS W, H, Vals
VARIABLES g, acc, pos, seam
vars == <<g, acc, pos, seam>>
P == (0..W - 1) \X (0..H - 1)
\* connected seams down to row y, as functions row -> column
Seams(y) == {s \in [0..y -> 0..W - 1] : \A r \in 1..y : s[r] - s[r - 1] \in {-1, 0, 1}}
RECURSIVE Cost(_, _)
Cost(s, y) == g[<<s[y], y>>] + (IF y = 0 THEN 0 ELSE Cost(s, y - 1))
Min(S) == CHOOSE m \in S : \A n \in S : m <= n
Up(x) == {u \in {x - 1, x, x + 1} : 0 <= u /\ u < W}

Init == g \in [P -> Vals] /\ acc = g /\ pos = W /\ seam = <<>>
\* the next pixel in raster order, from the second row on
Add == /\ pos < W * H
       /\ LET x == pos % W y == pos \div W IN
          acc' = [acc EXCEPT ![<<x, y>>] = @ + Min({acc[<<u, y - 1>>] : u \in Up(x)})]
       /\ pos' = pos + 1 /\ UNCHANGED <<g, seam>>
Bottom == /\ pos = W * H /\ seam = <<>>
          /\ LET m == Min({acc[<<x, H - 1>>] : x \in 0..W - 1}) IN
             seam' = <<Min({x \in 0..W - 1 : acc[<<x, H - 1>>] = m})>>
          /\ UNCHANGED <<g, acc, pos>>
\* one row up: straight unless the left is less, then right only if less than the best so far
Back == /\ seam # <<>> /\ Len(seam) < H
        /\ LET x == seam[Len(seam)]
               y == H - 1 - Len(seam)
               above == acc[<<x, y>>]
               l == IF x > 0 /\ acc[<<x - 1, y>>] < above THEN x - 1 ELSE x
               best == acc[<<l, y>>]
               n == IF x < W - 1 /\ acc[<<x + 1, y>>] < best THEN x + 1 ELSE l
           IN seam' = Append(seam, n)
        /\ UNCHANGED <<g, acc, pos>>
Next == Add \/ Bottom \/ Back
Spec == Init /\ [][Next]_vars

\* every pixel already processed holds the least energy of a seam down to it
PathEnergies == \A q \in P : q[2] * W + q[1] < pos =>
                  acc[q] = Min({Cost(s, q[2]) : s \in {t \in Seams(q[2]) : t[q[2]] = q[1]}})
\* what is left to spend above the last row read equals what is stored there
RECURSIVE Spent(_)
Spent(k) == IF k = 0 THEN 0 ELSE g[<<seam[k], H - k>>] + Spent(k - 1)
Connected == \A k \in 1..Len(seam) - 1 : seam[k + 1] - seam[k] \in {-1, 0, 1}
OnBudget == seam # <<>> =>
   Spent(Len(seam) - 1) + acc[<<seam[Len(seam)], H - Len(seam)>>] = Min({Cost(s, H - 1) : s \in Seams(H - 1)})
=============================================================================
