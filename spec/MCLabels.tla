------------------------------ MODULE MCLabels ------------------------------
(* C17, design level: the two passes of connected_components, one pixel per  *)
(* step, over every image of W x H pixels with the values 0..V (0 is         *)
(* background).  The forest of labels is abstracted to the partition that    *)
(* its unions generate (MCUnionFind shows that the forest refines it).       *)
EXTENDS Region
CONSTANTS W, H, V
VARIABLES im, conn, at, lab, next, rep, pass, outl, count
vars == <<im, conn, at, lab, next, rep, pass, outl, count>>
N == W * H
Init == /\ im \in {[w |-> W, h |-> H, c |-> 1, px |-> f] : f \in [1..N -> 0..V]}
        /\ conn \in {4, 8}
        /\ at = 1 /\ lab = [i \in 1..N |-> 0] /\ next = 1 /\ rep = [i \in 0..N |-> i] /\ pass = 1
        /\ outl = [i \in 0..N |-> 0] /\ count = 1
\* neighbours already scanned, of the same value
Seen(i) == {j \in Nb(conn, W, H, i) : j < i /\ im.px[j] = im.px[i]}
Join(r, a, b) == [k \in 0..N |-> IF r[k] = r[b] THEN r[a] ELSE r[k]]
First ==
  /\ pass = 1 /\ at <= N
  /\ at' = at + 1
  /\ UNCHANGED <<im, conn, pass, outl, count>>
  /\ IF im.px[at] = 0 THEN UNCHANGED <<lab, next, rep>>
     ELSE IF Seen(at) = {} THEN lab' = [lab EXCEPT ![at] = next] /\ next' = next + 1 /\ UNCHANGED rep
     ELSE LET ls == {lab[j] : j \in Seen(at)}
              m == Min(ls)
          IN /\ lab' = [lab EXCEPT ![at] = m] /\ UNCHANGED next
             /\ rep' = FoldLeft(LAMBDA r, b : IF b \in ls THEN Join(r, m, b) ELSE r, rep, [b \in 1..N |-> b])
Turn == pass = 1 /\ at > N /\ pass' = 2 /\ at' = 1 /\ UNCHANGED <<im, conn, lab, next, rep, outl, count>>
Second ==
  /\ pass = 2 /\ at <= N
  /\ at' = at + 1
  /\ UNCHANGED <<im, conn, pass, next, rep>>
  /\ IF im.px[at] = 0 THEN UNCHANGED <<lab, outl, count>>
     ELSE LET r == rep[lab[at]]
              o == IF outl[r] = 0 THEN count ELSE outl[r]
          IN /\ lab' = [lab EXCEPT ![at] = o]
             /\ outl' = [outl EXCEPT ![r] = o]
             /\ count' = IF outl[r] = 0 THEN count + 1 ELSE count
Spec == Init /\ [][First \/ Turn \/ Second]_vars
\* labels fit the forest of N + 1 elements
InForest == next <= N + 1 /\ \A i \in 1..N : lab[i] \in 0..N
\* after the first pass, two pixels share a representative iff a path of scanned pixels joins them
Linked == pass = 1 => \A i, j \in 1..at - 1 : im.px[i] # 0 /\ im.px[j] # 0 =>
  ((rep[lab[i]] = rep[lab[j]]) <=> j \in Closure({i}, [p \in 1..N |-> IF p < at /\ im.px[p] # 0 THEN {q \in Nb(conn, W, H, p) : q < at /\ im.px[q] = im.px[p]} ELSE {}]))
Right == pass = 2 /\ at > N => LabelsOk([w |-> W, h |-> H, c |-> 1, px |-> lab], im, <<0>>, conn)
=============================================================================
