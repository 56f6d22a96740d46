---------------------------- MODULE GenUnionFind ----------------------------
(* Behaviours of the union-find interface, printed for replay into the code: *)
(* <<"S", n, op, i, j, op, i, j, ...>> with op 0 union, 1 root, 2 find,      *)
(* 3 num_trees, 4 trees.                                                     *)
EXTENDS Integers, Sequences, TLC
CONSTANTS MaxN, Depth
VARIABLES n, hist
Init == n \in 1..MaxN /\ hist = <<>>
Next == /\ Len(hist) < 3 * Depth
        /\ n' = n
        /\ \E op \in {0, 0, 1, 2, 3, 4}, i, j \in 0..n - 1 :
             /\ op \in {1, 3, 4} => j = 0
             /\ op \in {3, 4} => i = 0
             /\ hist' = hist \o <<op, i, j>>
Emit == Len(hist) = 3 * Depth => PrintT(<<"S", n>> \o hist)
Spec == Init /\ [][Next]_<<n, hist>>
=============================================================================
