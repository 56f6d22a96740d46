------------------------------ MODULE MCSweep ------------------------------
(* The two-sweep chamfer distance transform: forward over the rows relaxing  *)
(* from the neighbours already visited, then backward.  Checked: the values  *)
(* never drop below the true distance, and both sweeps together reach it     *)
(* (C13, and through it C15), also when there is no foreground at all.       *)
EXTENDS Morph
CONSTANTS Sizes, Cap, Norms
SmallSizes == {<<1, 1>>, <<1, 4>>, <<4, 1>>, <<2, 3>>, <<3, 2>>, <<3, 3>>}
VARIABLES im, n, d, pos, pc
vars == <<im, n, d, pos, pc>>

Init == /\ \E s \in Sizes : \E p \in [1..(s[1] * s[2]) -> {0, 1}] : im = [w |-> s[1], h |-> s[2], c |-> 1, px |-> p]
        /\ n \in Norms /\ d = [i \in 1..Len(im.px) |-> 0] /\ pos = 0 /\ pc = "forward"
X(i) == i % im.w
Y(i) == i \div im.w
Earlier(i) == {j \in 0..(i - 1) : Dist(n, X(i) - X(j), Y(i) - Y(j)) = 1}
Later(i) == {j \in (i + 1)..(Len(im.px) - 1) : Dist(n, X(i) - X(j), Y(i) - Y(j)) = 1}
Relax(v, js) == FoldSet(LAMBDA j, a : Min2(a, d[j + 1] + 1), v, js)
Forward == /\ pc = "forward"
           /\ IF pos < Len(im.px)
              THEN /\ d' = [d EXCEPT ![pos + 1] = IF im.px[pos + 1] # 0 THEN 0 ELSE Relax(Cap, Earlier(pos))]
                   /\ pos' = pos + 1 /\ pc' = pc
              ELSE d' = d /\ pos' = pos - 1 /\ pc' = "backward"
           /\ UNCHANGED <<im, n>>
Backward == /\ pc = "backward"
            /\ IF pos >= 0
               THEN d' = [d EXCEPT ![pos + 1] = Relax(@, Later(pos))] /\ pos' = pos - 1 /\ pc' = pc
               ELSE d' = d /\ pos' = pos /\ pc' = "done"
            /\ UNCHANGED <<im, n>>
Next == Forward \/ Backward
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Fg == PtsWhere(im, LAMBDA v : v # 0)
True(i) == Min2(Cap, NearestDist(n, Fg, X(i), Y(i)))
Visited == IF pc = "forward" THEN 0..(pos - 1) ELSE 0..(Len(im.px) - 1)
NeverBelow == \A i \in Visited : d[i + 1] >= True(i)
ForwardReach == \* after the first sweep, the distance to the foreground above (and left of) the pixel
  pc = "backward" => \A i \in Visited : \A j \in 0..i :
     (im.px[j + 1] # 0 /\ (X(j) <= X(i) \/ (n = "LInf" /\ Y(j) < Y(i) /\ X(j) - X(i) <= Y(i) - Y(j))))
        => d[i + 1] <= Dist(n, X(i) - X(j), Y(i) - Y(j))
Exact == pc = "done" => \A i \in Visited : d[i + 1] = True(i)
Terminates == <>(pc = "done")
=============================================================================
