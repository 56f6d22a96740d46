----------------------------- MODULE MCPolygon ------------------------------
(* C24, design level: the scan line fill.  Each step fills one row between   *)
(* paired crossings: horizontal edges count at both ends, other edges at the *)
(* row of their lower-numbered end but not of the other; the boundary comes  *)
(* on top.  The result is what the even-odd definition in Draw asks for.     *)
EXTENDS Draw
CONSTANTS Off, Hi, Sizes, W, H
VARIABLES pts, y, filled
vars == <<pts, y, filled>>
V == {<<a, b>> : a \in -Off..Hi, b \in -Off..Hi}
RoundDiv(n, d) == IF n >= 0 THEN (2 * n + d) \div (2 * d) ELSE -((2 * (-n) + d) \div (2 * d))  \* halves away from zero
RowXs ==
  LET one(e) == LET p == e[1] q == e[2] IN
        IF ~(Min2(p[2], q[2]) <= y /\ y <= Max2(p[2], q[2])) THEN <<>>
        ELSE IF p[2] = q[2] THEN <<p[1], q[1]>>
        ELSE IF p[2] = y THEN (IF q[2] > y THEN <<p[1]>> ELSE <<>>)
        ELSE IF q[2] = y THEN (IF p[2] > y THEN <<q[1]>> ELSE <<>>)
        ELSE LET g == IF q[2] > p[2] THEN 1 ELSE -1 IN
             <<RoundDiv(p[1] * (q[2] - p[2]) * g + (y - p[2]) * g * (q[1] - p[1]), (q[2] - p[2]) * g)>>
  IN SortSeq(FoldLeft(LAMBDA a, e : a \o one(e), <<>>, EdgesOf(pts)), LAMBDA a, b : a < b)
Init == pts \in UNION {[1..n -> V] : n \in Sizes} /\ y = 0 /\ filled = {}
Row == /\ y < H
       /\ LET xs == RowXs IN
          filled' = filled \cup {p \in All(W, H) : p[2] = y /\ \E k \in 1..(Len(xs) \div 2) : xs[2 * k - 1] <= p[1] /\ p[1] <= xs[2 * k]}
       /\ y' = y + 1 /\ pts' = pts
Spec == Init /\ [][Row]_vars
Bnd == LET es == EdgesOf(pts) IN UNION {Clip(W, H, LineI(es[k][1], es[k][2])) : k \in 1..Len(es)}
Paired == y < H => Len(RowXs) % 2 = 0
Right == y = H => PolySetOk(filled \cup Bnd, W, H, pts)
=============================================================================
