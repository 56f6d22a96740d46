------------------------------ MODULE MCBorder ------------------------------
(* C20, design level: border following.  The raster scan of find_contours,   *)
(* one pixel per step, over every binary image of W x H pixels; its result   *)
(* must be the declarative one of Region.tla.                                *)
EXTENDS Region
CONSTANTS W, H
VARIABLES im, val, at, parent, out
vars == <<im, val, at, parent, out>>
Dirs == << <<-1, 0>>, <<-1, -1>>, <<0, -1>>, <<1, -1>>, <<1, 0>>, <<1, 1>>, <<0, 1>>, <<-1, 1>> >>
DirOf(d) == CHOOSE k \in 1..8 : Dirs[k] = d
\* clockwise from direction k, itself first
Cw(k) == [j \in 1..8 |-> ((k + j - 2) % 8) + 1]
\* counter-clockwise, ending with k
Ccw(k) == [j \in 1..8 |-> ((k - j - 1 + 8) % 8) + 1]
Move(p, k) == <<p[1] + Dirs[k][1], p[2] + Dirs[k][2]>>
On(v, p) == p[1] >= 0 /\ p[1] < W /\ p[2] >= 0 /\ p[2] < H /\ v[p[2] * W + p[1] + 1] # 0
\* first of the directions in the order given that leads to a foreground pixel, or 0
FirstOn(v, p, order) == LET S == {j \in 1..8 : On(v, Move(p, order[j]))} IN IF S = {} THEN 0 ELSE order[Min(S)]

\* follow the border from cur, first neighbour pos1, numbering it num
RECURSIVE Follow(_, _, _, _, _, _, _)
Follow(v, cur, pos1, p2, p3, num, pts) ==
  LET k == DirOf(<<p2[1] - p3[1], p2[2] - p3[2]>>)
      o == Ccw(k)
      d4 == FirstOn(v, p3, o)
      p4 == Move(p3, d4)
      \* the east neighbour was examined (and empty) before p4
      east == \E j \in 1..8 : o[j] = 5 /\ \A i \in 1..j : o[i] # d4
      ix == p3[2] * W + p3[1] + 1
      nv == IF p3[1] + 1 = W \/ east THEN [v EXCEPT ![ix] = -num]
            ELSE IF v[ix] = 1 THEN [v EXCEPT ![ix] = num] ELSE v
      np == Append(pts, p3)
  IN IF p4 = cur /\ p3 = pos1 THEN [v |-> nv, pts |-> np]
     ELSE Follow(nv, cur, pos1, p3, p4, num, np)
Init == /\ im \in {[w |-> W, h |-> H, c |-> 1, px |-> f] : f \in [1..W * H -> {0, 1}]}
        /\ val = im.px /\ at = 0 /\ parent = 1 /\ out = <<>>
Step ==
  /\ at < W * H
  /\ at' = at + 1
  /\ UNCHANGED im
  /\ LET x == at % W y == at \div W i == at + 1
         par0 == IF x = 0 THEN 1 ELSE parent
         outer == val[i] = 1 /\ (x = 0 \/ val[i - 1] = 0)
         hole == ~outer /\ val[i] > 0 /\ x + 1 < W /\ val[i + 1] = 0
         par1 == IF hole /\ val[i] > 1 THEN val[i] ELSE par0
         num == Len(out) + 2
         pi == par1 - 1  \* 1-based index of the parent contour
         par == IF par1 <= 1 THEN <<>>
                ELSE IF outer # out[pi].outer THEN <<pi - 1>> ELSE out[pi].parent
         d1 == FirstOn(val, <<x, y>>, Cw(IF outer THEN 1 ELSE 5))
         r == IF d1 = 0 THEN [v |-> [val EXCEPT ![i] = -num], pts |-> << <<x, y>> >>]
              ELSE Follow(val, <<x, y>>, Move(<<x, y>>, d1), Move(<<x, y>>, d1), <<x, y>>, num, <<>>)
     IN IF val[i] = 0 THEN UNCHANGED <<val, out>> /\ parent' = par0
        ELSE IF outer \/ hole
        THEN /\ val' = r.v
             /\ out' = Append(out, [pts |-> r.pts, outer |-> outer, parent |-> par])
             /\ parent' = IF r.v[i] # 1 THEN Abs(r.v[i]) ELSE par1
        ELSE /\ UNCHANGED <<val, out>>
             /\ parent' = IF val[i] # 1 THEN Abs(val[i]) ELSE par0
Spec == Init /\ [][Step]_vars
Right == at = W * H => ContoursOk(out, im, 0)
\* labels never turn foreground into background, and every label names a border found so far
Labels == \A i \in 1..W * H : /\ (val[i] = 0) = (im.px[i] = 0)
                               /\ val[i] \notin {0, 1} => Abs(val[i]) \in 2..Len(out) + 1
\* every scanned foreground pixel whose west or east neighbour is background carries a label
Marked == \A i \in 1..at : im.px[i] = 1 /\ ((i - 1) % W = 0 \/ im.px[i - 1] = 0 \/ i % W = 0 \/ im.px[i + 1] = 0) => val[i] # 1
=============================================================================
