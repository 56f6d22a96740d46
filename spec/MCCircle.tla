------------------------------ MODULE MCCircle ------------------------------
(* C23, design level: the midpoint circle, one column of the first octant    *)
(* per step.  The decision variable is the circle's implicit function at the *)
(* midpoint (times one, less the quarter), and each column gets the pixel    *)
(* that the declarative octant in Draw names.                                *)
EXTENDS Draw
CONSTANT MaxR
VARIABLES r, x, y, p, out
vars == <<r, x, y, p, out>>
Init == r \in 0..MaxR /\ x = 0 /\ y = r /\ p = 1 - r /\ out = {}
Step == /\ x <= y
        /\ out' = out \cup {<<x, y>>}
        /\ x' = x + 1
        /\ IF p < 0 THEN y' = y /\ p' = p + 2 * (x + 1) + 1
           ELSE y' = y - 1 /\ p' = p + 2 * (x + 1 - (y - 1)) + 1
        /\ r' = r
Spec == Init /\ [][Step]_vars
\* p = (x + 1)^2 + (y - 1/2)^2 - r^2, rounded down ( + 1/4)
Decision == p = (x + 1) * (x + 1) + y * y - y - r * r
Eighth == \A q \in out : q \in Octant(r)
Whole == x > y => (r > 0 => out = {q \in Octant(r) : q[1] <= q[2]}) /\ (r = 0 => out = {<<0, 0>>})
\* no pixel of the octant is further than half a pixel and a bit from the circle
Close == \A q \in out : Abs(q[1] * q[1] + q[2] * q[2] - r * r) <= q[2]
=============================================================================
