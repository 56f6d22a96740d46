---------------------------- MODULE MCBresenham ----------------------------
(* C21, design level: the error accumulator of the line iterator, in halves. *)
(* Every point produced is a nearest one of its column (row when steep) to   *)
(* the ideal line; the end points are among them.                            *)
EXTENDS Integers, FiniteSets
CONSTANT M
VARIABLES a, b, steep, dx, dy, x, y, err, endx, step, out
vars == <<a, b, steep, dx, dy, x, y, err, endx, step, out>>
Abs(v) == IF v < 0 THEN -v ELSE v
Pts == (-M..M) \X (-M..M)
Init ==
  /\ a \in Pts /\ b \in Pts
  /\ steep = (Abs(b[2] - a[2]) > Abs(b[1] - a[1]))
  /\ LET p == IF steep THEN <<a[2], a[1]>> ELSE a
         q == IF steep THEN <<b[2], b[1]>> ELSE b
         s == IF p[1] > q[1] THEN q ELSE p
         t == IF p[1] > q[1] THEN p ELSE q
     IN /\ dx = t[1] - s[1] /\ dy = Abs(t[2] - s[2]) /\ x = s[1] /\ y = s[2]
        /\ err = t[1] - s[1]          \* twice the code's error
        /\ endx = t[1] /\ step = (IF s[2] < t[2] THEN 1 ELSE -1)
  /\ out = {}
Next == /\ x <= endx
        /\ out' = out \cup {IF steep THEN <<y, x>> ELSE <<x, y>>}
        /\ x' = x + 1
        /\ IF err - 2 * dy < 0 THEN y' = y + step /\ err' = err - 2 * dy + 2 * dx ELSE y' = y /\ err' = err - 2 * dy
        /\ UNCHANGED <<a, b, steep, dx, dy, endx, step>>
Spec == Init /\ [][Next]_vars
\* twice the distance, along the minor axis, from p to the line a b, times the length along the major one
Off(p) == 2 * ((b[1] - a[1]) * (p[2] - a[2]) - (b[2] - a[2]) * (p[1] - a[1]))
Near == \A p \in out : Abs(Off(p)) <= (IF a = b THEN 0 ELSE IF steep THEN Abs(b[2] - a[2]) ELSE Abs(b[1] - a[1]))
ErrorRange == x <= endx => 0 <= err /\ (err < 2 * dx \/ dx = 0)
Major(p) == IF steep THEN p[2] ELSE p[1]
Done == x > endx => a \in out /\ b \in out /\ {Major(p) : p \in out} = (IF Major(a) < Major(b) THEN Major(a)..Major(b) ELSE Major(b)..Major(a))
                    /\ Cardinality(out) = dx + 1
=============================================================================
