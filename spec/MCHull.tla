------------------------------- MODULE MCHull -------------------------------
(* C36, design level: Graham's scan.  Points are sorted by angle about the   *)
(* lowest one (leftmost among equals), then pushed one by one; a point that  *)
(* does not turn left is popped.                                             *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N    \* points of the N x N grid
VARIABLES S, rest, stack
vars == <<S, rest, stack>>
G == (0..N - 1) \X (0..N - 1)
Cross(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1])
Sq(a, b) == (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])
Start(T) == CHOOSE p \in T : \A q \in T : p[2] < q[2] \/ (p[2] = q[2] /\ p[1] <= q[1])
\* a comes before b: smaller angle, nearer among equals
Before(s, a, b) == Cross(s, a, b) > 0 \/ (Cross(s, a, b) = 0 /\ Sq(s, a) < Sq(s, b))
RECURSIVE Sorted(_, _)
Sorted(s, T) == IF T = {} THEN <<>>
                ELSE LET m == CHOOSE p \in T : \A q \in T \ {p} : Before(s, p, q) IN <<m>> \o Sorted(s, T \ {m})
Init == /\ S \in SUBSET G /\ S # {}
        /\ rest = Sorted(Start(S), S \ {Start(S)})
        /\ stack = <<Start(S)>>
n == Len(stack)
Pop == /\ rest # <<>> /\ n > 1 /\ Cross(stack[n - 1], stack[n], rest[1]) <= 0
       /\ stack' = SubSeq(stack, 1, n - 1) /\ UNCHANGED <<S, rest>>
Push == /\ rest # <<>> /\ ~(n > 1 /\ Cross(stack[n - 1], stack[n], rest[1]) <= 0)
        /\ stack' = Append(stack, rest[1]) /\ rest' = Tail(rest) /\ UNCHANGED S
Spec == Init /\ [][Pop \/ Push]_vars
Between(a, b, p) == Cross(a, b, p) = 0 /\ (p[1] - a[1]) * (p[1] - b[1]) <= 0 /\ (p[2] - a[2]) * (p[2] - b[2]) <= 0
Extreme(p) == LET O == S \ {p} IN O = {} \/ \E q \in O : (\A r \in O : Cross(p, q, r) >= 0)
                                              /\ \A r \in O : Cross(p, q, r) = 0 => ~Between(q, r, p)
Seen == S \ {rest[k] : k \in 1..Len(rest)}
Range == {stack[k] : k \in 1..n}
\* the stack always turns left, and everything seen lies to the left of or on its edges or will be after a pop
Convex == \A k \in 1..n - 2 : Cross(stack[k], stack[k + 1], stack[k + 2]) > 0
Holds == rest = <<>> /\ n > 2 => \A p \in S : \A k \in 1..n : Cross(stack[k], stack[(k % n) + 1], p) >= 0
ExactlyExtreme == rest = <<>> => Range = {p \in S : Extreme(p)} /\ Cardinality(Range) = n
=============================================================================
