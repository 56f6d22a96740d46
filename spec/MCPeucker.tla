----------------------------- MODULE MCPeucker ------------------------------
(* C36, design level: Douglas-Peucker with an explicit stack of segments.    *)
(* A segment is split at its point furthest from the line through its ends   *)
(* (from the end point, when the ends coincide) until none is further than   *)
(* eps; every dropped point then lies within eps of the segment it is on.    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, MaxLen, Eps2    \* N x N grid; squared tolerances
VARIABLES c, e2, work, kept
vars == <<c, e2, work, kept>>
G == (0..N - 1) \X (0..N - 1)
Cross(a, b, p) == (b[1] - a[1]) * (p[2] - a[2]) - (b[2] - a[2]) * (p[1] - a[1])
Sq(a, b) == (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])
\* squared distance of c[k] from the line of c[i], c[j], times Scale(i, j)
D2(i, j, k) == IF c[i] = c[j] THEN Sq(c[i], c[k]) ELSE Cross(c[i], c[j], c[k]) * Cross(c[i], c[j], c[k])
Scale(i, j) == IF c[i] = c[j] THEN 1 ELSE Sq(c[i], c[j])
Init == /\ c \in UNION {[1..n -> G] : n \in 2..MaxLen} /\ e2 \in Eps2
        /\ work = << <<1, Len(c)>> >> /\ kept = {1, Len(c)}
Step == /\ work # <<>>
        /\ LET i == work[1][1] j == work[1][2] IN
           IF j - i < 2 THEN work' = Tail(work) /\ UNCHANGED kept
           ELSE LET m == CHOOSE k \in (i + 1)..(j - 1) : \A q \in (i + 1)..(j - 1) : D2(i, j, q) < D2(i, j, k) \/ (D2(i, j, q) = D2(i, j, k) /\ k <= q) IN
                IF D2(i, j, m) > e2 * Scale(i, j)
                THEN work' = << <<i, m>>, <<m, j>> >> \o Tail(work) /\ kept' = kept \cup {m}
                ELSE work' = Tail(work) /\ UNCHANGED kept
        /\ UNCHANGED <<c, e2>>
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)
Lo(k) == CHOOSE i \in kept : i < k /\ \A q \in kept : q < k => q <= i
Hi(k) == CHOOSE i \in kept : i > k /\ \A q \in kept : q > k => q >= i
Within == work = <<>> => \A k \in (1..Len(c)) \ kept : D2(Lo(k), Hi(k), k) <= e2 * Scale(Lo(k), Hi(k))
Tiled == work # <<>> => /\ work[Len(work)][2] = Len(c)
                        /\ \A k \in 1..Len(work) - 1 : work[k][2] = work[k + 1][1]
Ends == <>(work = <<>>)
=============================================================================
