------------------------------- MODULE MCHyst -------------------------------
(* C35, design level: edge tracking.  Strengths are 0, 1 (weak) or 2         *)
(* (strong); every pop of the stack is one step.  The steps taken from a     *)
(* pixel are a constant, so that the same machine describes the code as it   *)
(* is (Full = FALSE: neither north nor north-east, a known finding) and with *)
(* all eight neighbours.                                                     *)
EXTENDS Region
CONSTANTS W, H, Full
VARIABLES s, at, stack, mark
vars == <<s, at, stack, mark>>
N == W * H
Inner(i) == XOf(W, i) > 0 /\ YOf(W, i) > 0 /\ XOf(W, i) < W - 1 /\ YOf(W, i) < H - 1
In == {i \in 1..N : Inner(i)}
To(i) == (IF Full THEN N8(W, H, i) ELSE Track6(W, i)) \cap In
\* the order in which neighbours are pushed does not matter for the set: any order may be taken
Init == s \in [In -> 0..2] /\ at = 1 /\ stack = <<>> /\ mark = {}
Scan == /\ stack = <<>> /\ at <= N
        /\ at' = at + 1 /\ UNCHANGED s
        /\ IF at \in In /\ s[at] = 2 /\ at \notin mark
           THEN mark' = mark \cup {at} /\ stack' = <<at>>
           ELSE UNCHANGED <<mark, stack>>
Pop == /\ stack # <<>>
       /\ LET p == stack[Len(stack)]
              new == {q \in To(p) : s[q] >= 1 /\ q \notin mark}
          IN mark' = mark \cup new /\ stack' = SubSeq(stack, 1, Len(stack) - 1) \o SetToSeq(new)
       /\ UNCHANGED <<s, at>>
Spec == Init /\ [][Scan \/ Pop]_vars /\ WF_vars(Scan \/ Pop)
Weak == {i \in In : s[i] >= 1}
Reach == Closure({i \in In : s[i] = 2}, [i \in 1..N |-> IF i \in Weak THEN To(i) \cap Weak ELSE {}])
Sound == mark \subseteq Reach
Complete == at > N /\ stack = <<>> => mark = Reach
Once == \A j, k \in 1..Len(stack) : j # k => stack[j] # stack[k]
\* what is on no stack has all its weak successors marked
Closed == \A p \in mark : (\A k \in 1..Len(stack) : stack[k] # p) => (To(p) \cap Weak) \subseteq mark
Ends == <>(at > N /\ stack = <<>>)
=============================================================================
