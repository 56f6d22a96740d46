------------------------------ MODULE MCRunSum ------------------------------
(* C05, design level: one line of the box filter.  A buffer of running sums  *)
(* over the line extended by R copies of its end values at either side is    *)
(* filled left to right; each window sum is a difference of two entries.     *)
EXTENDS Integers, Sequences
CONSTANTS MaxN, Vals, MaxR
VARIABLES line, R, buf, means
vars == <<line, R, buf, means>>
N == Len(line)
Clamp(i) == IF i < 1 THEN 1 ELSE IF i > N THEN N ELSE i
RECURSIVE Sum(_, _)
Sum(a, b) == IF a > b THEN 0 ELSE line[Clamp(a)] + Sum(a + 1, b)
Init == /\ line \in UNION {[1..n -> Vals] : n \in 1..MaxN} /\ R \in 0..MaxR
        /\ buf = <<>> /\ means = <<>>
\* buf[i] covers positions 1 - R .. i - R
Fill == /\ Len(buf) < N + 2 * R
        /\ buf' = Append(buf, (IF buf = <<>> THEN 0 ELSE buf[Len(buf)]) + line[Clamp(Len(buf) + 1 - R)])
        /\ UNCHANGED <<line, R, means>>
Mean == /\ Len(buf) = N + 2 * R /\ Len(means) < N
        /\ LET x == Len(means)
               s == IF x = 0 THEN buf[2 * R + 1] ELSE buf[x + 2 * R + 1] - buf[x]
           IN means' = Append(means, s \div (2 * R + 1))
        /\ UNCHANGED <<line, R, buf>>
Spec == Init /\ [][Fill \/ Mean]_vars
Running == \A i \in 1..Len(buf) : buf[i] = Sum(1 - R, i - R)
IsMean == \A x \in 1..Len(means) : means[x] = Sum(x - R, x + R) \div (2 * R + 1)
=============================================================================
