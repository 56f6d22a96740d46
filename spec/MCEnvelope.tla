----------------------------- MODULE MCEnvelope -----------------------------
(* The lower envelope of parabolas behind the exact Euclidean transform: one *)
(* pass builds the stack of parabolas (locations v, left boundaries z as     *)
(* fractions), a second pass reads the distances off it.  Checked: while it  *)
(* is built the stack is ordered and, at the end, every position gets the    *)
(* minimum over all parabolas (C14).  Inf marks an absent parabola.          *)
EXTENDS Img
CONSTANTS MaxLen, Heights, Inf
VARIABLES f, v, z, q, res, pc
vars == <<f, v, z, q, res, pc>>
\* boundaries: fractions <<a, b>> with b > 0; the first is minus infinity
MinusInf == <<-1, 0>>
Leq(s, t) == t # MinusInf /\ (s = MinusInf \/ s[1] * t[2] <= t[1] * s[2])
Meet(p, r) == <<(f[r + 1] + r * r) - (f[p + 1] + p * p), 2 * r - 2 * p>>
Init == /\ \E n \in 1..MaxLen : f \in [1..n -> Heights \cup {Inf}]
        /\ v = <<0>> /\ z = <<MinusInf>> /\ q = 1 /\ res = <<>> /\ pc = "build"
Build == /\ pc = "build" /\ q < Len(f)
         /\ IF f[q + 1] = Inf THEN q' = q + 1 /\ UNCHANGED <<v, z>>
            ELSE IF Len(v) = 1 /\ f[v[1] + 1] = Inf THEN v' = <<q>> /\ z' = <<MinusInf>> /\ q' = q + 1
            ELSE LET s == Meet(Last(v), q) IN
                 IF Leq(s, Last(z)) THEN v' = Front(v) /\ z' = Front(z) /\ q' = q       \* pop a hidden parabola
                 ELSE v' = Append(v, q) /\ z' = Append(z, s) /\ q' = q + 1
         /\ UNCHANGED <<f, res, pc>>
Turn == /\ pc = "build" /\ q = Len(f) /\ pc' = "read" /\ q' = 0 /\ UNCHANGED <<f, v, z, res>>
\* the parabola covering position x: the last whose boundary is below x
Cover(x) == CHOOSE k \in 1..Len(v) : /\ z[k] = MinusInf \/ z[k][1] < x * z[k][2]
                                     /\ k = Len(v) \/ ~(z[k + 1][1] < x * z[k + 1][2])
Read == /\ pc = "read" /\ q < Len(f)
        /\ LET k == Cover(q) IN res' = Append(res, IF f[v[k] + 1] = Inf THEN Inf ELSE (q - v[k]) * (q - v[k]) + f[v[k] + 1])
        /\ q' = q + 1 /\ UNCHANGED <<f, v, z, pc>>
Done == pc = "read" /\ q = Len(f) /\ pc' = "done" /\ UNCHANGED <<f, v, z, q, res>>
Next == Build \/ Turn \/ Read \/ Done
Spec == Init /\ [][Next]_vars
NeverEmpty == Len(v) >= 1 /\ Len(v) = Len(z) /\ z[1] = MinusInf
Ordered == \A k \in 1..(Len(v) - 1) : v[k] < v[k + 1] /\ ~Leq(z[k + 1], z[k])
BestOf(x) == FoldLeft(LAMBDA a, p : IF f[p] = Inf THEN a ELSE Min2(a, (x - p + 1) * (x - p + 1) + f[p]), Inf, [i \in 1..Len(f) |-> i])
Exact == \A i \in 1..Len(res) : res[i] = BestOf(i - 1)
Total == pc = "done" => Len(res) = Len(f)
=============================================================================
