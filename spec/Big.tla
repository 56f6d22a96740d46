-------------------------------- MODULE Big ---------------------------------
(* Exact non-negative integers beyond TLC's 32-bit range: sequences of       *)
(* base-2^14 limbs, least significant first.                                 *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSetsExt
LOCAL B == 16384
Limb(a, i) == IF i \in DOMAIN a THEN a[i] ELSE 0
Carry(s) ==
  LET r == FoldLeft(LAMBDA acc, v : LET t == acc[2] + v IN <<Append(acc[1], t % B), t \div B>>, <<<<>>, 0>>, s)
  IN r[1] \o <<r[2] % B, r[2] \div B>>
BN(n) == <<n % B, (n \div B) % B, n \div (B * B)>>
BAdd(a, b) == LET n == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b) IN Carry([i \in 1..n |-> Limb(a, i) + Limb(b, i)])
\* without leading zero limbs
Trim(a) == LET S == {i \in DOMAIN a : a[i] # 0} IN IF S = {} THEN <<>> ELSE SubSeq(a, 1, Max(S))
\* a - b for a >= b
BSub(a, b) ==
  LET r == FoldLeft(LAMBDA acc, i : LET t == Limb(a, i) - Limb(b, i) - acc[2] IN
                      IF t < 0 THEN <<Append(acc[1], t + B), 1>> ELSE <<Append(acc[1], t), 0>>,
                    <<<<>>, 0>>, [i \in 1..Len(a) |-> i])
  IN r[1]
\* at most 7 limbs in the shorter factor
BMul(a0, b0) ==
  LET a == Trim(a0) b == Trim(b0) IN
  IF a = <<>> \/ b = <<>> THEN <<>> ELSE LET n == Len(a) + Len(b) - 1 IN
  Carry([k \in 1..n |-> FoldLeft(LAMBDA t, i : t + a[i] * Limb(b, k + 1 - i), 0, [i \in 1..Len(a) |-> i])])
BEq(a, b) == Trim(a) = Trim(b)
BLeq(a, b) ==
  LET n == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
      D == {i \in 1..n : Limb(a, i) # Limb(b, i)}
  IN D = {} \/ LET i == Max(D) IN Limb(a, i) < Limb(b, i)
BLt(a, b) == ~BLeq(b, a)
\* products of ordinary non-negative integers
BProd(x, y) == BMul(BN(x), BN(y))
=============================================================================
