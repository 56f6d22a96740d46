------------------------------- MODULE MCFlood -------------------------------
(* C19, design level: the span stack of the flood fill.  One step pops one   *)
(* span <<x1, x2, y, dy>> and scans it.  Pixels are 0 (target), 1 (another   *)
(* colour) or 2 (filled); the region of the seed is computed independently.  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS W, H
VARIABLES img, stack, region
vars == <<img, stack, region>>
P == (0..W - 1) \X (0..H - 1)
Nb(p) == {q \in P : \/ q[1] = p[1] /\ q[2] \in {p[2] - 1, p[2] + 1}
                    \/ q[2] = p[2] /\ q[1] \in {p[1] - 1, p[1] + 1}}
RECURSIVE Grow(_, _, _)
Grow(im, front, seen) ==
  IF front = {} THEN seen
  ELSE LET n == {q \in UNION {Nb(p) : p \in front} : im[q] = 0} \ seen IN Grow(im, n, seen \cup n)
Inside(im, x, y) == <<x, y>> \in P /\ im[<<x, y>>] = 0
Put(im, x, y) == [im EXCEPT ![<<x, y>>] = 2]

RECURSIVE GoLeft(_, _, _)
GoLeft(im, x, y) == IF Inside(im, x - 1, y) THEN GoLeft(Put(im, x - 1, y), x - 1, y) ELSE [im |-> im, x |-> x]
RECURSIVE GoRight(_, _, _)
GoRight(im, x, y) == IF Inside(im, x, y) THEN GoRight(Put(im, x, y), x + 1, y) ELSE [im |-> im, x |-> x]
RECURSIVE Skip(_, _, _, _)
Skip(im, x1, x2, y) == IF x1 < x2 /\ ~Inside(im, x1, y) THEN Skip(im, x1 + 1, x2, y) ELSE x1
\* scans from x1 to x2; x is where the current run began
RECURSIVE Scan(_, _, _, _, _, _, _)
Scan(im, st, x, x1, x2, y, dy) ==
  IF x1 > x2 THEN [im |-> im, st |-> st]
  ELSE LET r == GoRight(im, x1, y)
           s1 == IF r.x > x THEN Append(st, <<x, r.x - 1, y + dy, dy>>) ELSE st
           s2 == IF r.x - 1 > x2 THEN Append(s1, <<x2 + 1, r.x - 1, y - dy, -dy>>) ELSE s1
           n == Skip(r.im, r.x + 1, x2, y)
       IN Scan(r.im, s2, n, n, x2, y, dy)

Init == /\ img \in [P -> {0, 1}]
        /\ \E s \in P : /\ img[s] = 0
                        /\ stack = << <<s[1], s[1], s[2], 1>>, <<s[1], s[1], s[2] - 1, -1>> >>
                        /\ region = Grow(img, {s}, {s})
Step == /\ stack # <<>>
        /\ LET t == stack[Len(stack)]
               st == SubSeq(stack, 1, Len(stack) - 1)
               l == IF Inside(img, t[1], t[3]) THEN GoLeft(img, t[1], t[3]) ELSE [im |-> img, x |-> t[1]]
               s1 == IF Inside(img, t[1], t[3]) /\ l.x < t[1] THEN Append(st, <<l.x, t[1] - 1, t[3] - t[4], -t[4]>>) ELSE st
               r == Scan(l.im, s1, l.x, t[1], t[2], t[3], t[4])
           IN img' = r.im /\ stack' = r.st
        /\ UNCHANGED region
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)
Painted == {p \in P : img[p] = 2}
OnlyRegion == Painted \subseteq region
WholeRegion == stack = <<>> => Painted = region
\* every unfilled pixel of the region will still be reached: it touches a filled pixel or a pending span
Frontier == \A p \in region \ Painted : \E q \in region : img[q] = 0 /\
              \E k \in 1..Len(stack) : stack[k][3] = q[2] /\ stack[k][1] <= q[1] /\ q[1] <= stack[k][2]
\* no filled pixel is left behind, and a step that fills nothing shortens the stack: termination
Progress == [][/\ Painted \subseteq Painted'
               /\ (Painted' = Painted => Len(stack') < Len(stack))]_vars
Bounded == Len(stack) <= 2 * W * H + 2
=============================================================================
