------------------------------ MODULE MCMedian ------------------------------
(* The sliding-window algorithm: one histogram is moved over the image along *)
(* a serpentine (down even columns, up odd ones), each step removing the     *)
(* samples that leave the clamped window and adding those that enter.        *)
(* Checked: in every state the histogram is exactly the histogram of the     *)
(* window, so the running median is the window median (C06).                 *)
EXTENDS Filter
CONSTANTS MaxW, MaxH, MaxR, Vals
VARIABLES im, rx, ry, x, y, hist, out, pc
vars == <<im, rx, ry, x, y, hist, out, pc>>

WindowHist(u, v) ==
  [a \in Vals |-> SumTo((2 * rx + 1) * (2 * ry + 1), LAMBDA i :
     LET W == 2 * rx + 1 IN
     IF PxClamp(im, u + ((i - 1) % W) - rx, v + ((i - 1) \div W) - ry) = a THEN 1 ELSE 0)]
Rank(h) == CHOOSE v \in Vals :
   LET le == FoldFunctionOnSet(+, 0, h, {a \in Vals : a <= v})
       lt == FoldFunctionOnSet(+, 0, h, {a \in Vals : a < v})
       n == FoldFunctionOnSet(+, 0, h, Vals)
   IN 2 * le >= n /\ 2 * lt < n
Init == /\ \E w \in 1..MaxW, h \in 1..MaxH : \E p \in [1..(w * h) -> Vals] : im = [w |-> w, h |-> h, c |-> 1, px |-> p]
        /\ rx \in 0..MaxR /\ ry \in 0..MaxR
        /\ x = 0 /\ y = 0 /\ pc = "run"
        /\ hist = WindowHist(0, 0)
        /\ out = [p \in {} |-> 0]
Emit == out @@ (<<x, y>> :> Rank(hist))
\* multiset update: remove the leaving line of samples, add the entering one
Upd(leave, enter, n) ==
  [a \in Vals |-> hist[a] - SumTo(n, LAMBDA i : IF leave[i] = a THEN 1 ELSE 0)
                          + SumTo(n, LAMBDA i : IF enter[i] = a THEN 1 ELSE 0)]
RowLine(v) == [i \in 1..(2 * rx + 1) |-> PxClamp(im, x + i - 1 - rx, v)]
ColLine(u) == [i \in 1..(2 * ry + 1) |-> PxClamp(im, u, y + i - 1 - ry)]
SlideDown == /\ pc = "run" /\ x % 2 = 0 /\ y < im.h - 1
             /\ out' = Emit /\ y' = y + 1
             /\ hist' = Upd(RowLine(Max2(0, y - ry)), RowLine(Min2(y + 1 + ry, im.h - 1)), 2 * rx + 1)
             /\ UNCHANGED <<im, rx, ry, x, pc>>
SlideUp == /\ pc = "run" /\ x % 2 = 1 /\ y > 0
           /\ out' = Emit /\ y' = y - 1
           /\ hist' = Upd(RowLine(Min2(y + ry, im.h - 1)), RowLine(Max2(0, y - 1 - ry)), 2 * rx + 1)
           /\ UNCHANGED <<im, rx, ry, x, pc>>
AtEnd == (x % 2 = 0 /\ y = im.h - 1) \/ (x % 2 = 1 /\ y = 0)
SlideRight == /\ pc = "run" /\ AtEnd /\ x < im.w - 1
              /\ out' = Emit /\ x' = x + 1
              /\ hist' = Upd(ColLine(Max2(0, x - rx)), ColLine(Min2(x + 1 + rx, im.w - 1)), 2 * ry + 1)
              /\ UNCHANGED <<im, rx, ry, y, pc>>
Finish == /\ pc = "run" /\ AtEnd /\ x = im.w - 1
          /\ out' = Emit /\ pc' = "done"
          /\ UNCHANGED <<im, rx, ry, x, y, hist>>
Next == SlideDown \/ SlideUp \/ SlideRight \/ Finish
Spec == Init /\ [][Next]_vars

HistIsWindow == hist = WindowHist(x, y)
OutIsMedian == \A p \in DOMAIN out : IsMedian(im, p[1], p[2], 0, rx, ry, out[p])
DoneIsTotal == pc = "done" => DOMAIN out = Points(im)
=============================================================================
