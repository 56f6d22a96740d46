-------------------------------- MODULE Img --------------------------------
(* Images as values: a record [w, h, c, px] of width, height, channel count  *)
(* and the row-major, channel-interleaved sample sequence.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
\* division rounding towards zero, as in Rust (TLA+ \div rounds down)
TDiv(a, b) == IF (a >= 0) = (b > 0) THEN Abs(a) \div Abs(b) ELSE -(Abs(a) \div Abs(b))
SumTo(n, F(_)) == FoldLeft(LAMBDA a, k : a + F(k), 0, [i \in 1..n |-> i])
SumSeq(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)

Area(im) == im.w * im.h
InImg(im, x, y) == x >= 0 /\ y >= 0 /\ x < im.w /\ y < im.h
\* sample of channel k (0-based) at (x, y); Px for single-channel images
PxC(im, x, y, k) == im.px[(y * im.w + x) * im.c + k + 1]
Px(im, x, y) == im.px[y * im.w + x + 1]
\* border replication
PxClampC(im, x, y, k) == PxC(im, Clamp(x, 0, im.w - 1), Clamp(y, 0, im.h - 1), k)
PxClamp(im, x, y) == Px(im, Clamp(x, 0, im.w - 1), Clamp(y, 0, im.h - 1))
Pixel(im, x, y) == [k \in 1..im.c |-> PxC(im, x, y, k - 1)]

WellFormed(im) == Len(im.px) = im.w * im.h * im.c
HasDims(im, w, h, c) == im.w = w /\ im.h = h /\ im.c = c /\ WellFormed(im)
SameDims(a, b) == HasDims(a, b.w, b.h, b.c)

\* im is the w-by-h image with c channels whose sample at (x, y, k) is F(x, y, k)
ImgIs(im, w, h, c, F(_, _, _)) ==
  /\ HasDims(im, w, h, c)
  /\ \A i \in 1..(w * h * c) :
       LET q == (i - 1) \div c IN im.px[i] = F(q % w, q \div w, (i - 1) % c)
\* single-channel version
GrayIs(im, w, h, F(_, _)) ==
  /\ HasDims(im, w, h, 1)
  /\ \A i \in 1..(w * h) : im.px[i] = F((i - 1) % w, (i - 1) \div w)
\* builds an image
MkImg(w, h, c, F(_, _, _)) ==
  [w |-> w, h |-> h, c |-> c,
   px |-> [i \in 1..(w * h * c) |->
             LET q == (i - 1) \div c IN F(q % w, q \div w, (i - 1) % c)]]
MkGray(w, h, F(_, _)) ==
  [w |-> w, h |-> h, c |-> 1,
   px |-> [i \in 1..(w * h) |-> F((i - 1) % w, (i - 1) \div w)]]
Points(im) == (0..im.w - 1) \X (0..im.h - 1)
PtIdx(im, p) == p[2] * im.w + p[1] + 1

\* a recorded event whose call returned normally / panicked
Ok(e) == e.res = "ok"
Panics(e) == e.res = "panic"
=============================================================================
