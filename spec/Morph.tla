------------------------------- MODULE Morph -------------------------------
(* C13-C16.  Distance maps, binary morphology by norm, grayscale morphology  *)
(* by mask.                                                                  *)
EXTENDS Img

\* ---- distances.  For L2 everything is kept squared.
Dist(n, dx, dy) == CASE n = "L1" -> Abs(dx) + Abs(dy)
                     [] n = "LInf" -> Max2(Abs(dx), Abs(dy))
                     [] n = "L2" -> dx * dx + dy * dy
\* points of an image whose value satisfies P, as a sequence
PtsWhere(im, P(_)) == SelectSeq([i \in 1..(im.w * im.h) |-> <<(i - 1) % im.w, (i - 1) \div im.w, im.px[i]>>],
                                LAMBDA p : P(p[3]))
Far == 2147483647
NearestDist(n, pts, x, y) ==
  FoldLeft(LAMBDA a, p : LET d == Dist(n, p[1] - x, p[2] - y) IN IF d < a THEN d ELSE a, Far, pts)
\* v is the distance as stored in 8 bits: saturated; L2 rounded up
StoredDist(n, v, d) ==
  IF n = "L2"
  THEN IF d > 254 * 254 THEN v = 255 ELSE v * v >= d /\ (v > 0 => (v - 1) * (v - 1) < d) /\ v <= 254
  ELSE v = Min2(d, 255)
DtOk(out, im, n) ==
  LET fg == TLCEval(PtsWhere(im, LAMBDA v : v # 0)) IN
  /\ HasDims(out, im.w, im.h, 1)
  /\ \A x \in 0..im.w - 1, y \in 0..im.h - 1 : StoredDist(n, Px(out, x, y), NearestDist(n, fg, x, y))
EdtOk(out, im) ==
  LET fg == TLCEval(PtsWhere(im, LAMBDA v : v # 0)) IN
  /\ HasDims(out, im.w, im.h, 1)
  /\ \A x \in 0..im.w - 1, y \in 0..im.h - 1 : Px(out, x, y) = NearestDist("L2", fg, x, y)

\* ---- binary morphology
Within(n, k, d) == IF n = "L2" THEN d <= k * k ELSE d <= k
Reach(im, n, k, P(_), yes, no) ==
  LET pts == TLCEval(PtsWhere(im, P)) IN
  TLCEval(MkGray(im.w, im.h, LAMBDA x, y : IF Within(n, k, NearestDist(n, pts, x, y)) THEN yes ELSE no))
Dilate(im, n, k) == Reach(im, n, k, LAMBDA v : v # 0, 255, 0)
Erode(im, n, k) == Reach(im, n, k, LAMBDA v : v = 0, 0, 255)
Morph(f, im, n, k) ==
  CASE f = "dilate" -> Dilate(im, n, k)
    [] f = "erode" -> Erode(im, n, k)
    [] f = "open" -> Dilate(Erode(im, n, k), n, k)
    [] f = "close" -> Erode(Dilate(im, n, k), n, k)

\* ---- masks: sets of offsets
InMask(m, dx, dy) ==
  CASE m.kind = "square" -> Max2(Abs(dx), Abs(dy)) <= m.r
    [] m.kind = "diamond" -> Abs(dx) + Abs(dy) <= m.r
    [] m.kind = "disk" -> dx * dx + dy * dy <= m.r * m.r
    [] m.kind = "image" -> InImg(m.im, dx + m.cx, dy + m.cy) /\ Px(m.im, dx + m.cx, dy + m.cy) # 0
\* only offsets that can lie between two pixels of a w-by-h image
Offsets(m, w, h) == {o \in (1 - w..w - 1) \X (1 - h..h - 1) : InMask(m, o[1], o[2])}
Reduce(im, offs, neutral, F(_, _)) ==
  TLCEval(MkGray(im.w, im.h, LAMBDA x, y :
    FoldSet(LAMBDA o, a : IF InImg(im, x + o[1], y + o[2]) THEN F(Px(im, x + o[1], y + o[2]), a) ELSE a, neutral, offs)))
GDilate(im, offs) == Reduce(im, offs, 0, Max2)
GErode(im, offs) == Reduce(im, offs, 255, Min2)
Gray(f, im, offs) ==
  CASE f = "dilate" -> GDilate(im, offs)
    [] f = "erode" -> GErode(im, offs)
    [] f = "open" -> GDilate(GErode(im, offs), offs)
    [] f = "close" -> GErode(GDilate(im, offs), offs)

-----------------------------------------------------------------------------
MorphPost(reg, e) ==
  CASE e.op = "begin" -> e.im
    [] e.op = "s_morph" -> Morph(e.f, reg, e.n, e.k)
    [] OTHER -> 0
MorphAccept(reg, e, new) ==
  CASE e.op = "begin" -> TRUE
    [] e.op = "dt" -> Ok(e) /\ \A i \in 1..Len(e.out) : IF i > 1 /\ e.out[i] = e.out[1] THEN TRUE ELSE DtOk(e.out[i], e.im, e.n)
    [] e.op = "edt" -> Ok(e) /\ EdtOk(e.out, e.im)
    [] e.op = "morph" -> Ok(e) /\ LET r == Morph(e.f, e.im, e.n, e.k) IN \A i \in 1..Len(e.out) : e.out[i] = r
    [] e.op = "s_morph" -> Ok(e) /\ e.out = new
    [] e.op = "gray" -> Ok(e) /\ e.out = Gray(e.f, e.im, TLCEval(Offsets(e.m, e.im.w, e.im.h)))
    [] e.op = "probe" -> \* dilation of a single bright pixel at (ix, iy) shows the mask itself
         Ok(e) /\ GrayIs(e.out, e.w, e.h, LAMBDA x, y : IF InMask(e.m, e.ix - x, e.iy - y) THEN 255 ELSE 0)
    [] e.op = "mask_eq" -> \* two constructions of the same offsets compare equal
         Ok(e) /\ e.out = \A dx, dy \in -e.lim..e.lim : InMask(e.m1, dx, dy) = InMask(e.m2, dx, dy)
    [] e.op = "mask_big" -> IF e.w < 512 /\ e.h < 512 THEN Ok(e) ELSE Panics(e)
    [] OTHER -> FALSE
=============================================================================
