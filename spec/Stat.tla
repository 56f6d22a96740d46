-------------------------------- MODULE Stat --------------------------------
(* C08-C12.  Prefix sums, sample statistics, thresholds, contrast remaps.    *)
EXTENDS Img, Big

Sq(x) == x * x
\* sum of F over the pixels of channel k in the half-open rectangle
RectSum(im, x0, y0, x1, y1, k, F(_)) ==
  LET w == x1 - x0 IN
  IF w <= 0 \/ y1 <= y0 THEN 0
  ELSE SumTo(w * (y1 - y0), LAMBDA i : F(PxC(im, x0 + ((i - 1) % w), y0 + ((i - 1) \div w), k)))
Identity(x) == x
\* large tables: the defining recurrence at every entry (equivalent, linear cost)
IntegralRec(out, im, F(_)) ==
  /\ HasDims(out, im.w + 1, im.h + 1, im.c)
  /\ \A x \in 0..im.w, k \in 0..(im.c - 1) : PxC(out, x, 0, k) = 0
  /\ \A y \in 1..im.h, k \in 0..(im.c - 1) :
       /\ PxC(out, 0, y, k) = 0
       /\ \A x \in 1..im.w : PxC(out, x, y, k) - PxC(out, x - 1, y, k)
             = PxC(out, x, y - 1, k) - PxC(out, x - 1, y - 1, k) + F(PxC(im, x - 1, y - 1, k))
IntegralOk(out, im, F(_)) ==
  IF im.w * im.h > 400 THEN IntegralRec(out, im, F) ELSE
  ImgIs(out, im.w + 1, im.h + 1, im.c, LAMBDA x, y, k : RectSum(im, 0, 0, x, y, k, F))

\* samples of a row / column as a sequence
Row(im, y) == TLCEval([i \in 1..im.w |-> Px(im, i - 1, y)])
Col(im, x) == TLCEval([i \in 1..im.h |-> Px(im, x, i - 1)])
\* i-th (1-based) sample of a line extended by padding on the left and
\* replicated to any length on the right
Padded(line, pad, i) == line[Clamp(i - pad, 1, Len(line))]
RunningOk(buf, line, pad, len) ==
  /\ Len(buf) = len
  /\ len > 0 => buf[1] = Padded(line, pad, 1)
  /\ \A i \in 2..len : buf[i] = buf[i - 1] + Padded(line, pad, i)

\* ---- histograms of one channel
Chan(im, k) == [i \in 1..(im.w * im.h) |-> im.px[(i - 1) * im.c + k + 1]]
Count(s, P(_)) == FoldLeft(LAMBDA a, v : IF P(v) THEN a + 1 ELSE a, 0, s)
CountIn(s, v) == Count(s, LAMBDA u : u = v)
Cum(s, v) == Count(s, LAMBDA u : u <= v)
HistOk(h, s) == /\ Len(h) = 256
                /\ \A v \in Range(s) : h[v + 1] = CountIn(s, v)
                /\ SumSeq(h) = Len(s)
CumOk(h, s) == /\ Len(h) = 256
               /\ h[1] = CountIn(s, 0)
               /\ \A v \in 1..255 : h[v + 1] >= h[v]
               /\ \A v \in Range(s) : h[v + 1] = Cum(s, v)
               /\ h[256] = Len(s)
               \* constant between occurring values
               /\ \A v \in 1..255 : h[v + 1] # h[v] => v \in Range(s)
PercentileOk(v, s, p) == /\ 100 * Cum(s, v) >= p * Len(s)
                         /\ v > 0 => 100 * Cum(s, v - 1) < p * Len(s)
MaxOf(s) == FoldLeft(LAMBDA a, v : Max2(a, v), s[1], s)
MinOf(s) == FoldLeft(LAMBDA a, v : Min2(a, v), s[1], s)
SqDiff(a, b) == SumTo(Len(a), LAMBDA i : Sq(a[i] - b[i]))

\* ---- thresholds
Thresh(t, s, ty) ==
  CASE ty = "b" -> IF s > t THEN 255 ELSE 0
    [] ty = "bi" -> IF s > t THEN 0 ELSE 255
    [] ty = "tr" -> Min2(s, t)
    [] ty = "z" -> IF s > t THEN 0 ELSE s
    [] ty = "zi" -> IF s > t THEN s ELSE 0
Stretch(s, il, iu, ol, ou) ==
  IF s <= il THEN ol ELSE IF s >= iu THEN ou ELSE ol + ((s - il) * (ou - ol)) \div (iu - il)
\* number of colour channels (alpha is not stretched)
Colour(c) == IF c = 2 THEN 1 ELSE IF c = 4 THEN 3 ELSE c

\* ---- remaps
\* floor(255 C / N); at exact integers single precision may land just below
EqualizeOk(v, C, N) == /\ v * N <= 255 * C
                       /\ \/ (v + 1) * N > 255 * C
                          \/ (v + 1) * N = 255 * C /\ C # N
MatchOk(v, s, t, i) ==
  LET N == Len(s) M == Len(t) S == TLCEval(Cum(s, i))
      D(j) == Abs(Cum(t, j) * N - S * M)
  IN v \in 0..255 /\ \A j \in {v - 1, v + 1} \cup Range(t) \cup {t[k] - 1 : k \in 1..M} :
        j \in 0..255 => D(v) <= D(j)

\* input level / output level pairs that occur; a monotone function of the level
LevelPairs(im, o) == {<<im.px[i], o.px[i]>> : i \in 1..Len(o.px)}
MonotoneMap(P) == \A p, q \in P : p[1] <= q[1] => p[2] <= q[2]

\* ---- adaptive threshold, Otsu
\* means and samples are 0..255, so larger deltas and radii than these change nothing
Near(delta) == Clamp(delta, -1000, 1000)
AdaptiveAt(im, r0, delta, x, y) ==
    LET r == Min2(r0, im.w + im.h)
        x0 == Max2(0, x - r) x1 == Min2(im.w, x + r + 1)
        y0 == Max2(0, y - r) y1 == Min2(im.h, y + r + 1)
    IN IF Px(im, x, y) >= RectSum(im, x0, y0, x1, y1, 0, Identity) \div ((x1 - x0) * (y1 - y0)) - Near(delta)
       THEN 255 ELSE 0
AdaptiveOk(out, im, r, delta) == GrayIs(out, im.w, im.h, LAMBDA x, y : AdaptiveAt(im, r, delta, x, y))
\* v everywhere but for one u, in blocks that cover the image: the mean is v, or v - 1 when u < v
AdaptiveOne(out, n, v, u, delta) ==
  LET off == u - v  \* mean = v + floor(off / n)
      mean == v + off \div n
      A(s) == IF s >= mean - Near(delta) THEN 255 ELSE 0
  IN out = <<IF A(v) = 255 THEN n - 1 ELSE 0, IF A(v) = 0 THEN n - 1 ELSE 0, A(u)>>
\* between-class variance of the split at level v, as <<numerator, denominator>>
\* (big integers: any image size)
Between(s, v) ==
  LET wb == Cum(s, v)  wf == Len(s) - wb
      sb == FoldLeft(LAMBDA a, u : IF u <= v THEN a + u ELSE a, 0, s)
      sf == SumSeq(s) - sb
      p == BProd(sb, wf)  q == BProd(sf, wb)
      \* sb wf <= sf wb always: the background mean is below the foreground mean
      d == BSub(q, p)
  IN IF wb = 0 \/ wf = 0 THEN <<BN(0), BN(1)>> ELSE <<BMul(d, d), BProd(wb, wf)>>
OtsuOk(v, s) ==
  LET b == TLCEval(Between(s, v)) IN
  v \in 0..255 /\ \A j \in Range(s) : LET c == TLCEval(Between(s, j)) IN BLeq(BMul(c[1], b[2]), BMul(b[1], c[2]))

-----------------------------------------------------------------------------
StatPost(reg, e) == 0
EveryOut(outs, P(_)) == \A i \in 1..Len(outs) : P(outs[i])
StatAccept(reg, e, new) ==
  CASE e.op = "integral" -> Ok(e) /\ EveryOut(e.out, LAMBDA o : IntegralOk(o, e.im, Identity))
    [] e.op = "integral_sq" -> Ok(e) /\ EveryOut(e.out, LAMBDA o : IntegralOk(o, e.im, Sq))
    [] e.op = "sums" -> \* rs: inclusive rectangles, out: one sum per channel
         Ok(e) /\ \A i \in 1..Len(e.rs) : LET r == e.rs[i] IN
           e.out[i] = [k \in 1..e.im.c |-> RectSum(e.im, r[1], r[2], r[3] + 1, r[4] + 1, k - 1, Identity)]
    [] e.op = "variance" -> \* out: variance times n^2 as base-2^14 limbs
         Ok(e) /\ \A i \in 1..Len(e.rs) :
           LET r == e.rs[i]
               n == (r[3] - r[1] + 1) * (r[4] - r[2] + 1)
               s == RectSum(e.im, r[1], r[2], r[3] + 1, r[4] + 1, 0, Identity)
               q == RectSum(e.im, r[1], r[2], r[3] + 1, r[4] + 1, 0, Sq)
           IN BEq(BAdd(e.out[i], BProd(s, s)), BProd(n, q))
    [] e.op = "row_sum" ->
         IF e.n >= e.im.w + 2 * e.pad /\ e.i < e.im.h /\ e.im.w > 0
         THEN Ok(e) /\ RunningOk(e.out, Row(e.im, e.i), e.pad, e.n) ELSE Panics(e)
    [] e.op = "col_sum" ->
         IF e.n >= e.im.h + 2 * e.pad /\ e.i < e.im.w /\ e.im.h > 0
         THEN Ok(e) /\ RunningOk(e.out, Col(e.im, e.i), e.pad, e.n) ELSE Panics(e)
    [] e.op = "hist" -> Ok(e) /\ Len(e.out[1]) = e.im.c /\ Len(e.out[2]) = e.im.c
         /\ \A k \in 1..e.im.c : LET s == TLCEval(Chan(e.im, k - 1)) IN
              HistOk(e.out[1][k], s) /\ CumOk(e.out[2][k], s)
    [] e.op = "percentile" ->
         Ok(e) /\ \A i \in 1..Len(e.ps) : PercentileOk(e.out[i], e.im.px, e.ps[i])
    [] e.op = "percentile_bad" -> Panics(e)
    [] e.op = "min_max" ->
         IF Area(e.im) = 0 THEN Panics(e)
         ELSE Ok(e) /\ e.out = [k \in 1..e.im.c |-> LET s == Chan(e.im, k - 1) IN <<MinOf(s), MaxOf(s)>>]
    [] e.op \in {"rmse", "rmse16"} -> \* out[1] = round(16 rmse), out[2] = round(1000 psnr) or the infinity sentinel
         IF ~(e.a.w = e.b.w /\ e.a.h = e.b.h) THEN Panics(e)
         ELSE Ok(e) /\ LET S == SqDiff(e.a.px, e.b.px)  n == Len(e.a.px)  r == e.out[1]
                          top == IF e.op = "rmse" THEN 48131 ELSE 96329  \* 20000 log10 of the largest sample
                      IN
              /\ r = 0 \/ BLeq(BProd(Sq(2 * r - 1), n), BAdd(BProd(1024, S), BN(n)))
              /\ r >= 0 /\ BLeq(BProd(1024, S), BAdd(BProd(Sq(2 * r + 1), n), BN(n)))
              /\ (S = 0) <=> (e.out[2] = 2147483647)
              /\ S = n => e.out[2] = top
              /\ S = 100 * n => e.out[2] = top - 20000
              /\ S = 10000 * n => e.out[2] = top - 40000
    [] e.op = "extremes" ->
         IF Area(e.im) = 0 THEN Panics(e)
         ELSE Ok(e) /\ LET s == e.im.px  mx == MaxOf(s)  mn == MinOf(s)
                           First(v) == CHOOSE i \in 1..Len(s) : s[i] = v /\ \A j \in 1..(i - 1) : s[j] # v
                           At(i) == <<(i - 1) % e.im.w, (i - 1) \div e.im.w>>
              IN e.out = <<mx, mn, At(First(mx)), At(First(mn))>>
    [] e.op = "threshold" -> Ok(e) /\ EveryOut(e.out, LAMBDA o :
         /\ SameDims(o, e.im) /\ \A i \in 1..Len(o.px) : o.px[i] = Thresh(e.t, e.im.px[i], e.ty))
    [] e.op = "stretch" ->
         IF e.il >= e.iu \/ e.ol > e.ou THEN Panics(e)
         ELSE Ok(e) /\ EveryOut(e.out, LAMBDA o :
            /\ SameDims(o, e.im)
            /\ \A i \in 1..Len(o.px) : o.px[i] =
                 IF (i - 1) % e.im.c < Colour(e.im.c) THEN Stretch(e.im.px[i], e.il, e.iu, e.ol, e.ou) ELSE e.im.px[i])
    [] e.op = "equalize" -> Ok(e) /\ EveryOut(e.out, LAMBDA o :
         /\ SameDims(o, e.im)
         /\ LET P == TLCEval(LevelPairs(e.im, o)) IN
              /\ MonotoneMap(P)
              /\ \A p \in P : EqualizeOk(p[2], Cum(e.im.px, p[1]), Len(o.px)))
    [] e.op = "match" -> Ok(e) /\ EveryOut(e.out, LAMBDA o :
         /\ SameDims(o, e.im)
         /\ LET P == TLCEval(LevelPairs(e.im, o)) IN
              /\ MonotoneMap(P)
              /\ \A p \in P : MatchOk(p[2], e.im.px, e.target.px, p[1]))
    [] e.op = "adaptive" ->
         IF e.r = 0 THEN Panics(e)
         ELSE Ok(e) /\ AdaptiveOk(e.out, e.im, e.r, e.delta)
    [] e.op = "adapt_one" -> Ok(e) /\ AdaptiveOne(e.out, e.w * e.h, e.v, e.u, e.delta)
    [] e.op = "adapt_part" -> \* the part of the output from (x0, y0) on
         Ok(e) /\ SameDims(e.out, e.im) /\ \A x \in e.x0..(e.im.w - 1), y \in e.y0..(e.im.h - 1) :
           Px(e.out, x, y) = AdaptiveAt(e.im, e.r, e.delta, x, y)
    [] e.op = "otsu" -> Ok(e) /\ OtsuOk(e.out, e.im.px)
    [] OTHER -> FALSE
=============================================================================
