------------------------------- MODULE Filter -------------------------------
(* C04-C07.  Neighbourhood operators: kernel correlation, box mean, median,  *)
(* gradients.  Border pixels replicate.                                      *)
EXTENDS Img

\* kernel: [w, h, d], centred at (w \div 2, h \div 2)
Corr(im, kn, x, y, c) ==
  SumTo(kn.w * kn.h, LAMBDA i :
     LET kx == (i - 1) % kn.w  ky == (i - 1) \div kn.w IN
     IF kn.d[i] = 0 THEN 0
     ELSE kn.d[i] * PxClampC(im, x + kx - kn.w \div 2, y + ky - kn.h \div 2, c))
Filtered(out, im, kn, lo, hi) ==
  ImgIs(out, im.w, im.h, im.c, LAMBDA x, y, c : Clamp(Corr(im, kn, x, y, c), lo, hi))
FilterImg(im, kn, lo, hi) ==
  TLCEval(MkImg(im.w, im.h, im.c, LAMBDA x, y, c : Clamp(Corr(im, kn, x, y, c), lo, hi)))
HKern(d) == [w |-> Len(d), h |-> 1, d |-> d]
VKern(d) == [w |-> 1, h |-> Len(d), d |-> d]
K3(d) == [w |-> 3, h |-> 3, d |-> d]
FourLaplacian == K3(<<0, 1, 0, 1, -4, 1, 0, 1, 0>>)
EightLaplacian == K3(<<1, 1, 1, 1, -8, 1, 1, 1, 1>>)
Sharpen == K3(<<0, -1, 0, -1, 5, -1, 0, -1, 0>>)
Transpose(k) == [w |-> k.h, h |-> k.w, d |-> [i \in 1..(k.w * k.h) |->
                   LET c == (i - 1) % k.h  r == (i - 1) \div k.h IN k.d[c * k.w + r + 1]]]
\* smoothing (a, b, a) down, differences across
Diff3(a, b) == K3(<<-a, 0, a, -b, 0, b, -a, 0, a>>)
SobelH == Diff3(1, 2)
ScharrH == Diff3(3, 10)
PrewittH == Diff3(1, 1)
RobertsH == [w |-> 2, h |-> 2, d |-> <<1, 0, 0, -1>>]
RobertsV == [w |-> 2, h |-> 2, d |-> <<0, 1, -1, 0>>]
NamedKernel(n) ==
  CASE n = "sobel_h" -> SobelH      [] n = "sobel_v" -> Transpose(SobelH)
    [] n = "scharr_h" -> ScharrH    [] n = "scharr_v" -> Transpose(ScharrH)
    [] n = "prewitt_h" -> PrewittH  [] n = "prewitt_v" -> Transpose(PrewittH)
    [] n = "roberts_h" -> RobertsH  [] n = "roberts_v" -> RobertsV
    [] n = "lap4" -> FourLaplacian  [] n = "lap8" -> EightLaplacian
    [] n = "sharpen" -> Sharpen

\* ---- box: mean along the row, then mean of the means along the column
\* means of the windows -r..r of a line of n samples V(0..n-1) whose ends replicate, from its sums s
LineSums(V(_), n) == TLCEval(FoldLeft(LAMBDA s, k : Append(s, s[k] + V(k - 1)), <<0>>, [k \in 1..n |-> k]))
LineMeans(V(_), n, r) ==
  LET s == LineSums(V, n) IN
  TLCEval([k \in 1..n |->
    LET i == k - 1 lo == Max2(0, i - r)  hi == Min2(n - 1, i + r)
    IN (s[hi + 2] - s[lo + 1] + Max2(0, r - i) * V(0) + Max2(0, i + r - (n - 1)) * V(n - 1)) \div (2 * r + 1)])
Boxed(out, im, rx, ry) ==
  LET row == TLCEval([y \in 1..im.h |-> LineMeans(LAMBDA i : Px(im, i, y - 1), im.w, rx)])
      col == TLCEval([x \in 1..im.w |-> LineMeans(LAMBDA i : row[i + 1][x], im.h, ry)])
  IN GrayIs(out, im.w, im.h, LAMBDA x, y : col[x + 1][y + 1])

\* ---- median: v is the middle of the sorted window samples
IsMedian(im, x, y, c, rx, ry, v) ==
  LET W == 2 * rx + 1  H == 2 * ry + 1  n == W * H
      S(i) == PxClampC(im, x + ((i - 1) % W) - rx, y + ((i - 1) \div W) - ry, c)
      less == SumTo(n, LAMBDA i : IF S(i) < v THEN 1 ELSE 0)
      leq == SumTo(n, LAMBDA i : IF S(i) <= v THEN 1 ELSE 0)
  IN 2 * less < n /\ 2 * leq > n
MedianOk(out, im, rx, ry) ==
  /\ SameDims(out, im)
  /\ \A i \in 1..Len(im.px) :
       LET q == (i - 1) \div im.c IN
       IsMedian(im, q % im.w, q \div im.w, (i - 1) % im.c, rx, ry, out.px[i])

\* ---- gradient magnitude, rounded down (f32 keeps n exact below 2^24; above, the sum of squares
\* and its root are each within an f32 rounding error)
IsRoot(r, n) == IF n < 16777216 THEN r * r <= n /\ (r + 1) * (r + 1) > n
                ELSE LET t == n \div 4194304 + 2 IN
                     r <= 46340 /\ r * r - t <= n /\ (r = 46340 \/ (r + 1) * (r + 1) > n - t)
MagOk(m, hx, vx) == IF hx = -32768 /\ vx = -32768 THEN m \in {46340, 46341}
                    ELSE IsRoot(m, hx * hx + vx * vx)
\* the driver's channel maps
GradOk(out, im, kh, kv, f) ==
  LET H(x, y, c) == Clamp(Corr(im, kh, x, y, c), -32768, 32767)
      V(x, y, c) == Clamp(Corr(im, kv, x, y, c), -32768, 32767)
  IN IF f = "id"
     THEN /\ SameDims(out, im)
          /\ \A i \in 1..Len(im.px) :
               LET q == (i - 1) \div im.c  x == q % im.w  y == q \div im.w  c == (i - 1) % im.c
               IN MagOk(out.px[i], H(x, y, c), V(x, y, c))
     ELSE \* "max": the largest channel magnitude
          /\ HasDims(out, im.w, im.h, 1)
          /\ \A x \in 0..im.w - 1, y \in 0..im.h - 1 :
               LET m == Px(out, x, y)
                   n(c) == H(x, y, c) * H(x, y, c) + V(x, y, c) * V(x, y, c)
               IN /\ \E c \in 0..im.c - 1 : IsRoot(m, n(c))
                  /\ \A c \in 0..im.c - 1 : (m + 1) * (m + 1) > n(c)

-----------------------------------------------------------------------------
FilterPost(reg, e) == 0
Every(outs, P(_)) == \A i \in 1..Len(outs) : P(outs[i])
FilterAccept(reg, e, new) ==
  CASE e.op = "kernel_new" ->
         IF e.w > 0 /\ e.h > 0 /\ e.w * e.h = Len(e.d)
         THEN Ok(e) /\ e.out = e.d
         ELSE Panics(e)
    [] e.op = "filter" -> Ok(e) /\ LET r == FilterImg(e.im, e.k, e.lo, e.hi) IN Every(e.out, LAMBDA o : o = r)
    [] e.op = "filter_div" -> \* caller's function: divide by e.q towards zero, then clamp to u8
         Ok(e) /\ Every(e.out, LAMBDA o : ImgIs(o, e.im.w, e.im.h, e.im.c,
                     LAMBDA x, y, c : Clamp(TDiv(Corr(e.im, e.k, x, y, c), e.q), 0, 255)))
    [] e.op = "hfilter" -> Ok(e) /\ Every(e.out, LAMBDA o : Filtered(o, e.im, HKern(e.k), 0, e.hi))
    [] e.op = "vfilter" -> Ok(e) /\ Every(e.out, LAMBDA o : Filtered(o, e.im, VKern(e.k), 0, e.hi))
    [] e.op = "separable" ->
         IF Len(e.hk) # Len(e.vk) THEN Panics(e)
         ELSE Ok(e) /\ Every(e.out, LAMBDA o : Filtered(o, FilterImg(e.im, HKern(e.hk), 0, e.hi), VKern(e.vk), 0, e.hi))
    [] e.op = "named" -> Ok(e) /\ LET r == FilterImg(e.im, NamedKernel(e.n), e.lo, e.hi) IN Every(e.out, LAMBDA o : o = r)
    [] e.op = "box" -> Ok(e) /\ Boxed(e.out, e.im, e.rx, e.ry)
    [] e.op = "median" -> Ok(e) /\ MedianOk(e.out, e.im, e.rx, e.ry)
    [] e.op = "grad" -> Ok(e) /\ Every(e.out, LAMBDA o : GradOk(o, e.im, NamedKernel(e.kh), NamedKernel(e.kv), e.f))
    [] e.op = "gradk" -> Ok(e) /\ Every(e.out, LAMBDA o : GradOk(o, e.im, e.kh, e.kv, e.f))
    [] OTHER -> FALSE
=============================================================================
