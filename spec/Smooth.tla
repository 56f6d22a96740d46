------------------------------- MODULE Smooth -------------------------------
(* C41, C44, C45.  Gaussian-weighted means, entropy threshold, noise.        *)
(* Sigmas are in tenths; real-valued results are judged within the rounding  *)
(* of the fixed-point tables and of single precision.                        *)
EXTENDS Img, Flo

\* exp(-a/b) for integers a >= 0, b > 0 (b <= 2e6), in ten-thousandths
Gauss(a, b) == LET q == a \div b r == a % b IN
  IF q > 14 THEN 0 ELSE (ExpNeg(q * 1000 + ((r * 1000) \div b)) + 50) \div 100
\* half width of the blur kernel: the whole number not below two sigmas
Half(s) == (2 * s + 9) \div 10
\* weights 1..2h+1 of the truncated Gaussian: exp(-d^2 / 2 sigma^2)
Weights(s) == TLCEval([i \in 1..2 * Half(s) + 1 |-> LET d == i - 1 - Half(s) IN Gauss(50 * d * d, s * s)])
\* one pass along a row (dx = 1) or column, in hundredths of the input unit
Pass(im, W, h, x, y, k, dx, scale) ==
  LET tot == SumSeq(W)
      v == SumTo(Len(W), LAMBDA i : W[i] * PxClampC(im, x + dx * (i - 1 - h), y + (1 - dx) * (i - 1 - h), k))
  IN (scale * (v \div tot)) + (scale * (v % tot)) \div tot
PassImg(im, s, dx, scale) ==
  LET W == Weights(s) IN TLCEval(MkImg(im.w, im.h, im.c, LAMBDA x, y, k : Pass(im, W, Half(s), x, y, k, dx, scale)))
\* samples in hundredths after both passes
BlurImg(im, s) == LET r == PassImg(im, s, 1, 10) IN PassImg(r, s, 0, 10)
\* each pass may lose a fraction below one; 12 hundredths for the tables
BlurOk(o, im, s, loss) ==
  /\ SameDims(o, im)
  /\ LET b == BlurImg(im, s) IN \A i \in 1..Len(o.px) :
       /\ o.px[i] <= b.px[i] + 25
       /\ o.px[i] >= b.px[i] - 25 - loss
Scaled(o, k) == [o EXCEPT !.px = [i \in 1..Len(o.px) |-> k * o.px[i]]]
\* amount a in quarters
SharpOk(o, im, s, a) ==
  /\ SameDims(o, im)
  /\ LET b == BlurImg(im, s) IN \A i \in 1..Len(o.px) :
       LET v == (4 + a) * 100 * im.px[i] - a * b.px[i]  \* in quarter hundredths
           t == 30 * (4 + Abs(a))
       IN /\ 400 * o.px[i] >= Clamp(v - t - 400, 0, 102000) - 400
          /\ 400 * o.px[i] >= Clamp(v - t, 0, 102000) - 400
          /\ 400 * o.px[i] <= Clamp(v + t, 0, 102000)

\* colour weight of two pixels in ten-thousandths, combined with the squared distance q
Dist2(p, q) == SumTo(Len(p), LAMBDA k : (p[k] - q[k]) * (p[k] - q[k]))
BiWeight(e, q, a, b) ==
  CASE e.cd = "gauss" -> (Gauss(50 * q, e.s * e.s) * Gauss(50 * Dist2(a, b), e.sc * e.sc)) \div 10000
    [] e.cd = "one" -> Gauss(50 * q, e.s * e.s)
    [] e.cd = "same" -> IF a = b THEN Gauss(50 * q, e.s * e.s) ELSE 0
BilateralOk(e, o) ==
  LET im == e.im n == 2 * e.r + 1 IN
  /\ SameDims(o, im)
  /\ \A x \in 0..im.w - 1, y \in 0..im.h - 1 :
       LET c == Pixel(im, x, y)
           X(i) == Clamp(x + ((i - 1) % n) - e.r, 0, im.w - 1)
           Y(i) == Clamp(y + ((i - 1) \div n) - e.r, 0, im.h - 1)
           w == TLCEval([i \in 1..n * n |->
                  LET dx == ((i - 1) % n) - e.r dy == ((i - 1) \div n) - e.r IN
                  BiWeight(e, dx * dx + dy * dy, c, Pixel(im, X(i), Y(i)))])
           tot == SumSeq(w)
       IN \A k \in 0..im.c - 1 :
            LET v == SumTo(n * n, LAMBDA i : w[i] * PxC(im, X(i), Y(i), k))
                p == 10 * (v \div tot) + (10 * (v % tot)) \div tot
                s == 10 * PxC(o, x, y, k)
            IN s <= p + e.tol /\ s >= p - 10 - e.tol

\* a single row or column and all colours alike: a weighted mean along the line
BilateralLineOk(e, o) ==
  LET v == e.im.px n == Len(v)
      w == TLCEval([i \in 1..2 * e.r + 1 |-> LET d == i - 1 - e.r IN Gauss(50 * d * d, e.s * e.s)])
      tot == SumSeq(w)
  IN SameDims(o, e.im) /\ \A x \in 1..n :
       LET u == SumTo(2 * e.r + 1, LAMBDA i : w[i] * v[Clamp(x + i - 1 - e.r, 1, n)])
           p == 10 * (u \div tot) + (10 * (u % tot)) \div tot
       IN 10 * o.px[x] \in (p - 13)..(p + 3)

\* ---- C44: entropy of the two classes split at v (in units of 1/100000, up to a constant)
NLnN(n) == IF n = 0 THEN 0 ELSE n * LnTab[n]
Psi(h, v) ==
  LET c == SumTo(v + 1, LAMBDA i : h[i])
      n == SumSeq(h)
      a == SumTo(v + 1, LAMBDA i : NLnN(h[i]))
      b == SumTo(255 - v, LAMBDA i : NLnN(h[v + 1 + i]))
  IN IF c = 0 \/ c = n THEN <<>> ELSE << LnTab[c] - a \div c + LnTab[n - c] - b \div (n - c) >>
KapurSmallOk(o, s) ==
  LET h == TLCEval([v \in 1..256 |-> Cardinality({i \in 1..Len(s) : s[i] = v - 1})])
      p == TLCEval([v \in Range(s) |-> Psi(h, v)])
      best == {p[v][1] : v \in {u \in Range(s) : p[u] # <<>>}}
      mine == Psi(h, o)
  IN o \in 0..255 /\ IF best = {} THEN o = 0 ELSE mine # <<>> /\ mine[1] >= Max(best) - 6

\* natural logarithm of n >= 1 in ten-thousandths
RECURSIVE Ln4(_)
Ln4(n) == IF n <= 400 THEN (LnTab[n] + 5) \div 10
  ELSE 6931 + (IF n % 2 = 0 THEN Ln4(n \div 2) ELSE (Ln4(n \div 2) + Ln4(n \div 2 + 1)) \div 2)
\* levels: <<value, count>> in ascending order; entropy of the levels lo..hi of them, in ten-thousandths
LevelsH(levels, lo, hi) ==
  LET c == SumTo(hi - lo + 1, LAMBDA i : levels[lo + i - 1][2]) lc == Ln4(c) IN
  SumTo(hi - lo + 1, LAMBDA i : LET n == levels[lo + i - 1][2] IN (n * (lc - Ln4(n))) \div c)
KapurLevelsOk(o, levels) ==
  LET m == Len(levels)
      p == TLCEval([k \in 1..m - 1 |-> LevelsH(levels, 1, k) + LevelsH(levels, k + 1, m)])
      mine == {k \in 1..m - 1 : levels[k][1] <= o /\ o < levels[k + 1][1]}
  IN o \in 0..255 /\ IF m = 1 THEN o = 0 ELSE \E k \in mine : p[k] >= Max({p[j] : j \in 1..m - 1}) - 40

\* more than 400 pixels, up to about 20000: the entropies from the counts of the levels that occur
KapurMidOk(o, s) ==
  LET n == Len(s)
      h == TLCEval(FoldLeft(LAMBDA a, v : [a EXCEPT ![v + 1] = @ + 1], [v \in 1..256 |-> 0], s))
      t == TLCEval([v \in 1..256 |-> h[v] * (IF h[v] = 0 THEN 0 ELSE Ln4(h[v]))])
      \* counts and count-weighted logarithms up to each level
      cum(f) == TLCEval(FoldLeft(LAMBDA a, i : Append(a, (IF i = 1 THEN 0 ELSE a[i - 1]) + f[i]), <<>>, [i \in 1..256 |-> i]))
      C == cum(h)  T == cum(t)
      Cand == {v \in 0..254 : h[v + 1] > 0 /\ C[v + 1] < n}
      p == TLCEval([v \in Cand |-> Ln4(C[v + 1]) - T[v + 1] \div C[v + 1] + Ln4(n - C[v + 1]) - (T[256] - T[v + 1]) \div (n - C[v + 1])])
      \* o splits the levels as the highest level not above it does
      below == {v \in Cand : v <= o}
  IN o \in 0..255 /\ IF Cand = {} THEN o = 0 ELSE below # {} /\ C[o + 1] < n /\ p[Max(below)] >= Max(Range(p)) - 15

\* ---- C45
\* black and white have full alpha
BW(c, v) == CASE c = 1 -> <<v>> [] c = 2 -> <<v, 255>> [] c = 3 -> <<v, v, v>> [] c = 4 -> <<v, v, v, 255>>
Sq(x) == x * x
\* k successes out of n at probability r/1000 lie within five standard deviations
Binomial(k, n, r) == \/ Abs(k * 1000 - n * r) <= 1000
                     \/ Sq((k * 1000 - n * r) \div 100) <= 25 * n * ((r * (1000 - r)) \div 10000 + 1)
SaltOk(e, o) ==
  /\ SameDims(o, e.im)
  /\ LET n == Area(e.im)
         P(im, i) == SubSeq(im.px, (i - 1) * im.c + 1, i * im.c)
         kind == TLCEval([i \in 1..n |-> LET p == P(o, i) IN
                   IF p = P(e.im, i) THEN "same" ELSE IF p = BW(o.c, 0) THEN "black" ELSE IF p = BW(o.c, 255) THEN "white" ELSE "bad"])
         cnt(S, k) == Cardinality({i \in S : kind[i] = k})
         changed(S) == cnt(S, "black") + cnt(S, "white")
     IN /\ cnt(1..n, "bad") = 0
        /\ e.rate <= 0 => changed(1..n) = 0
        /\ e.stat =>  \* the input holds neither black nor white
             /\ e.rate >= 1000 => changed(1..n) = n
             /\ Binomial(changed(1..n), n, Clamp(e.rate, 0, 1000))
             \* any column residue, any half
             /\ \A m \in {2, 3, 7} : \A q \in 0..m - 1 : LET S == {i \in 1..n : i % m = q} IN Binomial(changed(S), Cardinality(S), Clamp(e.rate, 0, 1000))
             /\ Binomial(changed(1..n \div 2), n \div 2, Clamp(e.rate, 0, 1000))
             /\ Binomial(cnt(1..n, "black"), changed(1..n), 500)
             \* neighbours are independent
             /\ Binomial(Cardinality({i \in 1..n - 1 : kind[i] = "black" /\ kind[i + 1] = "black"}), n - 1, Sq(Clamp(e.rate, 0, 1000)) \div 4000)
\* constant input e.base; noise of mean e.mean and deviation e.sd (whole numbers), truncated towards zero
GaussNoiseOk(e, o) ==
  LET n == Len(o.px)
      d == TLCEval([i \in 1..n |-> o.px[i] - e.base - e.mean])
      S(F(_)) == SumTo(n, F)
      sum == S(LAMBDA i : d[i])
      var == S(LAMBDA i : d[i] * d[i])
      lag(m) == SumTo(n - m, LAMBDA i : (d[i] * d[i + m]) \div 16)
      in == Cardinality({i \in 1..n : Abs(d[i]) <= e.sd})
      in2 == Cardinality({i \in 1..n : Abs(d[i]) <= 2 * e.sd})
      rt == ISqrt(n) + 1
  IN /\ HasDims(o, e.w, e.h, e.c)
     /\ Abs(sum) <= 5 * e.sd * rt + n
     /\ Abs(var - n * e.sd * e.sd) <= 8 * e.sd * e.sd * rt + n * e.sd
     /\ \A m \in {1, 2, 3, e.w} : Abs(lag(m)) <= (5 * e.sd * e.sd * rt) \div 16 + n
     /\ Binomial(in, n, 683) /\ Binomial(in2, n, 954)

\* how often a normal variable lies below -k/2 deviations, in millionths
Tail6 == <<308538, 158655, 66807, 22750, 6210, 1350, 233>>
\* out: counts of the differences -off, -off + 1, ... (truncation rounds down); n samples
TailsOk(e) ==
  LET n == e.n sd == e.sd L == Len(e.out)
      below(k) == SumTo(e.off - (k * sd) \div 2, LAMBDA i : e.out[i])
      above(k) == SumTo(L - e.off - (k * sd) \div 2, LAMBDA i : e.out[L + 1 - i])
      near(c, k) == LET x == ((n \div 100) * (Tail6[k] \div 10)) \div 1000 \* expected
                    IN Abs(c - x) <= 5 * (ISqrt(x) + 1) + x \div 1000
  IN /\ SumSeq(e.out) = n
     /\ \A k \in 1..7 : near(below(k), k) /\ near(above(k), k)

-----------------------------------------------------------------------------
SmoothPost(reg, e) == 0
AllSame(outs) == \A k \in 2..Len(outs) : outs[k] = outs[1]
SmoothAccept(reg, e, new) ==
  CASE e.op = "blur" -> Ok(e) /\ BlurOk(Scaled(e.out, 100), e.im, e.s, 200)
    [] e.op = "blurf" -> \* single precision samples, in hundredths
         Ok(e) /\ BlurOk(e.out, e.im, e.s, 0)
    [] e.op = "blur_bad" -> Panics(e)
    [] e.op = "sharp" -> Ok(e) /\ SharpOk(e.out, e.im, e.s, e.a)
    [] e.op = "bilateral" -> IF Area(e.im) = 0 THEN Panics(e) ELSE Ok(e) /\ BilateralOk(e, e.out)
    [] e.op = "bilateral_line" -> Ok(e) /\ BilateralLineOk(e, e.out)
    [] e.op = "bilateral_wide" -> \* a constant image, any radius
         Ok(e) /\ SameDims(e.out, e.im) /\ \A i \in 1..Len(e.im.px) : e.out.px[i] \in (e.im.px[i] - 1)..e.im.px[i]
    [] e.op = "kapur" -> Ok(e) /\ (IF Area(e.im) <= 400 THEN KapurSmallOk(e.out, e.im.px) ELSE KapurMidOk(e.out, e.im.px))
    [] e.op = "kapur_levels" -> Ok(e) /\ KapurLevelsOk(e.out, e.levels)
    [] e.op = "tails" -> Ok(e) /\ TailsOk(e)
    [] e.op = "salt" -> Ok(e) /\ AllSame(e.out) /\ SaltOk(e, e.out[1])
    [] e.op = "noise0" -> Ok(e) /\ AllSame(e.out) /\ SameDims(e.out[1], e.im) /\ \A i \in 1..Len(e.im.px) : e.out[1].px[i] = Clamp(TDiv(4 * e.im.px[i] + e.mean4, 4), 0, e.hi)
    [] e.op = "noise" -> Ok(e) /\ AllSame(e.out) /\ GaussNoiseOk(e, e.out[1])
    [] e.op = "seeds" -> Ok(e) /\ e.out = <<TRUE, TRUE>>
    [] OTHER -> FALSE
=============================================================================
