------------------------------ MODULE Feature ------------------------------
(* C27-C30, C33, C34, C43.  Local features: non-maximum suppression, FAST    *)
(* corners, local binary patterns, Haar features, BRIEF, Hough lines.        *)
EXTENDS Img, Trig

\* ---- C27
\* (x, y) beats (u, v): greater, or equal and first by column then row
Beats(im, x, y, u, v) == LET a == Px(im, x, y) b == Px(im, u, v) IN
  a > b \/ (a = b /\ (x < u \/ (x = u /\ y < v)))
Suppressed(im, r) ==
  TLCEval(MkGray(im.w, im.h, LAMBDA x, y :
    IF \E u \in Max2(0, x - r)..Min2(im.w - 1, x + r), v \in Max2(0, y - r)..Min2(im.h - 1, y + r) : Beats(im, u, v, x, y)
    THEN 0 ELSE Px(im, x, y)))
\* scored points <<x, y, score>>; ties go to the first by row then column
LocalMax(ps, r) ==
  SelectSeq(ps, LAMBDA p : ~\E k \in 1..Len(ps) : LET q == ps[k] IN
    /\ Abs(q[1] - p[1]) <= r /\ Abs(q[2] - p[2]) <= r
    /\ q[3] > p[3] \/ (q[3] = p[3] /\ (q[2] < p[2] \/ (q[2] = p[2] /\ q[1] < p[1]))))
SameBag(s, t) == Len(s) = Len(t) /\ \A k \in 1..Len(s) :
  Cardinality({j \in 1..Len(s) : s[j] = s[k]}) = Cardinality({j \in 1..Len(t) : t[j] = s[k]})

\* ---- C28: the 16 pixels of the circle of radius 3
Circle16 == << <<0, -3>>, <<1, -3>>, <<2, -2>>, <<3, -1>>, <<3, 0>>, <<3, 1>>, <<2, 2>>, <<1, 3>>,
               <<0, 3>>, <<-1, 3>>, <<-2, 2>>, <<-3, 1>>, <<-3, 0>>, <<-3, -1>>, <<-2, -2>>, <<-1, -3>> >>
\* largest d such that n contiguous circle pixels all differ from the centre by at least d in the same direction
Contrast(im, x, y, n) ==
  IF x < 3 \/ y < 3 \/ x > im.w - 4 \/ y > im.h - 4 THEN 0
  ELSE LET d == TLCEval([k \in 1..16 |-> Px(im, x + Circle16[k][1], y + Circle16[k][2]) - Px(im, x, y)])
           arc(s) == {d[((s + j) % 16) + 1] : j \in 0..n - 1}
       IN Max({0} \cup {Min(arc(s)) : s \in 0..15} \cup {-Max(arc(s)) : s \in 0..15})
FastCorners(im, t, n) ==
  LET c == TLCEval([i \in 1..Area(im) |-> Contrast(im, (i - 1) % im.w, (i - 1) \div im.w, n)])
      ids == SelectSeq([i \in 1..Area(im) |-> i], LAMBDA i : c[i] > t)
  IN [k \in 1..Len(ids) |-> <<(ids[k] - 1) % im.w, (ids[k] - 1) \div im.w, c[ids[k]] - 1>>]
FastScore(im, t, n, x, y) == Max2(t, Contrast(im, x, y, n) - 1)

\* ---- C43: oriented FAST; out: <<x, y, score, 10000 cos, 10000 sin>>
\* intensity centroid of the (2r+1)-square around a pixel, clipped to the image
Centroid(im, x, y, r) ==
  LET x0 == Max2(-r, -x) x1 == Min2(r, im.w - 1 - x)
      y0 == Max2(-r, -y) y1 == Min2(r, im.h - 1 - y)
      n == x1 - x0 + 1 m == y1 - y0 + 1
      row(dy) == SumTo(n, LAMBDA k : Px(im, x + x0 + k - 1, y + dy))
      rowx(dy) == SumTo(n, LAMBDA k : (x0 + k - 1) * Px(im, x + x0 + k - 1, y + dy))
  IN << SumTo(m, LAMBDA j : rowx(y0 + j - 1)), SumTo(m, LAMBDA j : (y0 + j - 1) * row(y0 + j - 1)) >>
\* (c, s) in ten-thousandths points along v (components up to 4e6), to about 1/300
Along(v, c, s) ==
  LET m == Max2(Abs(v[1]), Abs(v[2]))
      f == IF m > 20000 THEN m \div 10000 ELSE 1
      a == v[1] \div f b == v[2] \div f mm == m \div f
  IN IF m = 0 THEN s = 0 /\ c = 10000
     ELSE IF m < 1000 THEN Abs(a * s - b * c) <= 100 * mm /\ a * c + b * s > 0
     ELSE Abs(a * s - b * c) <= 40 * mm /\ a * c + b * s > 0
OrientedOk(e) ==
  LET im == e.im r == e.margin o == e.out
      all == TLCEval(FastCorners(im, 0, 9))
      inner == SelectSeq(all, LAMBDA c : c[1] >= r /\ c[2] >= r /\ c[1] < im.w - r /\ c[2] < im.h - r)
      top(t) == SelectSeq(inner, LAMBDA c : c[3] >= t)
      got == [k \in 1..Len(o) |-> SubSeq(o[k], 1, 3)]
      \* the n best of a list, whichever of equal ones
      best(s) == /\ Len(got) = Min2(e.n, Len(s))
                 /\ \A k \in 1..Len(got) : got[k] \in {s[j] : j \in 1..Len(s)}
                 /\ Cardinality({got[k] : k \in 1..Len(got)}) = Len(got)
                 /\ \A k \in 1..Len(got) - 1 : got[k][3] >= got[k + 1][3]
                 /\ \A j \in 1..Len(s) : Len(got) > 0 /\ s[j][3] > got[Len(got)][3] => s[j] \in {got[k] : k \in 1..Len(got)}
  IN /\ IF e.t = <<>> THEN \E t \in 0..255 : best(top(t)) ELSE best(top(e.t[1]))
     /\ \A k \in 1..Min2(Len(o), 24) :
          Along(Centroid(im, o[k][1], o[k][2], 15), o[k][4], o[k][5])

\* many corners: k-by-k bright dots on black, four apart, so that each is a corner of contrast its value and nothing
\* else is one; e.margin is the distance to the border; n is -1 where all are wanted
Dot(i, j) == 40 + ((7 * i + 13 * j) % 200)
DotsOk(e) ==
  LET k == e.k W == 4 * k + 3 o == e.out
      far(i) == LET x == 4 * i + 3 IN x >= e.margin /\ x < W - e.margin
      cnt == TLCEval([v \in 40..240 |-> Cardinality({d \in (0..k - 1) \X (0..k - 1) : far(d[1]) /\ far(d[2]) /\ Dot(d[1], d[2]) = v})])
      above(v) == SumTo(240 - v, LAMBDA q : cnt[v + q])
      all == above(Max2(39, Min2(240, e.t)))
      at(q) == q[1] % 4 = 3 /\ q[2] % 4 = 3 /\ far(q[1] \div 4) /\ far(q[2] \div 4) /\ q[1] < W /\ q[2] < W
                 /\ q[3] = Dot(q[1] \div 4, q[2] \div 4) - 1 /\ q[3] >= e.t
  IN /\ Len(o) = IF e.n < 0 THEN all ELSE Min2(e.n, all)
     /\ \A i \in 1..Len(o) : at(o[i])
     /\ Cardinality({<<o[i][1], o[i][2]>> : i \in 1..Len(o)}) = Len(o)
     /\ e.n >= 0 /\ Len(o) > 0 =>
          /\ \A i \in 1..Len(o) - 1 : o[i][3] >= o[i + 1][3]
          /\ above(Max2(39, o[Len(o)][3] + 1)) = Cardinality({i \in 1..Len(o) : o[i][3] > o[Len(o)][3]})

\* ---- C29: bits clockwise from the north, set where the centre is strictly brighter
Lbp8 == << <<0, -1>>, <<1, -1>>, <<1, 0>>, <<1, 1>>, <<0, 1>>, <<-1, 1>>, <<-1, 0>>, <<-1, -1>> >>
Lbp(im, x, y) ==
  IF x < 1 \/ y < 1 \/ x > im.w - 2 \/ y > im.h - 2 THEN <<>>
  ELSE << SumTo(8, LAMBDA k : IF Px(im, x + Lbp8[k][1], y + Lbp8[k][2]) < Px(im, x, y) THEN 2 ^ (k - 1) ELSE 0) >>
Bit(b, k) == (b \div 2 ^ k) % 2
Rot(b, n) == SumTo(8, LAMBDA k : Bit(b, (k - 1 + n) % 8) * 2 ^ (k - 1))
MinShift(b) == Min({Rot(b, n) : n \in 0..7})
Transitions(b) == SumTo(8, LAMBDA k : IF Bit(b, k - 1) # Bit(b, k % 8) THEN 1 ELSE 0)
Uniform2(b) == IF Transitions(b) <= 2 THEN MinShift(b) ELSE 170

\* ---- C30: a feature is the picture it draws: 1 on its white, -1 on its black blocks, 0 elsewhere
Shapes == {<<2, 1>>, <<3, 1>>, <<1, 2>>, <<1, 3>>, <<2, 2>>}
HaarPic(w, h, s, bw, bh, l, t, sg) ==
  [i \in 1..(w * h) |-> LET x == ((i - 1) % w) - l y == (i - 1) \div w - t IN
     IF x < 0 \/ y < 0 \/ x >= s[1] * bw \/ y >= s[2] * bh THEN 0
     ELSE IF (x \div bw + y \div bh) % 2 = 0 THEN sg ELSE -sg]
HaarAll(w, h) ==
  UNION {UNION {{HaarPic(w, h, s, b[1], b[2], l, t, sg) : l \in 0..(w - s[1] * b[1]), t \in 0..(h - s[2] * b[2]), sg \in {1, -1}}
     : b \in (1..(w \div s[1])) \X (1..(h \div s[2]))} : s \in Shapes}
\* number of positions of n blocks of equal size along a side
Along1(side, n) == SumTo(side \div n, LAMBDA b : side - n * b + 1)
HaarCount(w, h) == 2 * (Along1(w, 2) * Along1(h, 1) + Along1(w, 3) * Along1(h, 1) + Along1(w, 1) * Along1(h, 2)
                        + Along1(w, 1) * Along1(h, 3) + Along1(w, 2) * Along1(h, 2))
IsFeature(f) == \* f = <<shape w, shape h, block w, block h, left, top, sign>> fits the frame
  LET s == <<f[1], f[2]>> IN s \in Shapes /\ f[3] > 0 /\ f[4] > 0 /\ f[5] >= 0 /\ f[6] >= 0 /\ f[7] \in {1, -1}
HaarValue(im, f) ==
  SumTo(f[1] * f[3] * f[2] * f[4], LAMBDA k :
    LET x == (k - 1) % (f[1] * f[3]) y == (k - 1) \div (f[1] * f[3]) IN
    (IF (x \div f[3] + y \div f[4]) % 2 = 0 THEN f[7] ELSE -f[7]) * Px(im, f[5] + x, f[6] + y))
HaarDrawn(im, f, white, black) ==
  MkImg(im.w, im.h, im.c, LAMBDA px, py, k : LET x == px - f[5] y == py - f[6] IN
    IF x < 0 \/ y < 0 \/ x >= f[1] * f[3] \/ y >= f[2] * f[4] THEN PxC(im, px, py, k)
    ELSE IF ((x \div f[3] + y \div f[4]) % 2 = 0) = (f[7] = 1) THEN white[k + 1] ELSE black[k + 1])

\* ---- C33
\* mean of the 5x5 square around a pixel, clipped to the image, rounded down (0 if it misses the image)
Mean5(im, x, y) ==
  LET xs == Max2(0, x - 2)..Min2(im.w - 1, x + 2)
      ys == Max2(0, y - 2)..Min2(im.h - 1, y + 2)   \* empty if the square misses the image
      n == Cardinality(xs) * Cardinality(ys)
  IN IF n = 0 THEN 0 ELSE FoldSet(LAMBDA p, a : a + Px(im, p[1], p[2]), 0, xs \X ys) \div n
FarEnough(im, k) == k[1] > 15 /\ k[2] > 15 /\ k[1] + 15 <= im.w /\ k[2] + 15 <= im.h
BriefOk(e) ==
  IF e.len % 128 # 0 \/ e.len # Len(e.pairs) \/ \E k \in 1..Len(e.keys) : ~FarEnough(e.im, e.keys[k])
  THEN e.out = <<>>
  ELSE /\ Len(e.out) = 1 /\ Len(e.out[1]) = Len(e.keys)
       /\ \A k \in 1..Len(e.keys) :
            LET d == e.out[1][k]
                M(p) == Mean5(e.im, e.keys[k][1] + p[1] - 14, e.keys[k][2] + p[2] - 14)
            IN /\ d.pos = e.keys[k]
               /\ d.bits = [i \in 1..e.len |-> IF M(e.pairs[i][1]) < M(e.pairs[i][2]) THEN 1 ELSE 0]
Hamming(a, b) == Cardinality({i \in 1..Len(a) : a[i] # b[i]})
\* out: index pairs (0-based)
MatchOk(e) ==
  LET D(p) == Hamming(e.d1[p[1] + 1], e.d2[p[2] + 1]) IN
  /\ \A k \in 1..Len(e.out) : D(e.out[k]) < e.t
  /\ \A k \in 1..Len(e.out) - 1 : e.out[k][1] < e.out[k + 1][1]
  \* a descriptor equal to one in d2 hashes to its bucket, and a single candidate is always seen
  /\ \A i \in 1..Len(e.d1) : LET ds == {D(<<i - 1, j - 1>>) : j \in 1..Len(e.d2)} IN
       (e.d2 # <<>> /\ Min(ds) < e.t /\ (0 \in ds \/ Len(e.d2) = 1)) =>
          \E k \in 1..Len(e.out) : e.out[k][1] = i - 1 /\ D(e.out[k]) = Min(ds)

\* ---- C34.  cells: <<r, degree>>
\* the bins the vote of (x, y) may go to: the exact r truncated, either side where rounding decides
Bins(x, y, d) ==
  LET v == x * Cos(d) + y * Sin(d)   \* millionths
      near == (x + y) + 2
  IN {TDiv(v - near, 1000000), TDiv(v + near, 1000000)}
\* votes: for t = 1, 2, ... the cells with at least t votes (no suppression)
VoteAt(levels, cell) == Cardinality({t \in 1..Len(levels) : cell \in levels[t]})
\* the same in thousandths, for coordinates beyond 2000
FarBins(x, y, d) ==
  LET part(a, c) == LET m == Abs(c) IN (IF c < 0 THEN -1 ELSE 1) * (a * (m \div 1000) + (a * (m % 1000)) \div 1000)
      v == part(x, Cos(d)) + part(y, Sin(d))
      near == (x + y) \div 1000 + 4
  IN {TDiv(v - near, 1000), TDiv(v + near, 1000)}
\* a single pixel of a large image: one line per degree, and none with two votes
HoughFarOk(e) ==
  /\ Len(e.out[1]) = 180 /\ e.out[2] = <<>>
  /\ \A d \in 0..179 : e.out[1][d + 1][2] = d /\ e.out[1][d + 1][1] \in FarBins(e.x, e.y, d)
\* a whole border of an image: at any other degree the points spread over distances, at most 1 / sin 1 and a
\* further one to each, and twice that at distance 0, where both signs are cut
HoughLongOk(e) ==
  LET n == Max2(e.w, e.h) deg == IF e.w > e.h THEN 90 ELSE 0
  IN n > 120 /\ e.out = [k \in 1..Len(e.ts) |-> IF e.ts[k] <= n THEN <<<<0, deg>>>> ELSE <<>>]
HoughOk(e) ==
  LET im == e.im
      fg == {p \in Points(im) : Px(im, p[1], p[2]) > 0}
      rm == CHOOSE r \in 0..(im.w + im.h) : r * r <= im.w * im.w + im.h * im.h /\ (r + 1) * (r + 1) > im.w * im.w + im.h * im.h
      lv == TLCEval([t \in 1..Len(e.levels) |-> {e.levels[t][k] : k \in 1..Len(e.levels[t])}])
      W == 2 * rm + 1
      \* accumulator as an image: column r + rm, row degree
      acc == TLCEval(MkGray(W, 180, LAMBDA x, y : VoteAt(lv, <<x - rm, y>>)))
  IN /\ \A t \in 1..Len(lv) : Len(e.levels[t]) = Cardinality(lv[t]) /\ \A c \in lv[t] : c[1] >= -rm /\ c[1] <= rm /\ c[2] \in 0..179
     /\ lv[Len(lv)] = {} /\ Len(lv) = Cardinality(fg) + 1
     /\ \A d \in 0..179 :
          LET b == TLCEval([p \in fg |-> Bins(p[1], p[2], d)]) IN
          /\ SumTo(W, LAMBDA k : Px(acc, k - 1, d)) = Cardinality(fg)
          /\ \A r \in -rm..rm : LET v == Px(acc, r + rm, d) IN
               /\ v >= Cardinality({p \in fg : b[p] = {r}})
               /\ v <= Cardinality({p \in fg : r \in b[p]})
     /\ \A q \in 1..Len(e.q) : LET c == e.q[q] IN \* <<threshold, radius, lines in order of degree, r>>
          LET on == TLCEval({i \in 1..(W * 180) : acc.px[i] >= c.t /\
                       LET x == (i - 1) % W y == (i - 1) \div W IN
                       ~\E u \in Max2(0, x - c.r)..Min2(W - 1, x + c.r), v \in Max2(0, y - c.r)..Min2(179, y + c.r) : Beats(acc, u, v, x, y)})
          IN Len(c.lines) = Cardinality(on) /\ {(l[1] + rm) + l[2] * W + 1 : l \in {c.lines[k] : k \in 1..Len(c.lines)}} = on

\* lines and boxes: r and points in thousandths; x cos + y sin - r in thousandths
C4(d) == (Cos(d) + 50) \div 100
S4(d) == (Sin(d) + 50) \div 100
Dev(p, r, d) == (p[1] * C4(d) + p[2] * S4(d)) \div 10000 - r
Corners4(w, h) == {<<0, 0>>, <<1000 * w, 0>>, <<0, 1000 * h>>, <<1000 * w, 1000 * h>>}
Crosses(w, h, r, d) == \* with a margin of a twentieth of a pixel
  (\E c \in Corners4(w, h) : Dev(c, r, d) > 50) /\ (\E c \in Corners4(w, h) : Dev(c, r, d) < -50)
Misses(w, h, r, d) == (\A c \in Corners4(w, h) : Dev(c, r, d) > 50) \/ (\A c \in Corners4(w, h) : Dev(c, r, d) < -50)
OnBox(p, w, h) == p[1] >= 0 /\ p[2] >= 0 /\ p[1] <= 1000 * w /\ p[2] <= 1000 * h
                  /\ (p[1] \in {0, 1000 * w} \/ p[2] \in {0, 1000 * h})
InterOk(e) ==
  IF e.out = <<>> THEN ~Crosses(e.w, e.h, e.r, e.d)
  ELSE LET a == e.out[1][1] b == e.out[1][2] IN
       /\ ~Misses(e.w, e.h, e.r, e.d)
       /\ \A p \in {a, b} : OnBox(p, e.w, e.h) /\ Abs(Dev(p, e.r, e.d)) <= 20
       /\ Crosses(e.w, e.h, e.r, e.d) => Abs(a[1] - b[1]) + Abs(a[2] - b[2]) > 50
\* a drawn line: one pixel per row (steep) or column where the line is inside, all of them near it
PolarOk(e) ==
  LET s == {e.out[k] : k \in 1..Len(e.out)}
      steep == Abs(C4(e.d)) >= Abs(S4(e.d))
      At(v) == IF steep THEN TDiv(e.r * 10000 - v * 1000 * S4(e.d), C4(e.d))   \* thousandths
               ELSE TDiv(e.r * 10000 - v * 1000 * C4(e.d), S4(e.d))
      len == IF steep THEN e.h ELSE e.w
      wid == IF steep THEN e.w ELSE e.h
  IN /\ Len(e.out) = Cardinality(s)
     /\ \A p \in s : Abs(Dev(<<1000 * p[1], 1000 * p[2]>>, e.r, e.d)) <= 1550
     /\ \A v \in 0..len - 1 : LET a == At(v) IN (a >= 1000 /\ a <= 1000 * (wid - 1)) =>
          Cardinality({p \in s : (IF steep THEN p[2] ELSE p[1]) = v}) = 1

-----------------------------------------------------------------------------
FeaturePost(reg, e) == 0
FeatureAccept(reg, e, new) ==
  CASE e.op = "suppress" -> Ok(e) /\ e.out = Suppressed(e.im, Min2(e.r, e.im.w + e.im.h))
    [] e.op = "localmax" -> Ok(e) /\ SameBag(e.out, LocalMax(e.ps, e.r))
    [] e.op = "fast" -> Ok(e) /\ e.out = FastCorners(e.im, e.t, e.n)
    [] e.op = "fast_score" -> Ok(e) /\ e.out = FastScore(e.im, e.t, e.n, e.x, e.y)
    [] e.op = "dots" -> Ok(e) /\ DotsOk(e)
    [] e.op = "oriented" -> Ok(e) /\ OrientedOk(e)
    [] e.op = "lbp" -> Ok(e) /\ e.out = Lbp(e.im, e.x, e.y)
    [] e.op = "lbp_tables" -> Ok(e) /\ e.out = <<MinShift(e.b), Transitions(e.b), Uniform2(e.b), MinShift(e.b)>>
    [] e.op = "haar_all" -> Ok(e) /\ LET s == {e.out[k] : k \in 1..Len(e.out)} IN
         Len(e.out) = HaarCount(e.w, e.h) /\ s = HaarAll(e.w, e.h) /\ Cardinality(s) = Len(e.out)
    [] e.op = "haar_count" -> Ok(e) /\ e.out = HaarCount(e.w, e.h)
    [] e.op = "haar_some" -> \* length of the enumeration, a sample of its features
         Ok(e) /\ e.out.n = HaarCount(e.w, e.h)
         /\ \A k \in 1..Len(e.out.fs) : LET f == e.out.fs[k] IN
              IsFeature(f) /\ f[5] + f[1] * f[3] <= e.w /\ f[6] + f[2] * f[4] <= e.h
    [] e.op = "haar_eval" ->
         IF e.f[5] + e.f[1] * e.f[3] > e.im.w \/ e.f[6] + e.f[2] * e.f[4] > e.im.h THEN Panics(e)
         ELSE Ok(e) /\ e.out = HaarValue(e.im, e.f)
    [] e.op = "haar_draw" -> Ok(e) /\ LET d == TLCEval(HaarDrawn(e.im, e.f, e.white, e.black)) IN \A k \in 1..Len(e.out) : e.out[k] = d
    [] e.op = "hough_long" -> Ok(e) /\ HoughLongOk(e)
    [] e.op = "hough_far" -> Ok(e) /\ HoughFarOk(e)
    [] e.op = "brief" -> Ok(e) /\ BriefOk(e)
    [] e.op = "subset" -> IF Len(e.idx) > 128 THEN Panics(e)
         ELSE Ok(e) /\ LET n == Len(e.bits) B(i) == e.bits[128 * (i \div 128) + 128 - (i % 128)] IN
              e.out = [k \in 1..128 |-> IF k <= 128 - Len(e.idx) THEN 0 ELSE B(e.idx[k - 128 + Len(e.idx)])]
    [] e.op = "hamming" -> IF Len(e.a) # Len(e.b) THEN Panics(e) ELSE Ok(e) /\ e.out = Hamming(e.a, e.b)
    \* thousands of different descriptors, queried by some of them: each finds itself
    [] e.op = "match_many" -> Ok(e) /\ e.out = [k \in 1..Len(e.idx) |-> <<k - 1, e.idx[k]>>]
    [] e.op = "match" -> Ok(e) /\ MatchOk(e)
    [] e.op = "hough" -> Ok(e) /\ HoughOk(e.out @@ [im |-> e.im])
    [] e.op = "inter" -> Ok(e) /\ InterOk(e)
    [] e.op = "polar" -> Ok(e) /\ PolarOk(e)
    [] OTHER -> FALSE
=============================================================================
