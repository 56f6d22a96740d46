-------------------------------- MODULE Draw --------------------------------
(* C21-C26, C42.  Drawing: the set of pixels of each shape, clipping,        *)
(* painting, blending, anti-aliasing; rectangles as point sets.              *)
(* Float coordinates are given in quarters of a pixel.                       *)
EXTENDS Img, Big

CeilDiv(a, b) == -((-a) \div b)          \* b > 0
Sq(x) == x * x
\* ---- Bresenham between two points in quarters, ordered along the major axis
LinePts(sx, sy, ex, ey) ==
  LET steep == Abs(ey - sy) > Abs(ex - sx)
      a0 == IF steep THEN <<sy, sx>> ELSE <<sx, sy>>
      b0 == IF steep THEN <<ey, ex>> ELSE <<ex, ey>>
      a == IF a0[1] > b0[1] THEN b0 ELSE a0
      b == IF a0[1] > b0[1] THEN a0 ELSE b0
      dx == b[1] - a[1]
      dy == Abs(b[2] - a[2])
      X0 == TDiv(a[1], 4)
      X1 == TDiv(b[1], 4)
      Y0 == TDiv(a[2], 4)
      s == IF a[2] < b[2] THEN 1 ELSE -1
      \* the row nearest to the ideal line, ties towards the starting row
      Row(k) == IF dx = 0 THEN Y0 ELSE Y0 + s * Max2(0, CeilDiv(2 * k * dy - dx, 2 * dx))
  IN [k \in 1..(X1 - X0 + 1) |-> IF steep THEN <<Row(k - 1), X0 + k - 1>> ELSE <<X0 + k - 1, Row(k - 1)>>]
LineI(p, q) == LinePts(4 * p[1], 4 * p[2], 4 * q[1], 4 * q[2])
Inside(w, h, p) == p[1] >= 0 /\ p[2] >= 0 /\ p[1] < w /\ p[2] < h
Clip(w, h, s) == {s[k] : k \in {j \in 1..Len(s) : Inside(w, h, s[j])}}
All(w, h) == (0..w - 1) \X (0..h - 1)
RectSet(w, h, x0, y0, x1, y1) == {p \in All(w, h) : p[1] >= x0 /\ p[1] <= x1 /\ p[2] >= y0 /\ p[2] <= y1}

\* ---- the midpoint circle: first octant, then its eight reflections
Octant(r) == {<<x, CHOOSE y \in 0..r : (y = 0 \/ y * y - y < r * r - x * x) /\ (y = r \/ (y + 1) * y >= r * r - x * x)>> : x \in 0..(IF r < 0 THEN -1 ELSE r)}
CirclePts(r) == IF r < 0 THEN {} ELSE IF r = 0 THEN {<<0, 0>>} ELSE
  LET o == TLCEval({p \in Octant(r) : p[1] <= p[2]}) IN
  UNION {{<<p[1], p[2]>>, <<-p[1], p[2]>>, <<p[1], -p[2]>>, <<-p[1], -p[2]>>,
          <<p[2], p[1]>>, <<-p[2], p[1]>>, <<p[2], -p[1]>>, <<-p[2], -p[1]>>} : p \in o}
CircleRow(r) == LET c == CirclePts(r) IN
  [y \in -r..r |-> LET xs == {p[1] : p \in {q \in c : q[2] = y}} IN Max(xs)]

\* ---- polygons.  pts: sequence of integer points
Closed(pts) == IF pts[1] = pts[Len(pts)] THEN pts ELSE Append(pts, pts[1])
EdgesOf(pts) == LET c == Closed(pts) IN [k \in 1..Len(c) - 1 |-> <<c[k], c[k + 1]>>]
\* edges crossing the row y, upper end included: <<x at the row * d, d>>
Crossings(es, y) ==
  LET cs == SelectSeq(es, LAMBDA e : Min2(e[1][2], e[2][2]) <= y /\ y < Max2(e[1][2], e[2][2]))
  IN [k \in 1..Len(cs) |->
        LET p == cs[k][1] q == cs[k][2] d == Abs(q[2] - p[2]) g == IF q[2] > p[2] THEN 1 ELSE -1
        IN <<p[1] * d + (y - p[2]) * g * (q[1] - p[1]), d>>]
Count(s, P(_)) == Cardinality({k \in 1..Len(s) : P(s[k])})
\* is x in a span of the row between rounded crossings: "in", "out", or "tie" where rounding decides
SpanAt(cs, x) ==
  LET B == Count(cs, LAMBDA c : 2 * c[1] < (2 * x - 1) * c[2])
      A == Count(cs, LAMBDA c : 2 * c[1] < (2 * x + 1) * c[2])
  IN IF \E k \in 1..Len(cs) : 2 * cs[k][1] = (2 * x - 1) * cs[k][2] \/ 2 * cs[k][1] = (2 * x + 1) * cs[k][2] THEN "tie"
     ELSE IF A > B \/ B % 2 = 1 THEN "in" ELSE "out"
PolySetOk(s, w, h, pts) ==
  IF pts = <<>> THEN s = {}
  ELSE LET es == EdgesOf(pts)
           bnd == TLCEval(UNION {Clip(w, h, LineI(es[k][1], es[k][2])) : k \in 1..Len(es)})
       IN \A y \in 0..h - 1 : LET cs == TLCEval(Crossings(es, y)) IN \A x \in 0..w - 1 :
            LET a == SpanAt(cs, x) IN
            IF <<x, y>> \in bnd \/ a = "in" THEN <<x, y>> \in s
            ELSE a = "tie" \/ <<x, y>> \notin s
Pairs(a) == [k \in 1..(Len(a) \div 2) |-> <<a[2 * k - 1], a[2 * k]>>]

\* a centre farther from the image than any radius considered; sums with it leave the integers of TLC
Remote(a) == \/ a[1] > 1073741823 \/ a[2] > 1073741823 \/ a[1] < -1073741823 \/ a[2] < -1073741823
\* ---- shapes with an exact point set
Exact == {"line", "hollow_rect", "filled_rect", "cross", "hollow_circle", "filled_circle", "hollow_polygon"}
\* a hollow polygon needs two points (or none)
ShapeOk(kind, a) == kind = "hollow_polygon" => Len(a) # 2
Shape(kind, a, w, h) ==
  CASE kind = "line" -> Clip(w, h, LinePts(a[1], a[2], a[3], a[4]))
    [] kind = "filled_rect" -> RectSet(w, h, a[1], a[2], a[1] + a[3] - 1, a[2] + a[4] - 1)
    [] kind = "hollow_rect" ->
         LET x1 == a[1] + a[3] - 1 y1 == a[2] + a[4] - 1 IN
         {p \in RectSet(w, h, a[1], a[2], x1, y1) : p[1] \in {a[1], x1} \/ p[2] \in {a[2], y1}}
    [] kind = "cross" -> {p \in All(w, h) : <<p[1], p[2]>> = <<a[1], a[2]>> \/ (p[1] = a[1] /\ (p[2] = a[2] - 1 \/ p[2] - 1 = a[2]))
                                              \/ (p[2] = a[2] /\ (p[1] = a[1] - 1 \/ p[1] - 1 = a[1]))}
    [] kind = "hollow_circle" -> IF a[3] < 0 \/ Remote(a) THEN {} ELSE {p \in {<<a[1] + c[1], a[2] + c[2]>> : c \in CirclePts(a[3])} : Inside(w, h, p)}
    [] kind = "filled_circle" ->
         IF a[3] < 0 \/ Remote(a) THEN {}
         ELSE LET m == TLCEval(CircleRow(a[3])) IN
              {p \in All(w, h) : Abs(p[2] - a[2]) <= a[3] /\ Abs(p[1] - a[1]) <= m[p[2] - a[2]]}
    [] kind = "hollow_polygon" ->
         IF a = <<>> THEN {}
         ELSE LET es == EdgesOf(Pairs(a)) IN
              UNION {Clip(w, h, LinePts(es[k][1][1], es[k][1][2], es[k][2][1], es[k][2][2])) : k \in 1..Len(es)}
Paint(im, s, col) == TLCEval(MkImg(im.w, im.h, im.c, LAMBDA x, y, k : IF <<x, y>> \in s THEN col[k + 1] ELSE PxC(im, x, y, k)))
SeqSet(s) == {s[k] : k \in 1..Len(s)}
\* what one call drew: the writes stay inside, and every form of the call paints exactly them
Drawn(e, s) == /\ \A p \in s : Inside(e.im.w, e.im.h, p)
               /\ LET r == Paint(e.im, s, e.col) IN \A k \in 1..Len(e.out.outs) : e.out.outs[k] = r

\* ---- ellipses: offsets from the centre, as drawn on a canvas large enough
\* |y - ellipse| <= t/20 or |x - ellipse| <= t/20 for a point in the first quadrant
Near(x, y, w, h, t) ==
  LET F(a, b) == h * h * a * a + w * w * b * b - 400 * w * w * h * h   \* a, b in twentieths
      Lo(v) == Max2(0, 20 * v - t)
  IN \/ (F(20 * x, Lo(y)) <= 0 /\ F(20 * x, 20 * y + t) >= 0)
     \/ (F(Lo(x), 20 * y) <= 0 /\ F(20 * x + t, 20 * y) >= 0)
\* the same with exact big integers, for radii beyond a few hundred; t in twentieths
NearBig(x, y, w, h, t) ==
  LET S(u, v) == LET q == BProd(u, v) IN BMul(q, q)
      C == BMul(BN(400), S(w, h))
      In(a, b) == BLeq(BAdd(S(h, a), S(w, b)), C)
      Out(a, b) == BLeq(C, BAdd(S(h, a), S(w, b)))
      Lo(v) == Max2(0, 20 * v - t)
  IN \/ (In(20 * x, Lo(y)) /\ Out(20 * x, 20 * y + t))
     \/ (In(Lo(x), 20 * y) /\ Out(20 * x + t, 20 * y))
\* (x, y) of the first quadrant is a point of the midpoint circle: a = max, b = min of the two,
\* a^2 - a < r^2 - b^2 <= a^2 + a
OnCircleBig(x, y, r) ==
  LET a == Max2(x, y) b == Min2(x, y) bb == BProd(b, b) rr == BProd(r, r)
  IN BLt(BAdd(BProd(a, a - 1), bb), rr) /\ BLeq(rr, BAdd(BProd(a, a + 1), bb))
ConicBigOk(o, w, h) ==
  /\ o.sym /\ o.full
  /\ \A k \in 1..Len(o.pts) : LET p == o.pts[k] IN
       IF w = h THEN OnCircleBig(p[1], p[2], w)
       ELSE NearBig(p[1], p[2], w, h, IF Max2(w, h) > 6 * Min2(w, h) THEN 20 ELSE 12)
EllipseOk(s, w, h) ==
  /\ \A p \in s : <<-p[1], p[2]>> \in s /\ <<p[1], -p[2]>> \in s
  /\ <<0, h>> \in s
  /\ \A p \in s : Abs(p[1]) <= w /\ Abs(p[2]) <= h /\
       (IF w = h THEN p \in CirclePts(w)
        ELSE LET t == IF Max2(w, h) > 6 * Min2(w, h) THEN 20 ELSE 12 IN
             IF (w + 1) * (h + 1) < 2300 THEN Near(Abs(p[1]), Abs(p[2]), w, h, t) ELSE NearBig(Abs(p[1]), Abs(p[2]), w, h, t))
  /\ LET row(y) == {p[1] : p \in {q \in s : q[2] = y /\ q[1] >= 0}} IN
     (w > 0 /\ h > 0) =>
       \A y \in 0..h : /\ row(y) # {}
                       /\ row(y) = Min(row(y))..Max(row(y))
                       /\ (y > 0 => Min(row(y - 1)) <= Max(row(y)) + 1 /\ Max(row(y - 1)) >= Max(row(y)))
RowHull(s) == UNION {LET xs == {p[1] : p \in {q \in s : q[2] = y}} IN {<<x, y>> : x \in Min(xs)..Max(xs)} : y \in {p[2] : p \in s}}
ShiftIn(s, cx, cy, w, h) == {p \in {<<cx + q[1], cy + q[2]>> : q \in s} : Inside(w, h, p)}

\* ---- anti-aliased lines.  Weights in 1/65536; expected weight max(0, 1 - |distance|)
WuOne == 65536
Wu(p, q, x, y) ==
  LET dx == Abs(q[1] - p[1]) dy == Abs(q[2] - p[2]) IN
  IF dx = 0 /\ dy = 0 THEN (IF <<x, y>> = p THEN WuOne ELSE 0)
  ELSE IF dy > dx
  THEN IF y < Min2(p[2], q[2]) \/ y > Max2(p[2], q[2]) THEN 0
       ELSE LET off == Abs(p[1] * dy + (q[1] - p[1]) * Abs(y - p[2]) - x * dy) IN
            IF off >= dy THEN 0 ELSE ((dy - off) * WuOne) \div dy
  ELSE IF x < Min2(p[1], q[1]) \/ x > Max2(p[1], q[1]) THEN 0
       ELSE LET off == Abs(p[2] * dx + (q[2] - p[2]) * Abs(x - p[1]) - y * dx) IN
            IF off >= dx THEN 0 ELSE ((dx - off) * WuOne) \div dx
\* writes: <<pixel index, weight>>
WuOk(im, e) ==
  LET n == im.w * im.h
      ws == e.out.writes
      sum == TLCEval(FoldLeft(LAMBDA f, k : [f EXCEPT ![k[1] + 1] = @ + k[2]], [i \in 1..n |-> 0], ws))
  IN /\ \A k \in 1..Len(ws) : ws[k][1] >= 0 /\ ws[k][1] < n /\ ws[k][2] >= 0 /\ ws[k][2] <= WuOne
     /\ \A i \in 1..n : Count(ws, LAMBDA k : k[1] = i - 1) <= 1
     /\ \A i \in 1..n : Abs(sum[i] - Wu(e.p, e.q, (i - 1) % im.w, (i - 1) \div im.w)) <= 64

\* anti-aliased polygon: away from the edges, interior pixels have the colour and the others keep theirs
AAPolyOk(e) ==
  LET es == EdgesOf(e.pts) im == e.im
      touched(x, y) == \E k \in 1..Len(es) : Wu(es[k][1], es[k][2], x, y) > 0 \/ \E d \in {-1, 1} :
                          Wu(es[k][1], es[k][2], x + d, y) = WuOne \/ Wu(es[k][1], es[k][2], x, y + d) = WuOne
  IN HasDims(e.out, im.w, im.h, im.c) /\
     \A y \in 0..im.h - 1 : LET cs == TLCEval(Crossings(es, y)) IN \A x \in 0..im.w - 1 :
       LET a == SpanAt(cs, x) IN
       (touched(x, y) \/ a = "tie") \/ \A k \in 0..im.c - 1 :
         PxC(e.out, x, y, k) = IF a = "in" THEN e.col[k + 1] ELSE PxC(im, x, y, k)

\* ---- blending: chain[i][n + 1] is pixel i after n blends with the colour
BlendOk(e) ==
  LET im == e.im n == im.w * im.h log == e.out.log
      cnt == TLCEval(FoldLeft(LAMBDA f, p : IF Inside(im.w, im.h, p) THEN [f EXCEPT ![p[2] * im.w + p[1] + 1] = @ + 1] ELSE f,
                              [i \in 1..n |-> 0], log))
  IN /\ \A k \in 1..Len(log) : Inside(im.w, im.h, log[k])
     /\ HasDims(e.out.im, im.w, im.h, im.c)
     /\ \A i \in 1..n : SubSeq(e.out.im.px, (i - 1) * im.c + 1, i * im.c) = e.out.chain[i][cnt[i] + 1]
     /\ e.out.ok
     /\ e.kind \in Exact => SeqSet(log) = Shape(e.kind, e.a, im.w, im.h)
     /\ e.kind \in {"line", "filled_rect", "cross"} => Len(log) = Cardinality(SeqSet(log))

\* ---- cubic Bezier curves with integer control points a = <<sx, sy, ex, ey, ax, ay, bx, by>>
Bez(p0, pa, pb, p1, i, n) == LET j == n - i IN p0 * j * j * j + 3 * pa * j * j * i + 3 * pb * j * i * i + p1 * i * i * i
NearN(v, n3, x, d) == Abs(v - x * n3) <= d * n3
BezierOk(s, a) ==
  LET xs == {a[1], a[3], a[5], a[7]} ys == {a[2], a[4], a[6], a[8]} IN
  /\ <<a[1], a[2]>> \in s /\ <<a[3], a[4]>> \in s
  /\ \A p \in s : p[1] \in Min(xs)..Max(xs) /\ p[2] \in Min(ys)..Max(ys)
  /\ \A i \in 0..16 : \E p \in s : NearN(Bez(a[1], a[5], a[7], a[3], i, 16), 4096, p[1], 2)
                                  /\ NearN(Bez(a[2], a[6], a[8], a[4], i, 16), 4096, p[2], 2)
  /\ \A p \in s : \E i \in 0..64 : NearN(Bez(a[1], a[5], a[7], a[3], i, 64), 262144, p[1], 4)
                                  /\ NearN(Bez(a[2], a[6], a[8], a[4], i, 64), 262144, p[2], 4)

\* a curve that leaves the canvas: what is drawn is the part of it inside (judged away from the border)
BezierOutOk(s, a, w, h) ==
  LET xs == {a[1], a[3], a[5], a[7]} ys == {a[2], a[4], a[6], a[8]}
      X(i, n) == Bez(a[1], a[5], a[7], a[3], i, n)
      Y(i, n) == Bez(a[2], a[6], a[8], a[4], i, n)
      well(v, n3, m) == v >= 2 * n3 /\ v <= (m - 3) * n3
  IN /\ \A p \in {<<a[1], a[2]>>, <<a[3], a[4]>>} : Inside(w, h, p) => p \in s
     /\ \A p \in s : Inside(w, h, p) /\ p[1] \in Min(xs)..Max(xs) /\ p[2] \in Min(ys)..Max(ys)
     /\ \A i \in 0..32 : well(X(i, 32), 32768, w) /\ well(Y(i, 32), 32768, h) =>
          \E p \in s : NearN(X(i, 32), 32768, p[1], 2) /\ NearN(Y(i, 32), 32768, p[2], 2)
     /\ \A p \in s : \E i \in 0..64 : NearN(X(i, 64), 262144, p[1], 5) /\ NearN(Y(i, 64), 262144, p[2], 5)

\* long curves (coordinates to 1000): 96 samples in sixteenths of a pixel, and the chords between them (within a pixel of the curve)
BezierBigOk(s, a) ==
  LET n == 96
      n3 == n * n * n
      F(i) == LET r(v) == 16 * (v \div n3) + (16 * (v % n3)) \div n3 IN
              <<r(Bez(a[1], a[5], a[7], a[3], i, n)), r(Bez(a[2], a[6], a[8], a[4], i, n))>>
      c == TLCEval([i \in 0..n |-> F(i)])
      Xs == {a[1], a[3], a[5], a[7]}
      Ys == {a[2], a[4], a[6], a[8]}
      near(p, k) == LET u == c[k] v == c[k + 1] x == 16 * p[1] y == 16 * p[2] IN
        /\ x >= Min2(u[1], v[1]) - 84 /\ x <= Max2(u[1], v[1]) + 84 /\ y >= Min2(u[2], v[2]) - 84 /\ y <= Max2(u[2], v[2]) + 84
        /\ Abs((v[1] - u[1]) * (y - u[2]) - (v[2] - u[2]) * (x - u[1])) <= 84 * (Abs(v[1] - u[1]) + Abs(v[2] - u[2]) + 1)
  IN /\ <<a[1], a[2]>> \in s /\ <<a[3], a[4]>> \in s
     /\ \A p \in s : /\ p[1] >= Min(Xs) /\ p[1] <= Max(Xs) /\ p[2] >= Min(Ys) /\ p[2] <= Max(Ys)
                     /\ \E k \in 0..n - 1 : near(p, k)
     /\ \A i \in 0..n : \E p \in {<<(c[i][1] + 8) \div 16 + dx, (c[i][2] + 8) \div 16 + dy>> : dx \in -2..2, dy \in -2..2} : p \in s


\* ---- text.  A font of rectangular glyphs; g = <<x0, y0, x1, y1>> in half pixels, relative to the
\* start of the string and the baseline, in drawing order.  A pixel is blended by the quarter of
\* it a glyph covers.
Overlap(lo, hi, v) == Max2(0, Min2(hi, 2 * v + 2) - Max2(lo, 2 * v))
Text(im, glyphs, asc, x, y, col) ==
  TLCEval(MkImg(im.w, im.h, im.c, LAMBDA px, py, ch :
    FoldLeft(LAMBDA v, g : LET q == Overlap(g[1], g[3], px - x) * Overlap(asc + g[2], asc + g[4], py - y)
                           IN ((4 - q) * v + q * col[ch + 1]) \div 4,
             PxC(im, px, py, ch), glyphs)))

\* ---- rectangles <<left, top, width, height>>
RRight(r) == r[1] + r[3] - 1
RBottom(r) == r[2] + r[4] - 1
WideHas(q, p) == q[1] <= p[1] /\ p[1] <= q[3] /\ q[2] <= p[2] /\ p[2] <= q[4]
WideInter(q, s) == LET m == <<Max2(q[1], s[1]), Max2(q[2], s[2]), Min2(q[3], s[3]), Min2(q[4], s[4])>> IN
  IF m[1] <= m[3] /\ m[2] <= m[4] THEN m ELSE -1
RInter(r, s) ==
  LET l == Max2(r[1], s[1]) t == Max2(r[2], s[2]) b == Min2(RBottom(r), RBottom(s)) rt == Min2(RRight(r), RRight(s))
  IN IF l > rt \/ t > b THEN <<>> ELSE <<<<l, t, rt - l + 1, b - t + 1>>>>

-----------------------------------------------------------------------------
DrawPost(reg, e) ==
  CASE e.op = "begin" -> e.im
    [] e.op = "s_shape" -> Paint(reg, Shape(e.kind, e.a, reg.w, reg.h), e.col)
    [] OTHER -> 0
DrawAccept(reg, e, new) ==
  CASE e.op = "begin" -> TRUE
    [] e.op = "s_shape" -> Ok(e) /\ e.out = new
    \* a horizontal or vertical line at the end of the coordinate range: every point once, in order, and nothing painted
    [] e.op = "line_end" -> Ok(e) /\ LET P(k) == IF e.steep THEN <<e.v, k>> ELSE <<k, e.v>> IN
         /\ e.out.n = e.b - e.a + 1 /\ e.out.first = P(e.a) /\ e.out.last = P(e.b) /\ e.out.steps = TRUE /\ e.out.im = e.im
    [] e.op = "line_iter" -> Ok(e) /\ e.out = LinePts(e.a[1], e.a[2], e.a[3], e.a[4])
    [] e.op = "pix_iter" ->
         IF e.w = 0 \/ e.h = 0 THEN Panics(e)
         ELSE LET C(v, n) == Clamp(v, 0, 4 * (n - 1))
                  s == SelectSeq(LinePts(C(e.a[1], e.w), C(e.a[2], e.h), C(e.a[3], e.w), C(e.a[4], e.h)),
                                 LAMBDA p : Inside(e.w, e.h, p))
                  ids == [k \in 1..Len(s) |-> s[k][2] * e.w + s[k][1]]
              IN Ok(e) /\ e.out.read = ids
                 /\ GrayIs(e.out.wrote, e.w, e.h, LAMBDA x, y :
                      LET i == SelectSeq([k \in 1..Len(ids) |-> k], LAMBDA k : ids[k] = y * e.w + x) IN
                      IF i = <<>> THEN 0 ELSE i[Len(i)])
    [] e.op = "shape" ->
         IF ~ShapeOk(e.kind, e.a) THEN Panics(e)
         ELSE Ok(e) /\ LET s == TLCEval(Shape(e.kind, e.a, e.im.w, e.im.h)) IN Drawn(e, s) /\ SeqSet(e.out.log) = s
    [] e.op = "polygon" -> Ok(e) /\ LET s == TLCEval(SeqSet(e.out.log)) IN
         Drawn(e, s) /\ PolySetOk(s, e.im.w, e.im.h, e.pts)
    [] e.op = "ellipse" -> Ok(e) /\
         LET s == TLCEval(SeqSet(e.out.hollow)) f == TLCEval(SeqSet(e.out.filled)) IN
         EllipseOk(s, e.rx, e.ry) /\ f = RowHull(s)
    [] e.op = "ellipse_at" -> Ok(e) /\ LET s == TLCEval(SeqSet(e.out.full)) p == TLCEval(IF Remote(<<e.cx, e.cy>>) THEN {} ELSE ShiftIn(s, e.cx, e.cy, e.im.w, e.im.h)) IN
         EllipseOk(IF e.filled THEN SeqSet(e.out.outline) ELSE s, e.rx, e.ry) /\ SeqSet(e.out.log) = p /\ Drawn(e, p)
    [] e.op = "conic_big" -> Ok(e) /\ ConicBigOk(e.out, e.rx, e.ry)
    [] e.op = "wu" -> Ok(e) /\ WuOk(e, e)
    [] e.op = "aapoly" -> Ok(e) /\ AAPolyOk(e)
    [] e.op = "blend" -> Ok(e) /\ BlendOk(e)
    [] e.op = "bezier" -> Ok(e) /\ LET s == TLCEval(SeqSet(e.out.log)) IN
         Drawn(e, s) /\ LET f == TLCEval(SeqSet(e.out.full)) IN BezierOk(f, e.a) /\ s = ShiftIn(f, 0, 0, e.im.w, e.im.h)
    [] e.op = "bezier_out" -> Ok(e) /\ LET s == TLCEval(SeqSet(e.out.log)) IN Drawn(e, s) /\ BezierOutOk(s, e.a, e.im.w, e.im.h)
    [] e.op = "bezier_big" -> Ok(e) /\ BezierBigOk(TLCEval(SeqSet(e.out)), e.a)
    \* placed beyond any image: nothing is painted
    [] e.op = "remote" -> Ok(e) /\ e.out = e.im
    [] e.op = "text" -> Ok(e) /\ e.out.size = e.size
         /\ LET t == Text(e.im, e.glyphs, e.asc, e.x, e.y, e.col) IN \A k \in 1..Len(e.out.outs) : e.out.outs[k] = t
    [] e.op = "rect" -> IF e.r[3] = 0 \/ e.r[4] = 0 THEN Panics(e)
         ELSE Ok(e) /\ e.out = <<e.r[1], e.r[2], RRight(e.r), RBottom(e.r), e.r[3], e.r[4]>>
    [] e.op = "rect_inter" -> Ok(e) /\ e.out = RInter(e.r, e.s)
    [] e.op = "rect_contains" -> \* point in quarters
         Ok(e) /\ e.out = (e.p[1] >= 4 * e.r[1] /\ e.p[1] <= 4 * RRight(e.r) /\ e.p[2] >= 4 * e.r[2] /\ e.p[2] <= 4 * RBottom(e.r))
    [] e.op = "rect_wide" -> \* q, s: <<left, top, right, bottom>> with sides of any length; -1: no common point
         Ok(e) /\ e.out[1] = e.q /\ e.out[2] = WideInter(e.q, e.s) /\ e.out[3] = WideInter(e.q, e.s)
         /\ \A i \in 1..Len(e.ps) : e.out[4][i] = WideHas(e.q, e.ps[i])
    [] e.op = "fill_wide" -> \* q: <<left, top, right, bottom>>; the functional and the in-place form
         Ok(e) /\ LET o == MkImg(e.im.w, e.im.h, e.im.c, LAMBDA x, y, k : IF WideHas(e.q, <<x, y>>) THEN e.col[k + 1] ELSE PxC(e.im, x, y, k))
                  IN e.out = <<o, o>>
    [] e.op = "rect_has" -> \* point in pixels
         Ok(e) /\ e.out = (e.p[1] >= e.r[1] /\ e.p[1] <= RRight(e.r) /\ e.p[2] >= e.r[2] /\ e.p[2] <= RBottom(e.r))
    [] OTHER -> FALSE
=============================================================================
