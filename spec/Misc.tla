-------------------------------- MODULE Misc --------------------------------
(* C31, C32, C36-C40.  Seam carving, template matching, plane geometry,      *)
(* pixel maps, pixel arithmetic, perceptual hashes, HOG descriptors.         *)
EXTENDS Filter, Trig, Flo
Wide == INSTANCE Big

\* ---- C31.  State: the current image, the original column of every pixel still
\* in it, and the original positions removed so far.
Energy(im, x, y) ==
  SumTo(im.c, LAMBDA k : LET h == Corr(im, SobelH, x, y, k - 1)
                             v == Corr(im, Transpose(SobelH), x, y, k - 1)
                         IN ISqrt(h * h + v * v)) \div im.c
EnergyMap(im) == TLCEval([i \in 1..Area(im) |-> Energy(im, (i - 1) % im.w, (i - 1) \div im.w)])
\* least total energy over connected seams from the top row to each pixel of the bottom row
Least(w, h, g) ==
  LET row(prev, y) == TLCEval([x \in 1..w |-> g[y * w + x] + Min({prev[u] : u \in Max2(1, x - 1)..Min2(w, x + 1)})])
  IN FoldLeft(LAMBDA p, y : row(p, y), [x \in 1..w |-> g[x]], [y \in 1..(h - 1) |-> y])
SeamOk(im, s) ==  \* s[y + 1]: the column in row y
  LET g == EnergyMap(im) IN
  /\ Len(s) = im.h
  /\ \A y \in 1..im.h : s[y] \in 0..im.w - 1
  /\ \A y \in 1..im.h - 1 : Abs(s[y] - s[y + 1]) <= 1
  /\ SumTo(im.h, LAMBDA y : g[(y - 1) * im.w + s[y] + 1]) = Min(Range(Least(im.w, im.h, g)))
Unseam(im, s) ==
  TLCEval(MkImg(im.w - 1, im.h, im.c, LAMBDA x, y, k : PxC(im, IF x < s[y + 1] THEN x ELSE x + 1, y, k)))
SeamStart(im) == [im |-> im, idx |-> MkGray(im.w, im.h, LAMBDA x, y : x), marks |-> {}]
SeamNext(st, s) == [im |-> Unseam(st.im, s), idx |-> Unseam(st.idx, s),
                    marks |-> st.marks \cup {<<Px(st.idx, s[y + 1], y), y>> : y \in 0..st.im.h - 1}]
Marked(canvas, marks) ==
  MkImg(canvas.w, canvas.h, 3, LAMBDA x, y, k :
     IF <<x, y>> \in marks THEN (IF k = 0 THEN 255 ELSE 0) ELSE Px(canvas, x, y))

\* ---- C32.  mask: <<>> or <<mask>> whose samples count in units of e.ms
TM(e, x, y, F(_, _, _)) ==
  LET t == e.t IN
  SumTo(Area(t), LAMBDA i : LET u == (i - 1) % t.w v == (i - 1) \div t.w IN
    F(Px(e.im, x + u, y + v), t.px[i], IF e.mask = <<>> THEN 1 ELSE e.mask[1].px[i]))
TmSse(e, x, y) == TM(e, x, y, LAMBDA i, t, m : (t - i) * m * (t - i) * m)
TmCc(e, x, y) == TM(e, x, y, LAMBDA i, t, m : t * i * m * m)
TmTT(e) == TM(e, 0, 0, LAMBDA i, t, m : t * m * t * m)
TmII(e, x, y) == TM(e, x, y, LAMBDA i, t, m : i * m * i * m)
\* out: raw scores as integers in units of ms^2 (single precision: exact below 2^18 and more); normalised
\* scores as mantissa and binary exponent
TmOk(e, o) ==
  /\ HasDims(o, e.im.w - e.t.w + 1, e.im.h - e.t.h + 1, 1)
  /\ LET tt == TmTT(e) IN
     \A i \in 1..Len(o.px) :
       LET x == (i - 1) % o.w y == (i - 1) \div o.w
           s == IF e.m \in {"sse", "ssen"} THEN TmSse(e, x, y) ELSE TmCc(e, x, y)
           ii == TmII(e, x, y)
       IN IF e.m \in {"sse", "cc"} THEN Abs(o.px[i] - s) <= s \div (IF e.ms = 1 THEN 1048576 ELSE 262144)
          ELSE IF ii = 0 \/ tt = 0
               THEN \* nothing to normalise by: the raw score (which counts the mask unit squared)
                    FClose(o.px[i], FMul(FInt(s), FInt(e.ms * e.ms)), 2)
               ELSE FClose(o.px[i], FDiv(FInt(s), FSqrt(FMul(FInt(ii), FInt(tt)))), 6)

\* a large template of grey level e.v on an image of level e.u, mask e.k (1 without); single precision
\* sums of n terms may be off by n 2^-24 of their value
TmFlatOk(e, o) ==
  LET n == e.w * e.h
      f(a, b) == FMul(FMul(FInt(n), FInt(a * b)), FInt(e.k * e.k))
      want == CASE e.m = "sse" -> f(Abs(e.u - e.v), Abs(e.u - e.v))
                [] e.m = "cc" -> f(e.u, e.v)
                [] e.m = "ssen" -> FDiv(FInt((e.u - e.v) * (e.u - e.v)), FInt(e.u * e.v))
                [] OTHER -> FInt(1)
  IN HasDims(o, 2, 2, 1) /\ \A i \in 1..4 : FClose(o.px[i], want, 20 + n \div 256)

\* ---- C36.  points <<x, y>>
Cross3(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1])
Dot3(a, b, c) == (b[1] - a[1]) * (c[1] - a[1]) + (b[2] - a[2]) * (c[2] - a[2])
Sq2(a, b) == (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])
\* p lies on the closed segment a..b
Between(a, b, p) == Cross3(a, b, p) = 0 /\ Dot3(p, a, b) <= 0
\* extreme: in no segment or triangle of other points.  Half-plane form: some line through p has
\* all other points strictly on one side; for finite sets it can be tilted to pass close by another point
Extreme(p, S) ==
  LET O == S \ {p} IN
  \/ O = {}
  \/ \E q \in O : /\ \A r \in O : Cross3(p, q, r) >= 0
                  /\ \A r \in O : Cross3(p, q, r) = 0 => Dot3(p, q, r) > 0
HullOk(ps, o) ==
  LET S == {ps[k] : k \in 1..Len(ps)}
      n == Len(o)
      nx(k) == (k % n) + 1
  IN /\ Range(o) = {p \in S : Extreme(p, S)}
     /\ n = Cardinality(Range(o))
     /\ n > 2 => \/ \A k \in 1..n : \A j \in 1..n : j \notin {k, nx(k)} => Cross3(o[k], o[nx(k)], o[j]) > 0
                 \/ \A k \in 1..n : \A j \in 1..n : j \notin {k, nx(k)} => Cross3(o[k], o[nx(k)], o[j]) < 0
\* twice the signed area
Area2(ps) == IF Len(ps) < 3 THEN 0 ELSE
  SumTo(Len(ps), LAMBDA k : LET a == ps[k] b == ps[(k % Len(ps)) + 1] IN a[1] * b[2] - b[1] * a[2])
\* thousandths of the distance, rounded down
Dist1000(a, b) == ISqrt(1000000 * Sq2(a, b))
ArcOk(ps, closed, o) ==
  LET n == Len(ps)
      edges == n - 1 + (IF closed /\ n > 2 THEN 1 ELSE 0)
      l == IF n < 2 THEN 0 ELSE SumTo(edges, LAMBDA k : Dist1000(ps[k], ps[(k % n) + 1]))
  IN o >= l - 1 /\ o <= l + Max2(0, edges) + 1
\* the distance from p to the line ab (to the point, when a = b) is at most eps quarters
WithinEps(a, b, p, eps) ==
  IF a = b THEN 16 * Sq2(a, p) <= eps * eps
  ELSE 16 * Cross3(a, b, p) * Cross3(a, b, p) <= eps * eps * Sq2(a, b)
\* idx: strictly increasing positions of the kept points
DpOk(ps, eps, idx) ==
  /\ Len(idx) >= 2 /\ idx[1] = 1 /\ idx[Len(idx)] = Len(ps)
  /\ \A k \in 1..Len(idx) - 1 :
       /\ idx[k] < idx[k + 1]
       /\ \A j \in (idx[k] + 1)..(idx[k + 1] - 1) : WithinEps(ps[idx[k]], ps[idx[k + 1]], ps[j], eps)
\* the polyline o keeps such positions
DpKeeps(ps, eps, o) ==
  \* positions reachable as "o[1..k] kept, last at position j"
  LET n == Len(ps)
      step(A, k) == {j \in 2..n : ps[j] = o[k] /\ \E i \in A : i < j /\ \A m \in (i + 1)..(j - 1) : WithinEps(ps[i], ps[j], ps[m], eps)}
      last == FoldLeft(LAMBDA A, k : step(A, k), IF Len(o) > 0 /\ o[1] = ps[1] THEN {1} ELSE {}, [k \in 1..(Len(o) - 1) |-> k + 1])
  IN Len(o) >= 2 /\ n \in last
\* bounding box along the direction a -> b of the hull: <<smin, smax, tmin, tmax>> in units of 1/|ab|
BoxAlong(H, a, b) ==
  LET dx == b[1] - a[1] dy == b[2] - a[2]
      S == {p[1] * dx + p[2] * dy : p \in H}
      T == {p[2] * dx - p[1] * dy : p \in H}
  IN <<Min(S), Max(S), Min(T), Max(T)>>
RectOk(ps, o) ==
  LET S == {ps[k] : k \in 1..Len(ps)}
      H == TLCEval({p \in S : Extreme(p, S)})
      edge(a, b) == a # b /\ \A c \in H : Cross3(a, b, c) >= 0
      E == {q \in H \X H : edge(q[1], q[2])}
      L(q) == Sq2(q[1], q[2])
      A(q) == LET B == BoxAlong(H, q[1], q[2]) IN (B[2] - B[1]) * (B[4] - B[3])
      \* corner (s, t)/L^2 back in the plane, scaled by L^2
      C(q, s, t) == LET dx == q[2][1] - q[1][1] dy == q[2][2] - q[1][2] IN <<s * dx - t * dy, s * dy + t * dx>>
      near(q, c, p) == Abs(p[1] * L(q) - c[1]) <= L(q) /\ Abs(p[2] * L(q) - c[2]) <= L(q)
      fits(q) == LET B == BoxAlong(H, q[1], q[2])
                     c == <<C(q, B[1], B[3]), C(q, B[2], B[3]), C(q, B[2], B[4]), C(q, B[1], B[4])>>
                 IN \E f \in Permutations(1..4) : \A k \in 1..4 : near(q, c[f[k]], o[k])
      twice(k) == {p \in 1..4 : o[p] = o[k]}
  IN IF Cardinality(H) = 1 THEN \A k \in 1..4 : o[k] \in H
     ELSE IF Cardinality(H) = 2 THEN {o[k] : k \in 1..4} = H /\ \A k \in 1..4 : Cardinality(twice(k)) = 2
     ELSE /\ o[1][2] <= o[4][2] /\ o[2][2] <= o[3][2]
          /\ Max2(o[1][1], o[4][1]) <= Min2(o[2][1], o[3][1])
          /\ \E q \in E : fits(q) /\ \A r \in E : Wide!BLeq(Wide!BProd(A(q), L(r)), Wide!BProd(A(r), L(q)))

\* ---- C37.  f.k: constant, f.a: weights of the input channels, f.b: of the coordinates; modulo f.m
Lin(f, px, x, y) ==
  (f.k + f.b[1] * x + f.b[2] * y + SumTo(Len(px), LAMBDA k : f.a[k] * px[k])) % f.m
\* output channel k adds k - 1
Mapped(im, f, c) == MkImg(im.w, im.h, c, LAMBDA x, y, k : (Lin(f, Pixel(im, x, y), x, y) + k) % f.m)

\* ---- C38.  values in units of 1/e.u
ClampTo(v, u, lo, hi) == Clamp(TDiv(v, u), lo, hi)

\* ---- C39.  components <<u, v, amplitude>> of a 32x32 cosine pattern; the hash has a bit for each
\* frequency pair in 1..8, set where the coefficient exceeds the mean of the 64
Coef(cs, u, v) == SumTo(Len(cs), LAMBDA k : IF cs[k][1] = u /\ cs[k][2] = v THEN cs[k][3] ELSE 0)
HashBits(cs) ==
  LET tot == SumTo(Len(cs), LAMBDA k : IF cs[k][1] \in 1..8 /\ cs[k][2] \in 1..8 THEN cs[k][3] ELSE 0)
  IN {p \in (1..8) \X (1..8) : 64 * Coef(cs, p[1], p[2]) > tot}
HashDist(a, b) == LET A == HashBits(a) B == HashBits(b) IN Cardinality((A \ B) \cup (B \ A))

\* ---- C40
HogFits(e) ==
  /\ e.w % e.cell = 0 /\ e.h % e.cell = 0
  /\ e.w \div e.cell >= e.block /\ e.h \div e.cell >= e.block
  /\ (e.w \div e.cell - e.block) % e.stride = 0 /\ (e.h \div e.cell - e.block) % e.stride = 0
HogLen(e) ==
  ((e.w \div e.cell - e.block) \div e.stride + 1) * ((e.h \div e.cell - e.block) \div e.stride + 1) * e.block * e.block * e.n
\* what the error must name: 1 width, 2 height
HogBad(side, e) == side % e.cell # 0 \/ side \div e.cell < e.block \/ (side \div e.cell - e.block) % e.stride # 0
\* direction of (h, v) clockwise from the x axis in thousandths of a degree
RECURSIVE DegIn(_, _, _, _)
DegIn(a, b, lo, hi) == \* the whole degree below the angle of (a, b), a, b >= 0, within lo..hi
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2 IN
       IF Cos(mid) * b - Sin(mid) * a >= 0 THEN DegIn(a, b, mid, hi) ELSE DegIn(a, b, lo, mid - 1)
Quadrant1(a, b) ==
  IF b = 0 THEN 0 ELSE IF a = 0 THEN 90000
  ELSE LET d == DegIn(a, b, 0, 89)
           c0 == Cos(d) * b - Sin(d) * a
           c1 == Cos(d + 1) * b - Sin(d + 1) * a
       IN d * 1000 + Min2(999, IF c0 < 2000000 THEN (c0 * 1000) \div (c0 - c1) ELSE c0 \div ((c0 - c1) \div 1000))
Direction(h, v) ==
  LET q == Quadrant1(Abs(h), Abs(v)) IN
  IF h >= 0 /\ v >= 0 THEN q ELSE IF h < 0 /\ v >= 0 THEN 180000 - q
  ELSE IF h < 0 THEN 180000 + q ELSE (360000 - q) % 360000
\* histograms of gradient direction per cell, each pixel shared by bilinear weights among the cells
\* whose corner it lies beyond and by linear weights among the two nearest directions
\* magnitudes are kept in tenths, in hundredths when all are small
Mag2(im) == [i \in 1..Area(im) |-> LET x == (i - 1) % im.w y == (i - 1) \div im.w
   h == Corr(im, SobelH, x, y, 0) v == Corr(im, Transpose(SobelH), x, y, 0) IN h * h + v * v]
MagUnit(im) == IF Max({0} \cup Range(Mag2(im))) < 200000 THEN 100 ELSE 10
HogGrid(im, e) ==
  LET cw == im.w \div e.cell ch == im.h \div e.cell
      range == IF e.signed THEN 360000 ELSE 180000
      mu == TLCEval(MagUnit(im))
      px == TLCEval([i \in 1..Area(im) |->
              LET x == (i - 1) % im.w y == (i - 1) \div im.w
                  h == Corr(im, SobelH, x, y, 0)
                  v == Corr(im, Transpose(SobelH), x, y, 0)
                  p == (Direction(h, v) % range) * e.n
              IN [m |-> ISqrt(mu * mu * (h * h + v * v)), b |-> p \div range, f |-> ((p % range) * 1000) \div range]])
      wt(q, b) == (IF q.b = b THEN 1000 - q.f ELSE 0) + (IF (q.b + 1) % e.n = b THEN q.f ELSE 0)
      sh(x, c) == IF x \div e.cell = c THEN e.cell - (x % e.cell) ELSE IF x \div e.cell = c - 1 THEN x % e.cell ELSE 0
      at(b, cx, cy) ==
        LET x0 == Max2(0, (cx - 1) * e.cell) x1 == (cx + 1) * e.cell - 1
            y0 == Max2(0, (cy - 1) * e.cell) y1 == (cy + 1) * e.cell - 1
            ww == x1 - x0 + 1
        IN SumTo(ww * (y1 - y0 + 1), LAMBDA j :
             LET x == x0 + ((j - 1) % ww) y == y0 + ((j - 1) \div ww)
                 q == px[y * im.w + x + 1]
             IN ((q.m * wt(q, b)) \div 100) * sh(x, cx) * sh(y, cy))
  IN TLCEval([j \in 1..(e.n * cw * ch) |-> LET b == (j - 1) % e.n c == (j - 1) \div e.n IN at(b, c % cw, c \div cw)])
HogOk(im, e, o) ==
  LET cw == im.w \div e.cell ch == im.h \div e.cell
      g == HogGrid(im, e)
      bw == (cw - e.block) \div e.stride + 1
      bh == (ch - e.block) \div e.stride + 1
      bl == e.block * e.block * e.n
      \* entry k (0-based) of block (bx, by)
      entry(bx, by, k) == LET b == k % e.n c == k \div e.n
                              cx == bx * e.stride + (c % e.block) cy == by * e.stride + (c \div e.block)
                          IN g[(cy * cw + cx) * e.n + b + 1]
  IN /\ Len(o) = bw * bh * bl
     /\ \A j \in 0..(bw * bh - 1) :
          LET bx == j % bw by == j \div bw
              v == TLCEval([k \in 1..bl |-> entry(bx, by, k - 1)])
              q == Max(Range(v)) \div 4096 + 1
              u == TLCEval([k \in 1..bl |-> v[k] \div q])
              norm == ISqrt(SumTo(bl, LAMBDA k : u[k] * u[k]))
          IN IF norm = 0 THEN \A k \in 1..bl : o[j * bl + k] = 0
             ELSE \A k \in 1..bl : Abs(o[j * bl + k] * norm - u[k] * 10000) <= 80 * norm
\* sine and cosine in millionths of any whole number of degrees
SinD(d) == LET a == d % 360 IN IF a <= 180 THEN Sin(a) ELSE -Sin(a - 180)
CosD(d) == SinD(d + 90)
\* The star of cell (cx, cy), h the strengths of its bins: from the tile's centre a ray of the bin's
\* brightness goes to each of its directions (whole degrees here), later bins over earlier ones.
\* Lines cut the fractions of their end points off, so a ray can be two pixels off near its blunt end.
RaysOk(e, o, cx, cy, h) ==
  LET range == IF e.signed THEN 360 ELSE 180
      X0 == cx * e.star Y0 == cy * e.star c == e.star \div 2
      rays == {<<b, ((b - 1) * range) \div e.n>> : b \in 1..e.n}
              \cup (IF e.signed THEN {} ELSE {<<b, ((b - 1) * range) \div e.n + 180>> : b \in 1..e.n})
      near(v, b) == LET i == Min2(255, h[b]) IN Abs(v - i) <= 2 + i \div 40
      \* offset from the centre at t/20 of the ray of direction d, in thousandths of a pixel
      at(d, t) == <<-(((SinD(d) \div 40) * e.star * t) \div 1000), ((CosD(d) \div 40) * e.star * t) \div 1000>>
      close(p, d, lim) == \E t \in 0..20 : LET q == at(d, t) IN Max2(Abs(1000 * p[1] - q[1]), Abs(1000 * p[2] - q[2])) <= lim
      px(p) == Px(o, X0 + c + p[1], Y0 + c + p[2])
      in(p) == c + p[1] >= 0 /\ c + p[2] >= 0 /\ c + p[1] < e.star /\ c + p[2] < e.star
  IN /\ near(px(<<0, 0>>), e.n)
     \* what is drawn lies on a ray
     /\ \A x \in -c..(e.star - 1 - c), y \in -c..(e.star - 1 - c) : px(<<x, y>>) > 0 =>
          \E r \in rays : near(px(<<x, y>>), r[1]) /\ close(<<x, y>>, r[2], 2200)
     \* every ray is there, all along, unless another passes close by
     /\ \A r \in rays : h[r[1]] >= 6 => \A t \in {11, 15, 17} :
          LET q == at(r[2], t) m == <<q[1] \div 1000, q[2] \div 1000>>
              box == {p \in {<<m[1] + i, m[2] + j>> : i, j \in -2..2} : in(p)}
          IN \/ \E s \in rays : s # r /\ \E p \in box : close(p, s[2], 1800)
             \/ \E p \in box : near(px(p), r[1])
\* a rendered grid: stars stay inside their cell's tile, and a cell with any strength of at least 1 shows one
StarsOk(e, o) ==
  LET cw == e.im.w \div e.cell ch == e.im.h \div e.cell
      g == HogGrid(e.im, e)
      unit == e.cell * e.cell * e.cell * e.cell * 10 * MagUnit(e.im)
      str(cx, cy) == Max({g[(cy * cw + cx) * e.n + b] : b \in 1..e.n})
      tile(cx, cy) == {Px(o, x, y) : x \in (cx * e.star)..((cx + 1) * e.star - 1), y \in (cy * e.star)..((cy + 1) * e.star - 1)}
  IN /\ HasDims(o, cw * e.star, ch * e.star, 1)
     /\ \A cx \in 0..cw - 1, cy \in 0..ch - 1 :
          /\ str(cx, cy) = 0 => tile(cx, cy) = {0}
          /\ RaysOk(e, o, cx, cy, [b \in 1..e.n |-> g[(cy * cw + cx) * e.n + b] \div unit])

\* ---- C46.  helpers other code and tests rely on
BWPixel(c, max, white) == CASE c = 1 -> <<IF white THEN max ELSE 0>> [] c = 2 -> <<IF white THEN max ELSE 0, max>>
  [] c = 3 -> [k \in 1..3 |-> IF white THEN max ELSE 0] [] c = 4 -> [k \in 1..4 |-> IF white \/ k = 4 THEN max ELSE 0]
\* <<x, y, actual, expected>> of the pixels with a channel that differs by more than tol, in raster order
DiffSeq(a, b, tol) ==
  LET d(i) == \E k \in 0..a.c - 1 : Abs(a.px[(i - 1) * a.c + k + 1] - b.px[(i - 1) * a.c + k + 1]) > tol
      ix == SelectSeq([i \in 1..Area(a) |-> i], d)
  IN [j \in 1..Len(ix) |-> LET x == (ix[j] - 1) % a.w y == (ix[j] - 1) \div a.w IN <<x, y, Pixel(a, x, y), Pixel(b, x, y)>>]

-----------------------------------------------------------------------------
MiscPost(reg, e) ==
  CASE e.op = "seam_start" -> SeamStart(e.im)
    [] e.op = "seam" /\ Ok(e) /\ SeamOk(reg.im, e.out[1]) -> SeamNext(reg, e.out[1])
    [] e.op = "seam" -> reg
    [] e.op = "shrink" -> reg
    [] e.op = "drawn" -> reg
    [] OTHER -> 0
MiscAccept(reg, e, new) ==
  CASE e.op = "seam_start" -> Ok(e)
    [] e.op = "seam" -> IF reg.im.w < 2 THEN Panics(e) ELSE Ok(e) /\ SeamOk(reg.im, e.out[1]) /\ e.out[2] = new.im
    [] e.op = "shrink" -> Ok(e) /\ e.out = reg.im
    [] e.op = "shrink_bad" -> Panics(e)
    [] e.op = "seam_len" -> Panics(e)
    [] e.op = "drawn" -> Ok(e) /\ e.out = Marked(e.canvas, reg.marks)
    [] e.op = "tm_flat" -> Ok(e) /\ \A k \in 1..Len(e.out) : TmFlatOk(e, e.out[k])
    [] e.op = "tm" ->
         IF e.t.w > e.im.w \/ e.t.h > e.im.h \/ (e.mask # <<>> /\ (e.mask[1].w # e.t.w \/ e.mask[1].h # e.t.h))
         THEN Panics(e)
         ELSE Ok(e) /\ TmOk(e, e.out[1]) /\ \A k \in 2..Len(e.out) : e.out[k] = e.out[1]
    \* a right angle: its corner and the last point of each side, in order around the boundary
    [] e.op = "hull_far" -> Ok(e) /\ LET k == <<1, Min({e.ks[i] : i \in 1..Len(e.ks)})>> m == <<2, Min({e.ms[i] : i \in 1..Len(e.ms)})>> z == <<0, 0>> IN
         e.out \in {<<z, k, m>>, <<k, m, z>>, <<m, z, k>>, <<z, m, k>>, <<m, k, z>>, <<k, z, m>>}
    [] e.op = "hull" -> Ok(e) /\ HullOk(e.ps, e.out)
    [] e.op = "area" -> Ok(e) /\ e.out = <<Area2(e.ps), Abs(Area2(e.ps))>>
    [] e.op = "arc" -> Ok(e) /\ ArcOk(e.ps, FALSE, e.out[1]) /\ ArcOk(e.ps, TRUE, e.out[2])
    \* the closed form leaves out the last point
    [] e.op = "dp" -> Ok(e) /\ DpKeeps(e.ps, e.eps, e.out[1]) /\ DpKeeps(e.ps, e.eps, Append(e.out[2], e.ps[Len(e.ps)]))
    \* random points in general position, the tolerance far below their distances: all are kept, in order
    [] e.op = "dp_tiny" -> LET n == Len(e.ps) IN Ok(e) /\ e.out = <<[k \in 1..n |-> k - 1], [k \in 1..n - 1 |-> k - 1]>>
    [] e.op = "dp_bad" -> Panics(e)
    [] e.op = "rect" -> IF e.ps = <<>> THEN Panics(e) ELSE Ok(e) /\ RectOk(e.ps, e.out)
    [] e.op = "map" -> Ok(e) /\ \A k \in 1..Len(e.out) : e.out[k] = <<Mapped(e.im, e.f, e.c), e.im.w * e.im.h * e.calls>>
    [] e.op = "map_sub" -> Ok(e) /\ LET r == MkImg(e.im.w, e.im.h, e.im.c, LAMBDA x, y, k : (e.f.k + e.f.a[1] * PxC(e.im, x, y, k)) % e.f.m) IN
         \A k \in 1..Len(e.out) : e.out[k] = <<r, e.im.w * e.im.h * e.im.c>>
    [] e.op = "map2" ->
         IF e.a.w # e.b.w \/ e.a.h # e.b.h THEN Panics(e)
         ELSE Ok(e) /\ e.out = <<MkImg(e.a.w, e.a.h, e.a.c, LAMBDA x, y, k : (e.f.k + e.f.a[1] * PxC(e.a, x, y, k) + e.f.a[2] * PxC(e.b, x, y, k)) % 256), Area(e.a)>>
    [] e.op = "channel_into" -> Ok(e) /\ GrayIs(e.out, e.im.w, e.im.h, LAMBDA x, y : PxC(e.im, x, y, e.k))
    [] e.op = "channel_from" -> Ok(e) /\ ImgIs(e.out, e.im.w, e.im.h, 3, LAMBDA x, y, k : IF k = e.k THEN Px(e.im, x, y) ELSE 0)
    [] e.op = "clamp" -> Ok(e) /\ e.out = [k \in 1..Len(e.vs) |-> ClampTo(e.vs[k], e.u, e.lo, e.hi)]
    [] e.op = "wsum" -> \* weights in units of 1/64
         Ok(e) /\ e.out = [k \in 1..Len(e.l) |-> ClampTo(e.l[k] * e.lw + e.r[k] * e.rw, 64, 0, e.hi)]
    [] e.op = "interp" ->
         Ok(e) /\ e.out = [k \in 1..Len(e.l) |-> ClampTo(e.l[k] * e.lw + e.r[k] * (64 - e.lw), 64, 0, e.hi)]
    [] e.op = "phash" -> \* resampling to 32x32 perturbs coefficients near the mean
         Ok(e) /\ Abs(e.out[1] - HashDist(e.a, e.b)) <= (IF e.s = <<32, 32>> /\ e.t = <<32, 32>> THEN 0 ELSE 6) /\ e.out[2] = (e.out[1] = 0) /\ (e.out[2] => e.out[3])
    [] e.op = "phash_metric" -> \* out: 3x3 distances
         Ok(e) /\ LET d == e.out[1] eq == e.out[2] IN
           /\ \A i, j \in 1..3 : d[i][j] \in 0..64 /\ d[i][j] = d[j][i] /\ ((d[i][j] = 0) <=> eq[i][j]) /\ (i = j => d[i][j] = 0)
           /\ \A i, j, k \in 1..3 : d[i][j] <= d[i][k] + d[k][j] /\ (d[i][j] + d[j][k] + d[i][k]) % 2 = 0
           /\ e.out[3]
    [] e.op = "hogspec" ->
         IF HogFits(e) THEN Ok(e) /\ e.out = <<<<HogLen(e)>>, FALSE, FALSE>>
         ELSE Ok(e) /\ e.out[1] = <<>> /\ (e.out[2] => HogBad(e.w, e)) /\ (e.out[3] => HogBad(e.h, e)) /\ (e.out[2] \/ e.out[3])
              /\ (e.w % e.cell = 0 /\ e.h % e.cell = 0 => e.out[2] = HogBad(e.w, e) /\ e.out[3] = HogBad(e.h, e))
    [] e.op = "hog" -> IF ~HogFits(e) THEN Ok(e) /\ e.out = <<>> ELSE Ok(e) /\ Len(e.out) = 1 /\ HogOk(e.im, e, e.out[1])
    [] e.op = "stars" -> Ok(e) /\ StarsOk(e, e.out)
    [] e.op = "kernel" ->
         IF e.w = 0 \/ e.h = 0 \/ e.w * e.h # Len(e.d) THEN Panics(e) ELSE Ok(e) /\ e.out = <<e.d, e.d>>
    [] e.op = "kernel_get" -> IF e.y * e.w + e.x >= Len(e.d) THEN Panics(e) ELSE Ok(e) => e.out = e.d[e.y * e.w + e.x + 1]
    [] e.op = "kconst" -> LET k == NamedKernel(e.name) IN Ok(e) /\ e.out = <<k.w, k.h, k.d>>
    [] e.op = "point" -> LET a == e.a b == e.b s == <<a[1] + b[1], a[2] + b[2]>> d == <<a[1] - b[1], a[2] - b[2]>> IN
         Ok(e) /\ e.out = <<a, s, s, d, d, a = b>>
    [] e.op = "norm" -> \* integer components: exact sum, root rounded to hundredths
         LET l1 == SumTo(Len(e.v), LAMBDA k : Abs(e.v[k])) q == SumTo(Len(e.v), LAMBDA k : e.v[k] * e.v[k]) r == ISqrt(q * 10000) IN
         Ok(e) /\ e.out[1] = l1 /\ e.out[2] \in r..r + 1
    [] e.op = "bw" -> Ok(e) /\ e.out = <<BWPixel(e.c, e.max, FALSE), BWPixel(e.c, e.max, TRUE)>>
    [] e.op = "diffs" -> \* list, list above tol, both summaries empty, assertions hold
         LET same == SameDims(e.a, e.b)
             eq == same /\ DiffSeq(e.a, e.b, 0) = <<>>
             near == same /\ DiffSeq(e.a, e.b, e.tol) = <<>>
         IN Ok(e) /\ (same => e.out[1] = DiffSeq(e.a, e.b, 0) /\ e.out[2] = DiffSeq(e.a, e.b, e.tol))
                  /\ e.out[3] = eq /\ e.out[4] = near /\ e.out[5] = eq /\ e.out[6] = near /\ e.out[7] = same
    [] e.op = "macro" -> Ok(e) /\ e.out = [w |-> e.w, h |-> e.h, c |-> e.c, px |-> e.v]
    [] OTHER -> FALSE
=============================================================================
