-------------------------------- MODULE Geom --------------------------------
(* C02, C03.  Exact transforms, inverse-mapping warps and the algebra of     *)
(* projections over integer homogeneous matrices.                            *)
EXTENDS Img

\* ---------------------------------------------------------------- C02
\* Source location of output pixel (u, v).
Rot90(im) == MkImg(im.h, im.w, im.c, LAMBDA u, v, k : PxC(im, v, im.h - 1 - u, k))
Rot180(im) == MkImg(im.w, im.h, im.c, LAMBDA u, v, k : PxC(im, im.w - 1 - u, im.h - 1 - v, k))
Rot270(im) == MkImg(im.h, im.w, im.c, LAMBDA u, v, k : PxC(im, im.w - 1 - v, u, k))
Translate(im, tx, ty) == MkImg(im.w, im.h, im.c, LAMBDA u, v, k : PxClampC(im, u - tx, v - ty, k))

\* ---------------------------------------------------------------- C03
\* A matrix is a sequence of 9 integers; points map homogeneously.
Mul(a, b) == [i \in 1..9 |-> LET r == (i - 1) \div 3  c == (i - 1) % 3 IN
                a[3 * r + 1] * b[c + 1] + a[3 * r + 2] * b[c + 4] + a[3 * r + 3] * b[c + 7]]
Adj(m) == << m[5]*m[9] - m[6]*m[8], m[3]*m[8] - m[2]*m[9], m[2]*m[6] - m[3]*m[5],
             m[6]*m[7] - m[4]*m[9], m[1]*m[9] - m[3]*m[7], m[3]*m[4] - m[1]*m[6],
             m[4]*m[8] - m[5]*m[7], m[2]*m[7] - m[1]*m[8], m[1]*m[5] - m[2]*m[4] >>
Det(m) == m[1] * (m[5]*m[9] - m[6]*m[8]) - m[2] * (m[4]*m[9] - m[6]*m[7]) + m[3] * (m[4]*m[8] - m[5]*m[7])
\* <<X, Y, D>> with D > 0: the point is (X/D, Y/D)
MapPt(m, x, y) ==
  LET X == m[1]*x + m[2]*y + m[3]  Y == m[4]*x + m[5]*y + m[6]  D == m[7]*x + m[8]*y + m[9]
  IN IF D < 0 THEN <<-X, -Y, -D>> ELSE <<X, Y, D>>

Nearest(im, p, k, def) ==
  LET D == p[3]  rx == (2 * p[1] + D) \div (2 * D)  ry == (2 * p[2] + D) \div (2 * D)
  IN IF InImg(im, rx, ry) THEN PxC(im, rx, ry, k) ELSE def
\* samples are clamped to 0..mx and rounded down at every step
ClampM(n, d, mx) == Clamp(n \div d, 0, mx)
Bilinear(im, p, k, def, mx) ==
  LET D == p[3]  l == p[1] \div D  t == p[2] \div D  a == p[1] % D  b == p[2] % D
  IN IF l >= 0 /\ t >= 0 /\ l + 1 < im.w /\ t + 1 < im.h
     THEN LET top == ClampM((D - a) * PxC(im, l, t, k) + a * PxC(im, l + 1, t, k), D, mx)
              bot == ClampM((D - a) * PxC(im, l, t + 1, k) + a * PxC(im, l + 1, t + 1, k), D, mx)
          IN ClampM((D - b) * top + b * bot, D, mx)
     ELSE def
\* the Catmull-Rom cubic through p1, p2 at a/D, times 2 D^3
CubicN(p0, p1, p2, p3, a, D) ==
  2 * D * D * D * p1 + a * (D * D * (p2 - p0) + a * (D * (2 * p0 - 5 * p1 + 4 * p2 - p3) + a * (3 * (p1 - p2) + p3 - p0)))
Cubic(p0, p1, p2, p3, a, D, mx) == ClampM(CubicN(p0, p1, p2, p3, a, D), 2 * D * D * D, mx)
Bicubic(im, p, k, def, mx) ==
  LET D == p[3]  l == p[1] \div D - 1  t == p[2] \div D - 1  a == p[1] % D  b == p[2] % D
      Row(r) == Cubic(PxC(im, l, r, k), PxC(im, l + 1, r, k), PxC(im, l + 2, r, k), PxC(im, l + 3, r, k), a, D, mx)
  IN IF l >= 0 /\ t >= 0 /\ l + 4 < im.w /\ t + 4 < im.h
     THEN Cubic(Row(t), Row(t + 1), Row(t + 2), Row(t + 3), b, D, mx)
     ELSE def
SampleM(im, p, k, interp, def, mx) ==
  IF p[3] = 0 THEN def
  ELSE CASE interp = "n" -> Nearest(im, p, k, def)
         [] interp = "l" -> Bilinear(im, p, k, def, mx)
         [] interp = "c" -> Bicubic(im, p, k, def, mx)
Sample(im, p, k, interp, def) == SampleM(im, p, k, interp, def, 255)
\* real-valued samples: nothing is clamped or rounded; v is the sample times 256
SampleReal(im, p, k, interp, def, v) ==
  LET D == p[3]  l == p[1] \div D  t == p[2] \div D  a == p[1] % D  b == p[2] % D
      At(x, y) == PxC(im, x, y, k)
      Lin1(u, w, f) == (D - f) * u + f * w
      Row(r) == CubicN(At(l - 1, r), At(l, r), At(l + 1, r), At(l + 2, r), a, D)
  IN IF D = 0 THEN v = 256 * def
     ELSE CASE interp = "n" -> v = 256 * Nearest(im, p, k, def)
            [] interp = "l" -> IF l >= 0 /\ t >= 0 /\ l + 1 < im.w /\ t + 1 < im.h
                 THEN v * D * D = 256 * Lin1(Lin1(At(l, t), At(l + 1, t), a), Lin1(At(l, t + 1), At(l + 1, t + 1), a), b)
                 ELSE v = 256 * def
            [] interp = "c" -> IF l >= 1 /\ t >= 1 /\ l + 3 < im.w /\ t + 3 < im.h
                 THEN v * 4 * D * D * D * D * D * D = 256 * CubicN(Row(t - 1), Row(t), Row(t + 1), Row(t + 2), b, D)
                 ELSE v = 256 * def
\* The same up to a small error in the sample position (e/S pixels, S = 2048)
\* and up to tol grey levels: what is required of float sampling maps that are
\* not exactly representable.
SampleTol(im, p, k, interp, def, v, e, tol) ==
  \E dx, dy \in {-e, 0, e} :
    Abs(v - Sample(im, <<2048 * p[1] + dx * p[3], 2048 * p[2] + dy * p[3], 2048 * p[3]>>, k, interp, def)) <= tol
WarpedTol(out, im, m, interp, def, w, h, e, tol) ==
  /\ out.w = w /\ out.h = h /\ out.c = im.c
  /\ \A x \in 0..(w - 1), y \in 0..(h - 1), k \in 0..(im.c - 1) :
       LET p == MapPt(m, x, y) IN p = <<0, 0, 0>> \/ SampleTol(im, p, k, interp, def[k + 1], PxC(out, x, y, k), e, tol)
\* m maps output coordinates to sample coordinates
\* (0, 0, 0) is no point at all: nothing is asked there
Warped(out, im, m, interp, def, w, h, mx) ==
  ImgIs(out, w, h, im.c, LAMBDA x, y, k : LET p == MapPt(m, x, y) IN
     IF p = <<0, 0, 0>> THEN PxC(out, x, y, k) ELSE SampleM(im, p, k, interp, def[k + 1], mx))
WarpedReal(out, im, m, interp, def, w, h) ==
  /\ HasDims(out, w, h, im.c)
  /\ \A x \in 0..(w - 1), y \in 0..(h - 1), k \in 0..(im.c - 1) :
       LET p == MapPt(m, x, y) IN p = <<0, 0, 0>> \/ SampleReal(im, p, k, interp, def[k + 1], PxC(out, x, y, k))

\* ------------------------------------------------- projection sessions
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, a % Abs(b))
Reduce(m) == LET g == FoldLeft(LAMBDA a, v : Gcd(a, v), 0, m) IN
             IF g = 0 THEN m ELSE [i \in 1..9 |-> TDiv(m[i], g)]
Ident == <<1, 0, 0, 0, 1, 0, 0, 0, 1>>
\* observation: pts is a sequence of <<x, y, ox, oy>>, ox and oy the mapped
\* point times S rounded to the nearest integer; floats err in proportion
PtsOk(m, pts, S) ==
  \A i \in 1..Len(pts) :
    LET q == pts[i]  p == MapPt(m, q[1], q[2]) IN
    p[3] # 0 => /\ Abs(q[3] * p[3] - S * p[1]) <= p[3] + Abs(p[1]) \div 16
                /\ Abs(q[4] * p[3] - S * p[2]) <= p[3] + Abs(p[2]) \div 16

GeneralPosition(q) ==  \* no three of the four points on a line
  \A i, j, k \in 1..4 : i < j /\ j < k =>
     (q[j][1] - q[i][1]) * (q[k][2] - q[i][2]) # (q[k][1] - q[i][1]) * (q[j][2] - q[i][2])

\* far from lying on a line, so that 32-bit floats can tell where the points go
WellSpread(q) ==
  LET area(i, j, k) == Abs((q[j][1] - q[i][1]) * (q[k][2] - q[i][2]) - (q[k][1] - q[i][1]) * (q[j][2] - q[i][2]))
      a == {area(1, 2, 3), area(1, 2, 4), area(1, 3, 4), area(2, 3, 4)} IN
  \A u, v \in a : u <= 40 * v

-----------------------------------------------------------------------------
GeomPost(reg, e) ==
  CASE e.op = "begin" -> e.im
    [] e.op = "s_rot90" -> Rot90(reg)
    [] e.op = "s_rot180" -> Rot180(reg)
    [] e.op = "s_rot270" -> Rot270(reg)
    [] e.op = "s_translate" -> Translate(reg, e.tx, e.ty)
    [] e.op = "p_begin" -> Ident
    [] e.op = "p_then" -> Reduce(Mul(e.m, reg))      \* and_then: e.m after reg
    [] e.op = "p_before" -> Reduce(Mul(reg, e.m))    \* self * e.m: e.m first
    [] e.op = "p_invert" -> Reduce(Adj(reg))
    [] OTHER -> 0

AllEq(outs, img) == \A i \in 1..Len(outs) : outs[i] = img
GeomAccept(reg, e, new) ==
  CASE e.op \in {"begin", "p_begin"} -> TRUE
    [] e.op \in {"s_rot90", "s_rot180", "s_rot270", "s_translate"} -> Ok(e) /\ e.out = new
    [] e.op = "rots" -> Ok(e) /\ e.out[1] = Rot90(e.im) /\ e.out[2] = Rot180(e.im)
                              /\ e.out[3] = Rot180(e.im) /\ e.out[4] = Rot270(e.im)
    [] e.op = "translate" -> Ok(e) /\ e.out = Translate(e.im, e.tx, e.ty)
    [] e.op = "warp" -> Ok(e) /\ \A i \in 1..Len(e.out) : Warped(e.out[i], e.im, e.m, e.i, e.d, e.w, e.h, e.mx)
    [] e.op = "warpf" -> Ok(e) /\ \A i \in 1..Len(e.out) : WarpedReal(e.out[i], e.im, e.m, e.i, e.d, e.w, e.h)
    [] e.op = "warp_tol" -> Ok(e) /\ \A i \in 1..Len(e.out) :
         WarpedTol(e.out[i], e.im, e.m, e.i, e.d, e.w, e.h, 2, IF e.i = "n" THEN 0 ELSE 4)
    [] e.op \in {"p_then", "p_before", "p_invert"} -> Ok(e) /\ PtsOk(new, e.out, 1024)
    [] e.op = "from_matrix" ->
         Ok(e) /\ IF Det(e.m) = 0 THEN e.out = <<>>
                  ELSE e.out # <<>> /\ PtsOk(e.m, e.out[1][1], 1024) /\ PtsOk(Adj(e.m), e.out[1][2], 1024)
    \* almost the identity: (1 + s/2^18, 0, 0; 0, 1 + s/2^18, 0; a/2^18, b/2^18, 1) on multiples of 4096; sixteenths
    [] e.op = "faint" -> Ok(e) /\ e.out # <<>> /\ \A i \in 1..Len(e.out[1]) :
         LET q == e.out[1][i]  d == e.a * q[1] + e.b * q[2] + 64
             near(v, u) == Abs(v - (4194304 * u + 16 * e.s * u) \div d) <= 4 IN
         near(q[3], q[1]) /\ near(q[4], q[2]) /\ Abs(q[5] - 65536 * q[1]) <= 6 /\ Abs(q[6] - 65536 * q[2]) <= 6
    [] e.op = "control" ->
         LET maps(i) == /\ Abs(e.out[1][1][i][1] - 256 * e.to[i][1]) <= 16
                        /\ Abs(e.out[1][1][i][2] - 256 * e.to[i][2]) <= 16
             \* the inverse maps targets back to sources
             back(i) == /\ Abs(e.out[1][2][i][1] - 256 * e.from[i][1]) <= 16
                        /\ Abs(e.out[1][2][i][2] - 256 * e.from[i][2]) <= 16 IN
         Ok(e) /\ IF GeneralPosition(e.from) /\ GeneralPosition(e.to)
                  THEN e.out # <<>> /\ (WellSpread(e.from) /\ WellSpread(e.to) => \A i \in 1..4 : maps(i) /\ back(i))
                  \* no projection, or one which maps the points nonetheless
                  ELSE e.out = <<>> \/ \A i \in 1..4 : maps(i)
    [] OTHER -> FALSE
=============================================================================
