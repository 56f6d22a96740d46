------------------------------- MODULE Region -------------------------------
(* C17-C20, C35.  Regions of an image: connected components, the disjoint-   *)
(* set forest behind them, flood fill, borders of components and holes, and  *)
(* hysteresis edge tracking.  Pixels are numbered 1..w*h in raster order.    *)
EXTENDS Img

XOf(w, i) == (i - 1) % w
YOf(w, i) == (i - 1) \div w
N4(w, h, i) == LET x == XOf(w, i) y == YOf(w, i) IN
  (IF x > 0 THEN {i - 1} ELSE {}) \cup (IF x < w - 1 THEN {i + 1} ELSE {})
    \cup (IF y > 0 THEN {i - w} ELSE {}) \cup (IF y < h - 1 THEN {i + w} ELSE {})
N8(w, h, i) == LET x == XOf(w, i) y == YOf(w, i) IN
  {(b * w + a + 1) : <<a, b>> \in {p \in {x - 1, x, x + 1} \X {y - 1, y, y + 1} :
      p[1] >= 0 /\ p[1] < w /\ p[2] >= 0 /\ p[2] < h}} \ {i}
Nb(conn, w, h, i) == IF conn = 4 THEN N4(w, h, i) ELSE N8(w, h, i)

\* everything reachable from `front` along nb (a function from pixels to sets of pixels)
RECURSIVE Grow(_, _, _)
Grow(front, seen, nb) ==
  IF front = {} THEN seen
  ELSE LET nf == (UNION {nb[p] : p \in front}) \ seen IN Grow(nf, seen \cup nf, nb)
Closure(from, nb) == Grow(from, from, nb)
\* the components of the graph nb over the ascending sequence of pixels `ids`, by first pixel
Components(ids, nb) ==
  FoldLeft(LAMBDA a, i : IF i \in a.seen THEN a
             ELSE LET c == Closure({i}, nb) IN [seen |-> a.seen \cup c, cs |-> Append(a.cs, c)],
           [seen |-> {}, cs |-> <<>>], ids).cs
\* all pixels of the image as values, so that pixels of any type can be compared
PixSeq(im) == TLCEval(IF im.c = 1 THEN im.px ELSE [i \in 1..Area(im) |-> SubSeq(im.px, (i - 1) * im.c + 1, i * im.c)])
EqualGraph(v, w, h, conn, P(_)) ==
  TLCEval([i \in 1..(w * h) |-> IF P(v[i]) THEN {j \in Nb(conn, w, h, i) : v[j] = v[i]} ELSE {}])
BoolGraph(v, w, h, conn) == EqualGraph(v, w, h, conn, LAMBDA b : b)
IdsWhere(n, P(_)) == SelectSeq([i \in 1..n |-> i], P)

\* ---- C17
LabelsOk(out, im, bg, conn) ==
  LET v == PixSeq(im)
      n == Area(im)
      b == IF im.c = 1 THEN bg[1] ELSE bg
      nb == EqualGraph(v, im.w, im.h, conn, LAMBDA p : p # b)
      cs == TLCEval(Components(IdsWhere(n, LAMBDA i : v[i] # b), nb))
  IN /\ HasDims(out, im.w, im.h, 1)
     /\ \A i \in 1..n : v[i] = b => out.px[i] = 0
     /\ \A k \in 1..Len(cs) : \A i \in cs[k] : out.px[i] = k

\* ---- C18: state = the partition (least member of each class) and the roots reported since it last changed
UfNew(n) == [rep |-> [i \in 1..n |-> i], root |-> [i \in 1..n |-> -1]]
UfUnion(s, i, j) ==
  LET a == s.rep[i] b == s.rep[j] IN
  IF a = b THEN s
  ELSE LET lo == Min2(a, b) hi == Max2(a, b) IN
       [rep |-> [k \in DOMAIN s.rep |-> IF s.rep[k] = hi THEN lo ELSE s.rep[k]],
        root |-> [s.root EXCEPT ![lo] = -1, ![hi] = -1]]
UfValid(s, i) == i < Len(s.rep)
UfClasses(s) == {{i - 1 : i \in {k \in DOMAIN s.rep : s.rep[k] = r}} : r \in {s.rep[k] : k \in DOMAIN s.rep}}
TreesOk(out, s) ==
  /\ {{out[k][m] : m \in 1..Len(out[k])} : k \in 1..Len(out)} = UfClasses(s)
  /\ Len(out) = Cardinality(UfClasses(s))
  /\ SumSeq([k \in 1..Len(out) |-> Len(out[k])]) = Len(s.rep)

\* ---- C19
Filled(im, x, y, col) ==
  LET v == PixSeq(im)
      c == IF im.c = 1 THEN col[1] ELSE col
      s == y * im.w + x + 1
      reg == TLCEval(Closure({s}, EqualGraph(v, im.w, im.h, 4, LAMBDA p : p = v[s])))
  IN TLCEval(MkImg(im.w, im.h, im.c, LAMBDA a, b, k : IF b * im.w + a + 1 \in reg THEN col[k + 1] ELSE PxC(im, a, b, k)))

\* ---- C20: borders between 8-connected foreground and 4-connected background components.
\* The image is padded with one ring of background; pixels are numbered in the padded image.
Borders(im, t) ==
  LET w == im.w + 2
      h == im.h + 2
      fg == TLCEval([i \in 1..(w * h) |-> LET x == XOf(w, i) - 1 y == YOf(w, i) - 1 IN InImg(im, x, y) /\ Px(im, x, y) > t])
      gf == BoolGraph(fg, w, h, 8)
      gb == TLCEval([i \in 1..(w * h) |-> IF fg[i] THEN {} ELSE {j \in N4(w, h, i) : ~fg[j]}])
      fs == TLCEval(Components(IdsWhere(w * h, LAMBDA i : fg[i]), gf))
      bs == TLCEval(Components(IdsWhere(w * h, LAMBDA i : ~fg[i]), gb))
      CompOf(cs, i) == CHOOSE k \in 1..Len(cs) : i \in cs[k]
      Edge(c, b) == {i \in c : \E j \in N4(w, h, i) : j \in b}
      around(k) == CompOf(bs, Min(fs[k]) - 1)       \* background component around component k
      inside(k) == CompOf(fs, Min(bs[k]) - 1)       \* component around hole k (k > 1; 1 is the frame)
  IN [w |-> w, h |-> h, fs |-> fs, bs |-> bs,
      outer |-> TLCEval([k \in 1..Len(fs) |-> [pts |-> Edge(fs[k], bs[around(k)]), bg |-> around(k)]]),
      hole |-> TLCEval([k \in 1..Len(bs) |-> IF k = 1 THEN [pts |-> {}, fgc |-> 0] ELSE [pts |-> Edge(fs[inside(k)], bs[k]), fgc |-> inside(k)]])]
ContoursOk(out, im, t) ==
  LET B == TLCEval(Borders(im, t))
      Id(p) == (p[2] + 1) * B.w + p[1] + 2
      ids == TLCEval([k \in 1..Len(out) |-> [m \in 1..Len(out[k].pts) |-> Id(out[k].pts[m])]])
      set == TLCEval([k \in 1..Len(out) |-> {ids[k][m] : m \in 1..Len(ids[k])}])
      Outers == {k \in 1..Len(out) : out[k].outer}
      Holes == {k \in 1..Len(out) : ~out[k].outer}
      Adjacent(a, b) == b \in N8(B.w, B.h, a)
      Visits(s, i) == Cardinality({m \in 1..Len(s) : s[m] = i})
      Walk(s, bg) == \* a closed walk along the border, passing a pixel at most once per background side
        /\ \A m \in 1..Len(s) : Len(s) = 1 \/ Adjacent(s[m], s[(m % Len(s)) + 1])
        /\ \A m \in 1..Len(s) : Visits(s, s[m]) <= Cardinality(N4(B.w, B.h, s[m]) \cap bg)
      ParentOk(k, pts, outer) == Len(out[k].parent) = 1 /\ LET q == out[k].parent[1] + 1 IN
        q \in 1..Len(out) /\ out[q].outer = outer /\ set[q] = pts
  IN /\ Cardinality(Outers) = Len(B.fs)
     /\ Cardinality(Holes) = Len(B.bs) - 1
     /\ \A k \in 1..Len(out) : \A m \in 1..Len(out[k].pts) : InImg(im, out[k].pts[m][1], out[k].pts[m][2])
     /\ \A c \in 1..Len(B.fs) : \E k \in Outers :
          /\ set[k] = B.outer[c].pts
          /\ Walk(ids[k], B.bs[B.outer[c].bg])
          /\ IF B.outer[c].bg = 1 THEN out[k].parent = <<>>
             ELSE ParentOk(k, B.hole[B.outer[c].bg].pts, FALSE)
     /\ \A c \in 2..Len(B.bs) : \E k \in Holes :
          /\ set[k] = B.hole[c].pts
          /\ Walk(ids[k], B.bs[c])
          /\ ParentOk(k, B.outer[B.hole[c].fgc].pts, TRUE)
     \* every reported border is one of them
     /\ \A k \in Outers : \E c \in 1..Len(B.fs) : set[k] = B.outer[c].pts
     /\ \A k \in Holes : \E c \in 2..Len(B.bs) : set[k] = B.hole[c].pts

\* ---- C35: from the blurred image on, all in integers (squared magnitudes)
SobelX(b, x, y) == LET P(dx, dy) == PxClamp(b, x + dx, y + dy) IN
  P(1, -1) + 2 * P(1, 0) + P(1, 1) - P(-1, -1) - 2 * P(-1, 0) - P(-1, 1)
SobelY(b, x, y) == LET P(dx, dy) == PxClamp(b, x + dx, y + dy) IN
  P(-1, 1) + 2 * P(0, 1) + P(1, 1) - P(-1, -1) - 2 * P(0, -1) - P(1, -1)
\* the gradient direction rounded to a multiple of 45 degrees; tan 22.5 = sqrt 2 - 1
Direction(gx, gy) ==
  LET a == Abs(gx) b == Abs(gy) IN
  IF (gx = 0 /\ gy = 0) \/ (a + b) * (a + b) < 2 * a * a THEN <<1, 0>>
  ELSE IF (a + b) * (a + b) < 2 * b * b THEN <<0, 1>>
  ELSE IF (gx > 0) = (gy > 0) THEN <<1, 1>> ELSE <<1, -1>>
\* squared magnitude of the pixels that are maximal along their gradient direction, 0 elsewhere
Thinned(b) ==
  LET w == b.w h == b.h
      g == TLCEval([i \in 1..(w * h) |-> LET x == XOf(w, i) y == YOf(w, i) IN <<SobelX(b, x, y), SobelY(b, x, y)>>])
      m == TLCEval([i \in 1..(w * h) |-> g[i][1] * g[i][1] + g[i][2] * g[i][2]])
  IN TLCEval([i \in 1..(w * h) |->
       LET x == XOf(w, i) y == YOf(w, i) d == Direction(g[i][1], g[i][2]) o == d[2] * w + d[1] IN
       IF x > 0 /\ y > 0 /\ x < w - 1 /\ y < h - 1 /\ m[i] >= m[i + o] /\ m[i] >= m[i - o] THEN m[i] ELSE 0])
AtLeast(m2, t) == t <= 0 \/ m2 >= t * t
\* the steps the tracking takes: all eight, or (as found, see known findings) neither north nor north-east
Track6(w, i) == {i + 1, i + w + 1, i + w, i - w - 1, i - 1, i + w - 1}
Edges(b, lo, hi, full) ==
  LET w == b.w h == b.h
      m == Thinned(b)
      inner(i) == XOf(w, i) > 0 /\ YOf(w, i) > 0 /\ XOf(w, i) < w - 1 /\ YOf(w, i) < h - 1
      weak == TLCEval([i \in 1..(w * h) |-> inner(i) /\ AtLeast(m[i], lo)])
      nb == TLCEval([i \in 1..(w * h) |-> IF weak[i] THEN {j \in (IF full THEN N8(w, h, i) ELSE Track6(w, i)) : weak[j]} ELSE {}])
      seeds == {i \in 1..(w * h) : weak[i] /\ AtLeast(m[i], hi)}
      e == TLCEval(Closure(seeds, nb))
  IN TLCEval(MkGray(w, h, LAMBDA x, y : IF y * w + x + 1 \in e THEN 255 ELSE 0))

-----------------------------------------------------------------------------
\* combs, lattices and snakes: regions of many arms, whose 1s are all connected; every pixel row by row, from each of the
\* two functions
Comb(pat, x, y, s) ==
  CASE pat = 0 -> y = s \/ x % 2 = 0
    [] pat = 1 -> y % 2 = 0 \/ x % 2 = 0
    [] pat = 2 -> x = s \/ y % 2 = 0
    [] OTHER -> TRUE
FillCombOk(e) ==
  LET w == e.w h == e.h
      want == TLCEval([i \in 1..w * h |-> IF Comb(e.pat, (i - 1) % w, (i - 1) \div w, e.s) THEN 7 ELSE 0])
  IN Comb(e.pat, e.x, e.y, e.s) /\ \A k \in 1..2 : e.out[k] = want

RegionPost(reg, e) ==
  CASE e.op = "uf_new" -> UfNew(e.n)
    [] e.op = "uf_union" -> IF UfValid(reg, e.i) /\ UfValid(reg, e.j) THEN UfUnion(reg, e.i + 1, e.j + 1) ELSE reg
    [] e.op = "uf_root" -> IF UfValid(reg, e.i) /\ Ok(e) THEN [reg EXCEPT !.root[reg.rep[e.i + 1]] = e.out] ELSE reg
    [] e.op \in {"uf_find", "uf_num", "uf_trees", "uf_trees_far"} -> reg
    [] e.op = "begin" -> e.im
    [] e.op = "s_fill" -> IF e.x < reg.w /\ e.y < reg.h THEN Filled(reg, e.x, e.y, e.col) ELSE reg
    [] OTHER -> 0
RegionAccept(reg, e, new) ==
  CASE e.op = "uf_new" -> Ok(e)
    [] e.op = "uf_union" -> IF UfValid(reg, e.i) /\ UfValid(reg, e.j) THEN Ok(e) ELSE Panics(e)
    [] e.op = "uf_root" ->
         IF ~UfValid(reg, e.i) THEN Panics(e)
         ELSE LET r == reg.rep[e.i + 1] IN
              Ok(e) /\ UfValid(reg, e.out) /\ reg.rep[e.out + 1] = r /\ (reg.root[r] # -1 => e.out = reg.root[r])
    [] e.op = "uf_find" ->
         IF UfValid(reg, e.i) /\ UfValid(reg, e.j) THEN Ok(e) /\ e.out = (reg.rep[e.i + 1] = reg.rep[e.j + 1]) ELSE Panics(e)
    [] e.op = "uf_num" -> Ok(e) /\ e.out = Cardinality({reg.rep[k] : k \in DOMAIN reg.rep})
    [] e.op = "uf_trees" -> Ok(e) /\ TreesOk(e.out, reg)
    \* a large forest: the trees of more than one element, the number of trees and of distinct elements in them
    [] e.op = "uf_trees_far" -> Ok(e) /\
         LET n == Len(reg.rep)
             joint == {reg.rep[k] : k \in {j \in 1..n : reg.rep[j] # j}}
             many == {{i - 1 : i \in {k \in 1..n : reg.rep[k] = r}} : r \in joint} IN
         /\ {Range(e.out[1][k]) : k \in 1..Len(e.out[1])} = many /\ Len(e.out[1]) = Cardinality(joint)
         /\ \A k \in 1..Len(e.out[1]) : Len(e.out[1][k]) = Cardinality(Range(e.out[1][k]))
         /\ e.out[2] = Cardinality({reg.rep[k] : k \in 1..n}) /\ e.out[3] = n
    [] e.op = "cc" -> Ok(e) /\ LabelsOk(e.out, e.im, e.bg, e.conn)
    \* isolated pixels at the even positions; in cc_bar also the whole last row (h even, so it
    \* touches the dots of no row under 4-, and of the row above it under 8-connectivity)
    [] e.op = "cc_dots" -> Ok(e) /\ GrayIs(e.out, e.w, e.h, LAMBDA x, y :
         IF x % 2 = 0 /\ y % 2 = 0 THEN (y \div 2) * ((e.w + 1) \div 2) + x \div 2 + 1 ELSE 0)
    [] e.op = "cc_bar" -> Ok(e) /\ LET last == ((e.h - 2) \div 2) * ((e.w + 1) \div 2) + 1 IN
         GrayIs(e.out, e.w, e.h, LAMBDA x, y :
           IF y = e.h - 1 \/ (y = e.h - 2 /\ x % 2 = 0) THEN last
           ELSE IF x % 2 = 0 /\ y % 2 = 0 THEN (y \div 2) * ((e.w + 1) \div 2) + x \div 2 + 1 ELSE 0)
    [] e.op = "begin" -> TRUE
    [] e.op = "fill_comb" -> Ok(e) /\ FillCombOk(e)
    [] e.op = "fill" -> IF e.x < e.im.w /\ e.y < e.im.h
         THEN Ok(e) /\ LET r == Filled(e.im, e.x, e.y, e.col) IN \A k \in 1..Len(e.out) : e.out[k] = r
         ELSE Panics(e)
    [] e.op = "s_fill" -> IF e.x < reg.w /\ e.y < reg.h THEN Ok(e) /\ e.out = new ELSE Panics(e)
    [] e.op = "contours" -> Ok(e) /\ ContoursOk(e.out, e.im, e.t)
    [] e.op = "canny" -> IF e.lo > e.hi THEN Panics(e)
         ELSE Ok(e) /\ HasDims(e.blur, e.w, e.h, 1) /\ (e.out = Edges(e.blur, e.lo, e.hi, FALSE) \/ e.out = Edges(e.blur, e.lo, e.hi, TRUE))
    [] e.op = "canny_full" -> Ok(e) /\ e.out = Edges(e.blur, e.lo, e.hi, TRUE)
    [] OTHER -> FALSE
=============================================================================
