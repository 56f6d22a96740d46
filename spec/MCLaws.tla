------------------------------- MODULE MCLaws -------------------------------
(* The specification itself, checked: algebraic laws of the definitions the  *)
(* traces are judged by, over every small image.                             *)
EXTENDS Img
CONSTANTS Shapes, Vals, Group
VARIABLE im
C == INSTANCE Compose
G == INSTANCE Geom
M == INSTANCE Morph
S == INSTANCE Stat
F == INSTANCE Filter
R == INSTANCE Region
Init == \E s \in {<<3, 2>>, <<2, 3>>, <<3, 3>>} :
          /\ s[1] * s[2] \in Shapes
          /\ \E px \in [1..(s[1] * s[2]) -> Vals] : im = [w |-> s[1], h |-> s[2], c |-> 1, px |-> px]
Next == UNCHANGED im
Spec == Init /\ [][Next]_im

\* C01, C02
Flips == /\ C!FlipH(C!FlipH(im)) = im /\ C!FlipV(C!FlipV(im)) = im
         /\ C!FlipH(C!FlipV(im)) = G!Rot180(im)
         /\ G!Rot90(G!Rot90(im)) = G!Rot180(im) /\ G!Rot270(G!Rot90(im)) = im
         /\ G!Rot90(C!FlipH(im)) = C!FlipV(G!Rot90(im))
Crops == \A x \in 0..im.w, y \in 0..im.h : \A w \in 0..im.w - x, h \in 0..im.h - y :
           LET c == C!Crop(im, x, y, w, h) IN
           /\ x < im.w /\ y < im.h => C!Replace(im, c, x, y) = im
           /\ \A u \in 0..w, v \in 0..h : C!Crop(c, u, v, w - u, h - v) = C!Crop(im, x + u, y + v, w - u, h - v)
Moves == /\ G!Translate(im, 0, 0) = im
         /\ \A a, b \in 0..2 : \A t \in {-1, 0, 1} :
              G!Translate(G!Translate(im, a, t), b, t) = G!Translate(im, a + b, 2 * t)
\* C04, C06, C07
Sobel == F!FilterImg(im, F!SobelH, -2000, 2000).px = [i \in 1..Area(im) |->
            LET x == (i - 1) % im.w y == (i - 1) \div im.w IN -F!FilterImg(C!FlipH(im), F!SobelH, -2000, 2000).px[y * im.w + im.w - x]]
Separable == \A a \in {<<1, 2, 1>>, <<-1, 0, 1>>} : \A b \in {<<1, 2, 1>>, <<3, 0, -1>>} :
   LET k == [w |-> 3, h |-> 3, d |-> [i \in 1..9 |-> a[((i - 1) % 3) + 1] * b[((i - 1) \div 3) + 1]]] IN
   F!FilterImg(F!FilterImg(im, F!HKern(a), -9999, 9999), F!VKern(b), -9999, 9999) = F!FilterImg(im, k, -9999, 9999)
OneMedian == \A rx, ry \in 0..1 : \A x \in 0..im.w - 1, y \in 0..im.h - 1 :
   Cardinality({v \in Vals : F!IsMedian(im, x, y, 0, rx, ry, v)}) = 1
\* C13
Bin(a) == [a EXCEPT !.px = [i \in DOMAIN a.px |-> IF a.px[i] # 0 THEN 255 ELSE 0]]
Not(a) == [a EXCEPT !.px = [i \in DOMAIN a.px |-> IF a.px[i] # 0 THEN 0 ELSE 255]]
Leq(a, b) == \A i \in DOMAIN a.px : a.px[i] <= b.px[i]
Morph == \A n \in {"L1", "LInf", "L2"} : \A k \in 0..3 :
   LET m(f, a) == M!Morph(f, a, n, k) b == Bin(im) o == m("open", im) c == m("close", im) IN
   /\ k = 0 => m("dilate", im) = b /\ m("erode", im) = b
   /\ m("erode", im) = Not(m("dilate", Not(im)))
   /\ Leq(m("erode", im), o) /\ Leq(o, b) /\ Leq(b, c) /\ Leq(c, m("dilate", im))
   /\ m("open", o) = o /\ m("close", c) = c
   /\ n # "L2" => M!Dilate(M!Dilate(im, n, k), n, 1) = M!Dilate(im, n, k + 1)
\* C16
Mask(k, r) == M!Offsets([kind |-> k, r |-> r], im.w, im.h)
GrayLaws == \A k \in {"square", "diamond", "disk"} : \A r \in 0..2 :
   LET g(f, a) == M!Gray(f, a, Mask(k, r)) o == g("open", im) c == g("close", im) IN
   /\ Leq(g("erode", im), o) /\ Leq(o, im) /\ Leq(im, c) /\ Leq(c, g("dilate", im))
   /\ g("open", o) = o /\ g("close", c) = c
   /\ r = 0 => g("dilate", im) = im
BinaryGray == \A r \in 0..2 : M!Gray("dilate", Bin(im), Mask("square", r)) = M!Dilate(im, "LInf", r)
                              /\ M!Gray("erode", Bin(im), Mask("diamond", r)) = M!Erode(im, "L1", r)
\* C10
Levels == \A t \in Vals : \A s \in Vals :
   /\ S!Thresh(t, s, "b") + S!Thresh(t, s, "bi") = 255
   /\ S!Thresh(t, s, "z") + S!Thresh(t, s, "zi") = s
   /\ S!Thresh(t, S!Thresh(t, s, "tr"), "tr") = S!Thresh(t, s, "tr")
\* C12: the threshold splits the image unless it has one level only
Otsu == (\E v \in 0..255 : S!OtsuOk(v, im.px))
\* C17, C19
Id(conn, bg) == LET v == im.px IN R!Components(R!IdsWhere(Area(im), LAMBDA i : v[i] # bg), R!EqualGraph(v, im.w, im.h, conn, LAMBDA p : p # bg))
Parts == \A bg \in Vals : \A conn \in {4, 8} : LET cs == Id(conn, bg) IN
   /\ UNION {cs[k] : k \in 1..Len(cs)} = {i \in 1..Area(im) : im.px[i] # bg}
   /\ \A j, k \in 1..Len(cs) : j # k => cs[j] \cap cs[k] = {}
   /\ conn = 4 => \A j \in 1..Len(cs) : \E k \in 1..Len(Id(8, bg)) : cs[j] \subseteq Id(8, bg)[k]
Geometry == Group = "geometry" => Flips /\ Crops /\ Moves
Filters == Group = "filters" => Sobel /\ Separable /\ OneMedian
Morphology == Group = "morphology" => Morph /\ GrayLaws /\ BinaryGray
Regions == Group = "regions" => Levels /\ Otsu /\ Parts
=============================================================================
