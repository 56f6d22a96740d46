------------------------------ MODULE Compose ------------------------------
(* C01.  Compositing operations as functions on images and as actions on a   *)
(* single image register (the in-place API).                                 *)
EXTENDS Img

CropOk(im, x, y, w, h) == x + w <= im.w /\ y + h <= im.h
Crop(im, x, y, w, h) == MkImg(w, h, im.c, LAMBDA u, v, k : PxC(im, x + u, y + v, k))
FlipH(im) == MkImg(im.w, im.h, im.c, LAMBDA u, v, k : PxC(im, im.w - 1 - u, v, k))
FlipV(im) == MkImg(im.w, im.h, im.c, LAMBDA u, v, k : PxC(im, u, im.h - 1 - v, k))
\* top placed with its origin at (x, y); Comb is the per-pixel combination
PlaceOk(bot, x, y) == x < bot.w /\ y < bot.h
Place(bot, top, x, y, Comb(_, _)) ==
  LET px == [q \in 1..(bot.w * bot.h) |->
               LET u == (q - 1) % bot.w  v == (q - 1) \div bot.w IN
               IF InImg(top, u - x, v - y)
               THEN Comb(Pixel(bot, u, v), Pixel(top, u - x, v - y))
               ELSE Pixel(bot, u, v)]
  IN MkImg(bot.w, bot.h, bot.c, LAMBDA u, v, k : px[v * bot.w + u + 1][k + 1])
Replace(bot, top, x, y) == Place(bot, top, x, y, LAMBDA b, t : t)
\* the blend of two pixels is the image crate's; its graph on the pixel
\* pairs at hand is given as a sequence of [b, t, r]
BlendBy(tbl, b, t) == (CHOOSE r \in Range(tbl) : r.b = b /\ r.t = t).r
Overlay(bot, top, x, y, tbl) == Place(bot, top, x, y, LAMBDA b, t : BlendBy(tbl, b, t))

-----------------------------------------------------------------------------
(* Conformance.  Events come either as pure calls (input in the event) or as *)
(* steps of a session acting on the register reg.                            *)
ComposePost(reg, e) ==
  CASE e.op = "begin" -> e.im
    [] e.op = "s_flip_h" -> FlipH(reg)
    [] e.op = "s_flip_v" -> FlipV(reg)
    [] e.op = "s_replace" -> IF PlaceOk(reg, e.x, e.y) THEN Replace(reg, e.top, e.x, e.y) ELSE reg
    [] e.op = "s_overlay" -> IF PlaceOk(reg, e.x, e.y) THEN Overlay(reg, e.top, e.x, e.y, e.bl) ELSE reg
    [] e.op = "s_crop" -> IF CropOk(reg, e.x, e.y, e.w, e.h) THEN Crop(reg, e.x, e.y, e.w, e.h) ELSE reg
    [] OTHER -> 0

All(outs, img) == \A i \in 1..Len(outs) : outs[i] = img
ComposeAccept(reg, e, new) ==
  CASE e.op = "begin" -> TRUE
    [] e.op \in {"s_replace", "s_overlay"} ->
         IF PlaceOk(reg, e.x, e.y) THEN Ok(e) /\ e.out = new ELSE Panics(e)
    [] e.op = "s_crop" ->
         IF CropOk(reg, e.x, e.y, e.w, e.h) THEN Ok(e) /\ e.out = new ELSE Panics(e)
    [] e.op \in {"s_flip_h", "s_flip_v"} -> Ok(e) /\ e.out = new
    [] e.op = "crop" ->
         IF CropOk(e.im, e.x, e.y, e.w, e.h)
         THEN Ok(e) /\ LET r == TLCEval(Crop(e.im, e.x, e.y, e.w, e.h)) IN All(e.out, r)
         ELSE Panics(e)
    [] e.op = "flip_h" -> Ok(e) /\ LET r == TLCEval(FlipH(e.im)) IN All(e.out, r)
    [] e.op = "flip_v" -> Ok(e) /\ LET r == TLCEval(FlipV(e.im)) IN All(e.out, r)
    [] e.op = "replace" ->
         IF PlaceOk(e.im, e.x, e.y)
         THEN Ok(e) /\ LET r == TLCEval(Replace(e.im, e.top, e.x, e.y)) IN All(e.out, r)
         ELSE Panics(e)
    [] e.op = "overlay" ->
         IF PlaceOk(e.im, e.x, e.y)
         THEN Ok(e) /\ LET r == TLCEval(Overlay(e.im, e.top, e.x, e.y, e.bl)) IN All(e.out, r)
         ELSE Panics(e)
    [] OTHER -> FALSE
=============================================================================
