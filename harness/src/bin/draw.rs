use ab_glyph::{point, CodepointIdIter, Font, GlyphId, Outline, OutlineCurve, PxScale};
use image::{GrayImage, Luma, Rgb, RgbImage, Rgba, RgbaImage};
use imageproc::drawing::*;
use imageproc::point::Point;
use imageproc::rect::{Rect, Region};
use std::cell::RefCell;
use vh::image::{GenericImage, ImageBuffer, Pixel};
use vh::*;

type Pt = (i32, i32);
/// A canvas that records its writes.
struct Log<P> { w: u32, h: u32, pts: Vec<(i64, i64)>, col: Option<P> }
impl<P: Pixel + PartialEq> Log<P> {
    fn new(w: u32, h: u32) -> Self { Log { w, h, pts: vec![], col: None } }
}
impl<P: Pixel + PartialEq> Canvas for Log<P> {
    type Pixel = P;
    fn dimensions(&self) -> (u32, u32) { (self.w, self.h) }
    fn get_pixel(&self, _: u32, _: u32) -> P { *P::from_slice(&vec![<P::Subpixel as vh::image::Primitive>::DEFAULT_MIN_VALUE; P::CHANNEL_COUNT as usize]) }
    fn draw_pixel(&mut self, x: u32, y: u32, c: P) {
        if self.col.is_some_and(|d| d != c) { self.pts.push((-1, -1)) }
        self.col = Some(c);
        self.pts.push((x as i64, y as i64));
    }
}
fn q(v: i32) -> f32 { v as f32 / 4.0 }
fn rect(a: &[i32]) -> Rect { Rect::at(a[0], a[1]).of_size(a[2] as u32, a[3] as u32) }
fn fpts(a: &[i32]) -> Vec<Point<f32>> { a.chunks(2).map(|c| Point::new(q(c[0]), q(c[1]))).collect() }
fn ipts(a: &[Pt]) -> Vec<Point<i32>> { a.iter().map(|p| Point::new(p.0, p.1)).collect() }
fn on<C: Canvas>(c: &mut C, kind: &str, a: &[i32], col: C::Pixel) {
    match kind {
        "line" => draw_line_segment_mut(c, (q(a[0]), q(a[1])), (q(a[2]), q(a[3])), col),
        "hollow_rect" => draw_hollow_rect_mut(c, rect(a), col),
        "filled_rect" => draw_filled_rect_mut(c, rect(a), col),
        "cross" => draw_cross_mut(c, col, a[0], a[1]),
        "hollow_circle" => draw_hollow_circle_mut(c, (a[0], a[1]), a[2], col),
        "filled_circle" => draw_filled_circle_mut(c, (a[0], a[1]), a[2], col),
        "hollow_ellipse" => draw_hollow_ellipse_mut(c, (a[0], a[1]), a[2], a[3], col),
        "filled_ellipse" => draw_filled_ellipse_mut(c, (a[0], a[1]), a[2], a[3], col),
        "polygon" => draw_polygon_mut(c, &a.chunks(2).map(|p| Point::new(p[0], p[1])).collect::<Vec<_>>(), col),
        "hollow_polygon" => draw_hollow_polygon_mut(c, &fpts(a), col),
        "bezier" => draw_cubic_bezier_curve_mut(c, (a[0] as f32, a[1] as f32), (a[2] as f32, a[3] as f32), (a[4] as f32, a[5] as f32), (a[6] as f32, a[7] as f32), col),
        _ => unreachable!(),
    }
}
fn pure<P: Pixel>(im: &mut ImageBuffer<P, Vec<P::Subpixel>>, kind: &str, a: &[i32], col: P) -> ImageBuffer<P, Vec<P::Subpixel>> {
    match kind {
        "line" => draw_line_segment(im, (q(a[0]), q(a[1])), (q(a[2]), q(a[3])), col),
        "hollow_rect" => draw_hollow_rect(im, rect(a), col),
        "filled_rect" => draw_filled_rect(im, rect(a), col),
        "cross" => draw_cross(im, col, a[0], a[1]),
        "hollow_circle" => draw_hollow_circle(im, (a[0], a[1]), a[2], col),
        "filled_circle" => draw_filled_circle(im, (a[0], a[1]), a[2], col),
        "hollow_ellipse" => draw_hollow_ellipse(im, (a[0], a[1]), a[2], a[3], col),
        "filled_ellipse" => draw_filled_ellipse(im, (a[0], a[1]), a[2], a[3], col),
        "polygon" => draw_polygon(im, &a.chunks(2).map(|p| Point::new(p[0], p[1])).collect::<Vec<_>>(), col),
        "hollow_polygon" => draw_hollow_polygon(im, &fpts(a), col),
        "bezier" => draw_cubic_bezier_curve(im, (a[0] as f32, a[1] as f32), (a[2] as f32, a[3] as f32), (a[4] as f32, a[5] as f32), (a[6] as f32, a[7] as f32), col),
        _ => unreachable!(),
    }
}
fn log<P: Pixel + PartialEq>(w: u32, h: u32, kind: &str, a: &[i32], col: P) -> Vec<(i64, i64)> {
    let mut l = Log::new(w, h);
    on(&mut l, kind, a, col);
    l.pts
}
fn both<P: Pixel>(im: &ImageBuffer<P, Vec<P::Subpixel>>, kind: &str, a: &[i32], col: P) -> Vec<ImageBuffer<P, Vec<P::Subpixel>>> {
    let mut m = im.clone();
    on(&mut m, kind, a, col);
    let mut i2 = im.clone();
    let p = pure(&mut i2, kind, a, col);
    if i2.as_raw().len() != im.as_raw().len() { return vec![] }
    vec![p, m]
}
fn shape_on<P: Pixel + PartialEq>(r: &mut Rec, im: &ImageBuffer<P, Vec<P::Subpixel>>, kind: &str, a: &[i32], col: P) where P::Subpixel: J {
    r.run_as(ev("shape").a("kind", kind).a("a", a).a("im", im).a("col", col.channels()),
        || (both(im, kind, a, col), log(im.width(), im.height(), kind, a, col)),
        |o, s| s.push_str(&format!("{{\"outs\":{},\"log\":{}}}", js(&o.0), js(&o.1))));
}
/// On a gray or RGB image of the given size.
fn shape(r: &mut Rec, w: u32, h: u32, kind: &str, a: &[i32]) {
    let k = r.range(0, 15);
    if k == 0 { let im: RgbImage = r.img(w, h); shape_on(r, &im, kind, a, Rgb([250, 251, 252])) }
    // drawing replaces a pixel, alpha and all
    else if k == 1 { let im: RgbaImage = r.img(w, h); let c = Rgba([250, 251, 252, r.dim(0, 255) as u8]); if im.pixels().all(|p| *p != c) { shape_on(r, &im, kind, a, c) } }
    else { let im = GrayImage::from_fn(w, h, |x, y| Luma([((x * 7 + y * 13) % 200) as u8])); shape_on(r, &im, kind, a, Luma([255])) }
}
fn session(r: &mut Rec, kinds: &[&str]) {
    let (w, h) = (r.dim(1, 10), r.dim(1, 10));
    let mut im: GrayImage = r.img(w, h);
    r.run(ev("begin").a("im", &im), || 0);
    for _ in 0..8 {
        let kind = r.pick(kinds);
        let a = args(r, kind, w, h);
        if kind == "hollow_polygon" && a.len() == 2 { continue }
        let c = Luma([r.range(0, 255) as u8]);
        r.run(ev("s_shape").cont().a("kind", kind).a("a", &a).a("col", c.channels()), || { on(&mut im, kind, &a, c); im.clone() });
    }
}
fn args(r: &mut Rec, kind: &str, w: u32, h: u32) -> Vec<i32> {
    let (w, h) = (w as i64, h as i64);
    let m = r.pick(&[0i64, 2, 6]);
    let mut x = |r: &mut Rec| r.range(-m, w + m - 1) as i32;
    let mut y = |r: &mut Rec| r.range(-m, h + m - 1) as i32;
    match kind {
        "line" => { let f = r.range(0, 3) == 0; let mut v = vec![4 * x(r), 4 * y(r), 4 * x(r), 4 * y(r)]; if f { for k in v.iter_mut() { *k += r.range(0, 3) as i32 } } v }
        "hollow_rect" | "filled_rect" => vec![x(r), y(r), r.range(1, w + m) as i32, r.range(1, h + m) as i32],
        "cross" => vec![x(r), y(r)],
        "hollow_circle" | "filled_circle" => vec![x(r), y(r), r.range(-1, w.max(h) + m) as i32],
        "hollow_ellipse" | "filled_ellipse" => vec![x(r), y(r), r.range(0, w + m) as i32, r.range(0, h + m) as i32],
        "hollow_polygon" => { let n = r.range(0, 5); let f = r.range(0, 2) == 0; let mut v = vec![]; for _ in 0..n { v.push(4 * x(r) + if f { r.range(0, 3) as i32 } else { 0 }); v.push(4 * y(r)) } if n > 2 && r.range(0, 3) == 0 { let (a, b) = (v[0], v[1]); v.push(a); v.push(b) } v }
        "polygon" => { let n = r.range(0, 6); let mut v = vec![]; for _ in 0..n { v.push(x(r)); v.push(y(r)) } if n > 0 && r.range(0, 3) == 0 { let (a, b) = (v[0], v[1]); v.push(a); v.push(b) } v }
        _ => (0..4).flat_map(|_| vec![r.range(0, 40) as i32, r.range(0, 40) as i32]).collect(),
    }
}
fn iter(r: &mut Rec, a: [i32; 4]) {
    r.run(ev("line_iter").a("a", &a), || BresenhamLineIter::new((q(a[0]), q(a[1])), (q(a[2]), q(a[3]))).map(|p| [p.0, p.1]).collect::<Vec<_>>());
}
fn pix_iter(r: &mut Rec, w: u32, h: u32, a: [i32; 4]) {
    let (s, e) = ((q(a[0]), q(a[1])), (q(a[2]), q(a[3])));
    r.run_as(ev("pix_iter").a("w", &w).a("h", &h).a("a", &a), || {
        type I = ImageBuffer<Luma<u16>, Vec<u16>>;
        let im = I::from_fn(w, h, |x, y| Luma([(y * w + x) as u16]));
        let read: Vec<u16> = BresenhamLinePixelIter::new(&im, s, e).map(|p| p.0[0]).collect();
        let mut wr = I::new(w, h);
        for (i, p) in BresenhamLinePixelIterMut::new(&mut wr, s, e).enumerate() { p.0[0] = i as u16 + 1 }
        (read, wr)
    }, |o, s| s.push_str(&format!("{{\"read\":{},\"wrote\":{}}}", js(&o.0), js(&o.1))));
}
fn shift(kind: &str, a: &[i32], dx: i32, dy: i32) -> Vec<i32> {
    let m = if kind == "line" || kind == "hollow_polygon" { 4 } else { 1 };
    let n = match kind { "line" => 4, "hollow_polygon" | "polygon" | "bezier" => a.len(), _ => 2 };
    a.iter().enumerate().map(|(i, v)| if i < n { v + m * if i % 2 == 0 { dx } else { dy } } else { *v }).collect()
}
/// The part of a shape drawn far into a large canvas, where it is that of the small canvas there.
fn far_log(w: u32, h: u32, kind: &str, a: &[i32], dx: u32, dy: u32) -> Vec<(i64, i64)> {
    log(w + dx, h + dy, kind, &shift(kind, a, dx as i32, dy as i32), Luma([1u8])).into_iter().map(|p| (p.0 - dx as i64, p.1 - dy as i64)).filter(|p| p.0 >= 0 && p.1 >= 0).collect()
}
fn far_outs(im: &GrayImage, kind: &str, a: &[i32], col: Luma<u8>) -> Vec<GrayImage> {
    let (w, h) = im.dimensions();
    FAR.iter().map(|&(dx, dy)| { let mut b = far(im, Luma([3]), dx, dy); on(&mut b, kind, &shift(kind, a, dx as i32, dy as i32), col); corner(&b, w, h) }).collect()
}
fn shape_far(r: &mut Rec, kind: &str) {
    let (w, h) = (r.dim(4, 12), r.dim(4, 12));
    let mut a = args(r, kind, w, h);
    if kind == "hollow_polygon" && a.len() == 2 { return }
    // whole pixels: fractions are truncated towards zero, which a shift does not commute with
    if kind == "line" || kind == "hollow_polygon" { for v in a.iter_mut() { *v = *v / 4 * 4 } }
    let im: GrayImage = r.img(w, h);
    let col = Luma([201u8]);
    let d = r.pick(&[(65530u32, 65529u32), (65527, 0), (0, 65526), (131069, 3), (1_000_000, 0), (32764, 32763)]);
    let six = r.n % 6 == 0;
    r.run_as(ev(if kind == "polygon" { "polygon" } else { "shape" }).a("kind", kind).a("a", &a).a("pts", &a.chunks(2).map(|c| c.to_vec()).collect::<Vec<_>>()).a("im", &im).a("col", col.channels()),
        || (if six { far_outs(&im, kind, &a, col) } else { vec![] }, far_log(w, h, kind, &a, d.0, d.1)),
        |o, s| s.push_str(&format!("{{\"outs\":{},\"log\":{}}}", js(&o.0), js(&o.1))));
}
fn c21(r: &mut Rec) {
    let n = if r.thorough { 9 } else { 5 };
    for x in -n..=n { for y in -n..=n {
        iter(r, [0, 0, 4 * x, 4 * y]);
        iter(r, [4 * 3, -4 * 2, 4 * (3 + x), 4 * (y - 2)]);
        if r.thorough || r.range(0, 2) == 0 { shape(r, 5, 4, "line", &[4, 8, 4 + 4 * x, 8 + 4 * y]); }
    } }
    for _ in 0..r.t(1000, 20000) {
        let m = r.pick(&[3i64, 12, 60, 200]);
        let f = r.pick(&[1i64, 4]);
        let mut c = |r: &mut Rec| (r.range(-m, m) * f) as i32;
        let mut a = [c(r), c(r), c(r), c(r)];
        if f == 1 { for v in a.iter_mut() { *v = v.abs() } }
        iter(r, a);
    }
    for a in [[0, 0, 2000, 4], [0, 4000, 8, 0], [4, 0, 3996, 3996], [-2000, 40, 2000, -44], [70000 * 4, 0, 70400 * 4, 1200], [0, 300 * 4, 12, 0]] { iter(r, a) }
    for w in 0..=4u32 { for h in 0..=4u32 { for _ in 0..r.t(12, 60) { let a = args(r, "line", w.max(1), h.max(1)); shape(r, w, h, "line", &a) } } }
    for _ in 0..r.t(300, 5000) { let (w, h) = (r.dim(1, 14), r.dim(1, 14)); let a = args(r, "line", w, h); shape(r, w, h, "line", &a) }
    for _ in 0..r.t(40, 200) { let a: Vec<i32> = (0..4).map(|_| r.range(-400, 400) as i32 * 4).collect(); shape(r, 12, 9, "line", &a) }
    for (w, h) in [(300u32, 4u32), (4, 300), (1100, 3), (3, 1100)] { for _ in 0..6 { let a = args(r, "line", w, h); shape(r, w, h, "line", &a) } }
    for w in 0..=5u32 { for h in 0..=5u32 { for _ in 0..r.t(8, 60) { let a = args(r, "line", w.max(1), h.max(1)); pix_iter(r, w, h, [a[0], a[1], a[2], a[3]]) } } }
    for (w, h) in [(20u32, 13u32), (300, 3), (3, 300), (1100, 2), (2, 1100)] { for _ in 0..20 { let a = args(r, "line", w, h); pix_iter(r, w, h, [a[0], a[1], a[2], a[3]]) } }
    for _ in 0..r.t(40, 400) { session(r, &["line"]) }
    for _ in 0..r.t(60, 600) { shape_far(r, "line") }
    line_ends(r);
}
/// Lines whose points are at the far ends of the coordinate range (multiples of 256, which f32 holds there).
fn line_ends(r: &mut Rec) {
    for (a, b) in [(i32::MAX, i32::MAX), (i32::MIN, i32::MIN), (i32::MAX - 127, i32::MAX - 127), (i32::MAX - 383, i32::MAX - 127), (i32::MIN + 128, i32::MIN + 384)] { for v in [-3, 0, 3] { for steep in [false, true] { for back in [false, true] {
        let (p, q) = if back { (b, a) } else { (a, b) };
        let f = |k: i32| if steep { (v as f32, k as f32) } else { (k as f32, v as f32) };
        let im: GrayImage = r.img(4, 4);
        r.run_as(ev("line_end").a("a", &a).a("b", &b).a("v", &v).a("steep", &steep).a("im", &im), || {
            let mut m = im.clone();
            draw_line_segment_mut(&mut m, f(p), f(q), Luma([9]));
            let it: Vec<[i32; 2]> = BresenhamLineIter::new(f(p), f(q)).map(|p| [p.0, p.1]).collect();
            (m, it.len(), *it.first().unwrap(), *it.last().unwrap(), it.windows(2).all(|w| { let k = steep as usize; w[1][k] - w[0][k] == 1 && w[0][1 - k] == v && w[1][1 - k] == v }))
        }, |o, s| s.push_str(&format!("{{\"im\":{},\"n\":{},\"first\":{},\"last\":{},\"steps\":{}}}", js(&o.0), o.1, js(&o.2), js(&o.3), o.4)));
    } } } }
}
fn c22(r: &mut Rec) {
    let kinds = ["filled_rect", "hollow_rect"];
    for w in 0..=3u32 { for h in 0..=3u32 {
        for x in -2..=3 { for y in -2..=3 {
            shape(r, w, h, "cross", &[x, y]);
            for rw in 1..=4 { for rh in 1..=4 { if r.thorough || r.range(0, 5) == 0 { let k = r.pick(&kinds); shape(r, w, h, k, &[x, y, rw, rh]) } } }
        } }
    } }
    for _ in 0..r.t(400, 6000) { let (w, h) = (r.dim(1, 12), r.dim(1, 12)); let k = r.pick(&["filled_rect", "hollow_rect", "cross"]); let a = args(r, k, w, h); shape(r, w, h, k, &a) }
    for a in [[i32::MAX, 0], [0, i32::MAX], [i32::MIN, 1], [1, i32::MIN], [i32::MAX - 1, 3]] { shape(r, 4, 4, "cross", &a) }
    for k in kinds { for a in [[-1000, -1000, 2003, 2004], [2, -500, 1, 1000], [-300, 1, 700, 2], [-100000, 0, 300000, 1], [70000, 0, 5, 5], [0, -70000, 5, 70002]] {
        if k == "filled_rect" || a[2] < 5000 { shape(r, 6, 5, k, &a) }
    } }
    // one side inside the image, the opposite one far outside, every combination
    for k in kinds { for x0 in [-3000i32, -70, -1, 0, 2] { for x1 in [3i32, 4, 5, 6, 80, 300, 3000] { for (y0, y1) in [(0i32, 3i32), (-90, 2), (1, 400), (-400, 300)] {
        shape(r, 6, 5, k, &[x0, y0, x1 - x0 + 1, y1 - y0 + 1]);
        shape(r, 5, 6, k, &[y0, x0, y1 - y0 + 1, x1 - x0 + 1]);
    } } } }
    for (w, h) in [(300u32, 3u32), (3, 300), (1100, 3), (3, 1100)] { for k in kinds { shape(r, w, h, k, &[1, 1, w as i32 - 2, h as i32 - 1]); let a = args(r, k, w, h); shape(r, w, h, k, &a) } shape(r, w, h, "cross", &[w as i32 - 1, h as i32 - 1]) }
    for _ in 0..r.t(90, 900) { let k = r.pick(&["filled_rect", "hollow_rect", "cross"]); shape_far(r, k) }
    // sides of any length, up to the whole coordinate range
    let (lo, hi) = (-(i32::MAX as i64), i32::MAX as i64);
    for _ in 0..r.t(300, 4000) {
        let (w, h) = (r.dim(0, 5), r.dim(0, 5));
        let im: RgbImage = r.img(w, h);
        let col = Rgb([1, 2, 3]);
        let mut span = |r: &mut Rec| {
            let mut v = [0; 2].map(|_| r.pick(&[lo, lo + 1, -2_000_000_000, -(1 << 24), -70_000, -1, 0, 1, 2, 3, 4, 70_000, 1 << 24, 2_000_000_000, hi - 1, hi]));
            v.sort();
            (v[0], v[1])
        };
        let ((a, c), (b, d)) = (span(r), span(r));
        let q = Rect::at(a as i32, b as i32).of_size((c - a + 1) as u32, (d - b + 1) as u32);
        r.run(ev("fill_wide").a("im", &im).a("q", &[a, b, c, d]).a("col", col.channels()), || { let mut m = im.clone(); draw_filled_rect_mut(&mut m, q, col); vec![draw_filled_rect(&im, q, col), m] });
    }
    for _ in 0..r.t(80, 800) { session(r, &["filled_rect", "hollow_rect", "cross"]) }
}
fn ellipse(r: &mut Rec, rx: i32, ry: i32) {
    let off = |k: &str| {
        let (w, h) = (2 * rx as u32 + 7, 2 * ry as u32 + 7);
        let (cx, cy) = (rx + 3, ry + 3);
        log(w, h, k, &[cx, cy, rx, ry], Luma([1u8])).iter().map(|p| (p.0 - cx as i64, p.1 - cy as i64)).collect::<Vec<_>>()
    };
    r.run_as(ev("ellipse").a("rx", &rx).a("ry", &ry), || (off("hollow_ellipse"), off("filled_ellipse")),
        |o, s| s.push_str(&format!("{{\"hollow\":{},\"filled\":{}}}", js(&o.0), js(&o.1))));
}
fn ellipse_at(r: &mut Rec, w: u32, h: u32, filled: bool, a: &[i32]) {
    let kind = if filled { "filled_ellipse" } else { "hollow_ellipse" };
    let im: GrayImage = r.img(w, h);
    let col = Luma([77u8]);
    let (rx, ry) = (a[2], a[3]);
    r.run_as(ev("ellipse_at").a("cx", &a[0]).a("cy", &a[1]).a("rx", &rx).a("ry", &ry).a("filled", &filled).a("im", &im).a("col", col.channels()), || {
        let full = |k: &str| log(2 * rx as u32 + 7, 2 * ry as u32 + 7, k, &[rx + 3, ry + 3, rx, ry], col).iter().map(|p| (p.0 - rx as i64 - 3, p.1 - ry as i64 - 3)).collect::<Vec<_>>();
        (both(&im, kind, a, col), log(w, h, kind, a, col), full(kind), full("hollow_ellipse"))
    }, |o, s| s.push_str(&format!("{{\"outs\":{},\"log\":{},\"full\":{},\"outline\":{}}}", js(&o.0), js(&o.1), js(&o.2), js(&o.3))));
}
/// Large radii: a sample of the outline, and whether the outline is symmetric and reaches every row.
fn conic_big(r: &mut Rec, rx: i32, ry: i32) {
    let c = 10_000_000i32;
    let mut pick = vec![];
    for _ in 0..24 { pick.push(r.range(0, 1 << 40) as usize) }
    r.run_as(ev("conic_big").a("rx", &rx).a("ry", &ry), || {
        let l = log(20_000_001, 20_000_001, if rx == ry { "hollow_circle" } else { "hollow_ellipse" }, &if rx == ry { vec![c, c, rx] } else { vec![c, c, rx, ry] }, Luma([1u8]));
        let mut q: Vec<(i64, i64)> = l.iter().map(|p| (p.0 - c as i64, p.1 - c as i64)).collect();
        q.sort();
        q.dedup();
        let has = |p: (i64, i64)| q.binary_search(&p).is_ok();
        let sym = q.iter().all(|p| has((-p.0, p.1)) && has((p.0, -p.1)) && has((-p.0, -p.1)));
        let mut rows: Vec<i64> = q.iter().map(|p| p.1).collect();
        rows.sort();
        rows.dedup();
        let full = rows == (-(ry as i64)..=ry as i64).collect::<Vec<_>>();
        let first: Vec<_> = q.iter().filter(|p| p.0 >= 0 && p.1 >= 0).collect();
        (pick.iter().map(|k| *first[k % first.len()]).collect::<Vec<_>>(), sym, full)
    }, |o, s| s.push_str(&format!("{{\"pts\":{},\"sym\":{},\"full\":{}}}", js(&o.0), o.1, o.2)));
}
fn c23(r: &mut Rec) {
    let (lo, hi) = (i32::MIN, i32::MAX);
    for (x, y) in [(hi, 2), (hi - 1, 0), (2, hi), (lo, 1), (lo + 2, 1), (3, lo), (hi, hi), (lo, lo), (hi - 3, lo + 3), (lo, hi)] {
        for rad in [0, 1, 3, 7] { for k in ["hollow_circle", "filled_circle"] { shape(r, 6, 5, k, &[x, y, rad]) } }
        for (rx, ry) in [(3, 5), (9, 2)] { for f in [false, true] { ellipse_at(r, 6, 5, f, &[x, y, rx, ry]) } }
    }
    for k in ["hollow_circle", "filled_circle"] { for rad in [lo, lo + 1, -1] { shape(r, 4, 4, k, &[1, 1, rad]) } }
    for (a, b) in [(46341, 100), (100, 46341), (6000, 5000), (20000, 10000), (46340, 46339), (100000, 10), (7, 70000), (1000, 1000), (46341, 46341), (5000, 4999), (65536, 65537), (90000, 90000)] { conic_big(r, a, b) }

    for rad in -2..=r.t(12, 20) as i32 { for k in ["hollow_circle", "filled_circle"] {
        let n = (2 * rad.max(0) + 3) as u32;
        shape(r, n, n, k, &[rad.max(0) + 1, rad.max(0) + 1, rad]);
        for _ in 0..r.t(6, 40) { let (w, h) = (r.dim(0, 9), r.dim(0, 9)); let a = [r.range(-9, 14) as i32, r.range(-9, 14) as i32, rad]; shape(r, w, h, k, &a) }
    } }
    for rad in [30, 47, 64] { for k in ["hollow_circle", "filled_circle"] { if rad < 40 || r.thorough { shape(r, 2 * rad as u32 + 3, 2 * rad as u32 + 3, k, &[rad + 1, rad + 1, rad]) } } }
    for rad in [100, 200, 300] { for k in ["hollow_circle", "filled_circle"] {
        shape(r, 12, 12, k, &[6 - rad, 6, rad]);
        shape(r, 12, 12, k, &[6, 6 + rad, rad]);
        let d = (rad as f64 * 0.5f64.sqrt()) as i32;
        shape(r, 14, 14, k, &[6 - d, 6 + d, rad]);
        shape(r, 14, 14, k, &[6 + d, 6 + d, rad]);
        shape(r, 2 * rad as u32 + 2, 1, k, &[rad, rad / 3, rad]);
    } }
    for rx in 0..=r.t(9, 16) as i32 { for ry in 0..=r.t(9, 16) as i32 { ellipse(r, rx, ry) } }
    for (a, b) in [(25, 13), (13, 25), (36, 37), (40, 30), (300, 5), (5, 300), (3, 400), (400, 2), (1, 300), (300, 1), (38, 39)] { ellipse(r, a, b) }
    for _ in 0..r.t(400, 4000) {
        let (w, h) = (r.dim(0, 12), r.dim(0, 12));
        let f = r.range(0, 1) == 0;
        let a = args(r, "hollow_ellipse", w.max(1), h.max(1));
        ellipse_at(r, w, h, f, &a);
    }
    for (w, h, a) in [(10u32, 10u32, [-250, 5, 256, 5]), (10, 10, [5, -295, 4, 300]), (300, 3, [150, 1, 140, 4])] { for f in [true, false] { ellipse_at(r, w, h, f, &a) } }
    for _ in 0..r.t(90, 900) { let k = r.pick(&["filled_circle", "hollow_circle"]); shape_far(r, k) }
    for _ in 0..r.t(60, 600) { session(r, &["hollow_circle", "filled_circle"]) }
}
fn polygon(r: &mut Rec, w: u32, h: u32, pts: &[Pt]) {
    let im: GrayImage = r.img(w, h);
    let col = Luma([200u8]);
    let a: Vec<i32> = pts.iter().flat_map(|p| [p.0, p.1]).collect();
    r.run_as(ev("polygon").a("pts", pts).a("im", &im).a("col", col.channels()), || (both(&im, "polygon", &a, col), log(w, h, "polygon", &a, col)),
        |o, s| s.push_str(&format!("{{\"outs\":{},\"log\":{}}}", js(&o.0), js(&o.1))));
}
fn c24(r: &mut Rec) {
    for w in 0..=3u32 { for h in 0..=3u32 {
        polygon(r, w, h, &[]);
        for _ in 0..r.t(16, 200) { let a = args(r, "polygon", w.max(1), h.max(1)); let p: Vec<Pt> = a.chunks(2).map(|c| (c[0], c[1])).collect(); polygon(r, w, h, &p); let a = args(r, "hollow_polygon", w.max(1), h.max(1)); shape(r, w, h, "hollow_polygon", &a) }
    } }
    // all triangles and many quadrilaterals on a small grid
    let g: Vec<Pt> = (-1..=3).flat_map(|x| (-1..=3).map(move |y| (x, y))).collect();
    for i in 0..g.len() { for j in 0..g.len() { for k in 0..g.len() { if r.thorough || r.range(0, 15) == 0 { polygon(r, 3, 3, &[g[i], g[j], g[k]]) } } } }
    for _ in 0..r.t(700, 12000) {
        let (w, h) = (r.dim(2, 12), r.dim(2, 12));
        let n = r.range(3, 9);
        let m = r.pick(&[0i64, 0, 3, 8]);
        // grid-aligned polygons have many horizontal edges and coincident vertices
        let ortho = r.range(0, 2) == 0;
        let mut p: Vec<Pt> = vec![];
        for k in 0..n {
            let mut c = (r.range(-m, w as i64 + m - 1) as i32, r.range(-m, h as i64 + m - 1) as i32);
            if ortho && k > 0 { let l = p[p.len() - 1]; if k % 2 == 0 { c.0 = l.0 } else { c.1 = l.1 } }
            p.push(c);
        }
        if r.range(0, 3) == 0 { let f = p[0]; p.push(f) }
        polygon(r, w, h, &p);
    }
    // many vertices, many crossings in a row
    for k in 0..r.t(20, 200) {
        let (w, h) = (r.dim(20, 40), r.dim(10, 30));
        let n = r.range(20, 60);
        let p: Vec<Pt> = (0..n).map(|i| if k % 2 == 0 { (r.range(-5, w as i64 + 5) as i32, r.range(-5, h as i64 + 5) as i32) } else { (w as i32 * i as i32 / n as i32, if i % 2 == 0 { r.range(-3, 3) as i32 } else { h as i32 - 1 }) }).collect();
        polygon(r, w, h, &p);
    }
    for (w, h) in [(1100u32, 4u32), (4, 1100), (300, 3)] { let p: Vec<Pt> = (0..5).map(|_| (r.range(-9, w as i64 + 9) as i32, r.range(-9, h as i64 + 9) as i32)).collect(); polygon(r, w, h, &p) }
    for p in [vec![(-400, -300), (500, 10), (20, 700)], vec![(0, -90), (200, 5), (0, 100)], vec![(-70, 3), (300, 3), (300, 5), (-70, 6)], vec![(5, 5)], vec![(5, 5), (5, 5)], vec![(2, 2), (9, 9)]] { polygon(r, 10, 9, &p); let q: Vec<Pt> = p.iter().rev().cloned().collect(); polygon(r, 10, 9, &q) }
    polygon(r, 300, 5, &[(0, 0), (299, 0), (280, 4), (3, 4)]);
    polygon(r, 5, 300, &[(0, 0), (4, 20), (2, 299), (0, 150)]);
    for _ in 0..r.t(300, 3000) { let (w, h) = (r.dim(1, 12), r.dim(1, 12)); let a = args(r, "hollow_polygon", w, h); shape(r, w, h, "hollow_polygon", &a) }
    for a in [vec![4, 4], vec![8, 4, 8, 4]] { shape(r, 4, 4, "hollow_polygon", &a) }
    // long edges through the window
    for _ in 0..r.t(120, 1500) {
        let (w, h) = (r.dim(6, 14), r.dim(6, 14));
        let (m, d, k) = ((r.dim(0, w as i64 - 1) as i32, r.dim(0, h as i64 - 1) as i32), (r.range(-7, 7) as i32, r.range(1, 4) as i32), r.range(20, 900) as i32);
        let (p, q) = ((m.0 - k * d.0, m.1 - k * d.1), (m.0 + k * d.0, m.1 + k * d.1));
        let z = (m.0 - 4000 * r.pick(&[-1, 1]), m.1 + r.range(-2000, 2000) as i32);
        polygon(r, w, h, &[p, q, z]);
        polygon(r, w, h, &[q, z, p]);
        shape(r, w, h, "hollow_polygon", &[4 * p.0, 4 * p.1, 4 * q.0, 4 * q.1, 4 * z.0, 4 * z.1]);
    }
    // edges longer than 16 bits hold; crossings single precision has exactly
    for i in 0..r.t(12, 60) {
        let (w, h) = (r.dim(5, 10), r.dim(5, 10));
        let m = (r.dim(0, w as i64 - 1) as i32, r.dim(0, h as i64 - 1) as i32);
        let (k, d) = (r.pick(&[16, 32]), r.pick(&[-1, 1]) * r.range(1100, 2000) as i32);
        let (p, q) = ((m.0 - k * d, m.1 - k), (m.0 + k * d, m.1 + k));
        let z = if i % 2 == 0 { (p.0, q.1) } else { (q.0, p.1) };
        polygon(r, w, h, &[p, q, z]);
    }
    // far into a large canvas; edges along axes and diagonals, whose crossings single precision has exactly
    for _ in 0..r.t(60, 600) { shape_far(r, "hollow_polygon") }
    for _ in 0..r.t(60, 600) {
        let (w, h) = (r.dim(5, 12), r.dim(5, 12));
        let n = r.range(3, 7);
        let mut p = vec![(r.range(-3, w as i64 + 3) as i32, r.range(-3, h as i64 + 3) as i32)];
        for _ in 0..n { let l = p[p.len() - 1]; let k = r.range(-9, 9) as i32; p.push(match r.range(0, 3) { 0 => (l.0 + k, l.1), 1 => (l.0, l.1 + k), 2 => (l.0 + k, l.1 + k), _ => (l.0 + k, l.1 - k) }) }
        // close it along the axes
        let (f, l) = (p[0], p[p.len() - 1]);
        p.push((f.0, l.1));
        let im: GrayImage = r.img(w, h);
        let col = Luma([200u8]);
        let a: Vec<i32> = p.iter().flat_map(|p| [p.0, p.1]).collect();
        let d = r.pick(&[(65530u32, 65529u32), (65527, 0), (0, 65526), (131069, 3), (32764, 32763)]);
        let six = r.n % 6 == 0;
        r.run_as(ev("polygon").a("pts", &p).a("im", &im).a("col", col.channels()), || (if six { far_outs(&im, "polygon", &a, col) } else { vec![] }, far_log(w, h, "polygon", &a, d.0, d.1)),
            |o, s| s.push_str(&format!("{{\"outs\":{},\"log\":{}}}", js(&o.0), js(&o.1))));
    }
    for _ in 0..r.t(30, 300) { session(r, &["hollow_polygon"]) }
}
fn wu(r: &mut Rec, w: u32, h: u32, p: Pt, q: Pt, inplace: bool) {
    r.run_as(ev("wu").a("w", &w).a("h", &h).a("p", &p).a("q", &q), || {
        let mut im: ImageBuffer<Luma<u16>, Vec<u16>> = ImageBuffer::from_fn(w, h, |x, y| Luma([(y * w + x) as u16]));
        let writes = RefCell::new(vec![]);
        let blend = |line: Luma<u16>, orig: Luma<u16>, wt: f32| { writes.borrow_mut().push((if line.0[0] == 60000 { orig.0[0] as i64 } else { -1 }, fr(wt as f64, 65536.0))); orig };
        if inplace { draw_antialiased_line_segment_mut(&mut im, p, q, Luma([60000]), blend) } else { draw_antialiased_line_segment(&im, p, q, Luma([60000]), blend); }
        writes.into_inner()
    }, |o, s| s.push_str(&format!("{{\"writes\":{}}}", js(o))));
}
fn blend(r: &mut Rec, w: u32, h: u32, kind: &str, a: &[i32]) {
    let im: RgbaImage = r.img(w, h);
    let mut col = Rgba([0u8; 4]);
    for k in 0..4 { col.0[k] = r.range(0, 255) as u8 }
    col.0[3] = r.pick(&[0u8, 1, 100, 127, 128, 254, 255, 60]);
    r.run_as(ev("blend").a("kind", kind).a("a", a).a("im", &im).a("col", col.channels()), || {
        let mut b = Blend(im.clone());
        on(&mut b, kind, a, col);
        let l = log(w, h, kind, a, col);
        let chain: Vec<Vec<[u8; 4]>> = im.enumerate_pixels().map(|(x, y, p)| {
            let n = l.iter().filter(|q| **q == (x as i64, y as i64)).count();
            let mut p = *p;
            let mut v = vec![p.0];
            for _ in 0..n { p.blend(&col); v.push(p.0) }
            v
        }).collect();
        let ok = b.dimensions() == (w, h) && (w * h == 0 || b.get_pixel(w - 1, h - 1) == *b.0.get_pixel(w - 1, h - 1));
        (b.0, l, chain, ok)
    }, |o, s| s.push_str(&format!("{{\"im\":{},\"log\":{},\"chain\":{},\"ok\":{}}}", js(&o.0), js(&o.1), js(&o.2), o.3)));
}
fn c25(r: &mut Rec) {
    let n = r.t(5, 8) as i32;
    for x in -n..=n { for y in -n..=n { wu(r, 6, 6, (2, 3), (2 + x, 3 + y), (x + y) % 2 == 0); wu(r, 5, 5, (2 + x, 1 + y), (2, 1), x % 2 == 0); } }
    for _ in 0..r.t(600, 8000) {
        let (w, h) = (r.dim(0, 14), r.dim(0, 14));
        let m = r.pick(&[0i64, 4, 20]);
        let p = (r.range(-m, w as i64 + m) as i32, r.range(-m, h as i64 + m) as i32);
        let q = (r.range(-m, w as i64 + m) as i32, r.range(-m, h as i64 + m) as i32);
        let f = r.range(0, 1) == 0;
        wu(r, w, h, p, q, f);
    }
    for (w, h) in [(200u32, 5u32), (5, 200)] { for _ in 0..8 { let (p, q) = ((r.range(0, w as i64) as i32, r.range(0, h as i64) as i32), (r.range(-9, w as i64) as i32, r.range(-9, h as i64) as i32)); wu(r, w, h, p, q, true) } }
    for (x, y) in remote() { for (dx, dy) in [(0, 0), (1, 0), (0, 2), (3, 1), (2, 2)] {
        let im: GrayImage = r.img(5, 4);
        let (p, q) = ((x, y), (if x > 0 { x - dx } else { x + dx }, if y > 0 { y - dy } else { y + dy }));
        r.run(ev("remote").a("x", &x).a("y", &y).a("im", &im), || { let mut m = im.clone(); draw_antialiased_line_segment_mut(&mut m, p, q, Luma([200]), |a, _, _| a); m });
    } }
    // shallow slopes: weights down to 1/512, many columns between steps
    for d in [64i32, 100, 128, 255, 256, 299, 512] { for e in [1i32, -1, 2, 3] {
        wu(r, d as u32 + 2, 5, (0, 2), (d, 2 + e), e > 0);
        wu(r, 5, d as u32 + 2, (2, d), (2 + e, 0), e < 0);
        wu(r, 40, 4, (-d / 2, 1), (d / 2, 1 + e), true);
    } }
    // far along the major axis of a large image
    for k in 0..r.t(24, 200) {
        let (w, h) = (r.dim(8, 20), r.dim(4, 9));
        let (mut p, mut q) = ((r.range(-9, w as i64 + 3) as i32, r.range(-1, h as i64) as i32), (r.range(-9, w as i64 + 3) as i32, r.range(-1, h as i64) as i32));
        if k % 4 == 1 { p = (w as i32 - 2 - 8192, 1); q = (w as i32 - 2, 3) }
        if (p.0 - q.0).abs() < (p.1 - q.1).abs() { continue }
        let tall = k % 2 == 0;
        let (w, h) = if tall { (h, w) } else { (w, h) };
        if tall { p = (p.1, p.0); q = (q.1, q.0) }
        let (dx, dy) = if tall { (0, 65530) } else { (65530, 0) };
        r.run_as(ev("wu").a("w", &w).a("h", &h).a("p", &p).a("q", &q), || {
            let im: ImageBuffer<Luma<u16>, Vec<u16>> = ImageBuffer::from_fn(w, h, |x, y| Luma([(y * w + x) as u16]));
            let big = far(&im, Luma([65535]), dx, dy);
            let writes = RefCell::new(vec![]);
            let blend = |line: Luma<u16>, orig: Luma<u16>, wt: f32| { if orig.0[0] != 65535 { writes.borrow_mut().push((if line.0[0] == 60000 { orig.0[0] as i64 } else { -1 }, fr(wt as f64, 65536.0))) } orig };
            let d = (dx as i32, dy as i32);
            draw_antialiased_line_segment(&big, (p.0 + d.0, p.1 + d.1), (q.0 + d.0, q.1 + d.1), Luma([60000]), blend);
            writes.into_inner()
        }, |o, s| s.push_str(&format!("{{\"writes\":{}}}", js(o))));
    }
    let kinds = ["line", "hollow_rect", "filled_rect", "cross", "hollow_circle", "filled_circle", "hollow_ellipse", "filled_ellipse", "polygon", "hollow_polygon", "bezier"];
    for _ in 0..r.t(500, 6000) {
        let (w, h) = (r.dim(0, 9), r.dim(0, 9));
        let k = r.pick(&kinds);
        let mut a = args(r, k, w.max(1), h.max(1));
        if k == "hollow_polygon" && a.len() == 2 { a.clear() }
        if k == "bezier" { for v in a.iter_mut() { *v = *v / 3 - 2 } }
        blend(r, w, h, k, &a);
    }
    for _ in 0..r.t(150, 2000) {
        let (w, h) = (r.dim(2, 12), r.dim(2, 12));
        let n = r.range(3, 6);
        let pts: Vec<Pt> = (0..n).map(|_| (r.range(-3, w as i64 + 3) as i32, r.range(-3, h as i64 + 3) as i32)).collect();
        let im: GrayImage = r.img(w, h);
        let col = Luma([111u8]);
        let f = r.range(0, 1) == 0;
        r.run(ev("aapoly").a("pts", &pts).a("im", &im).a("col", col.channels()), || {
            let b = imageproc::pixelops::interpolate;
            if f { let mut m = im.clone(); draw_antialiased_polygon_mut(&mut m, &ipts(&pts), col, b); m } else { draw_antialiased_polygon(&im, &ipts(&pts), col, b) }
        });
    }
}
fn c26(r: &mut Rec) {
    let ivs: Vec<(i32, u32)> = (-3..=3).flat_map(|l| (0..=4u32).map(move |n| (l, n))).collect();
    for &(x, w) in &ivs { for &(y, h) in &ivs { if x < 1 || y < 1 {
        let a = [x as i64, y as i64, w as i64, h as i64];
        r.run(ev("rect").a("r", &a), || { let q = Rect::at(x, y).of_size(w, h); [q.left(), q.top(), q.right(), q.bottom(), q.width() as i32, q.height() as i32] });
    } } }
    let mk = |a: [i64; 4]| Rect::at(a[0] as i32, a[1] as i32).of_size(a[2] as u32, a[3] as u32);
    let inter = |r: &mut Rec, a: [i64; 4], b: [i64; 4]| { r.run(ev("rect_inter").a("r", &a).a("s", &b), || mk(a).intersect(mk(b)).map(|q| [q.left(), q.top(), q.width() as i32, q.height() as i32])); };
    // all pairs of intervals in one axis, with a few in the other
    for &(x, w) in ivs.iter().filter(|i| i.1 > 0) { for &(u, v) in ivs.iter().filter(|i| i.1 > 0) {
        let (y, h, z, k) = (r.range(-2, 2), r.range(1, 4), r.range(-2, 2), r.range(1, 4));
        inter(r, [x as i64, y, w as i64, h], [u as i64, z, v as i64, k]);
        inter(r, [y, x as i64, h, w as i64], [z, u as i64, k, v as i64]);
    } }
    for _ in 0..r.t(1500, 10000) {
        let m = r.pick(&[3i64, 10, 1000, 500_000_000]);
        let mut q = |r: &mut Rec| [r.range(-m, m), r.range(-m, m), r.range(1, m + 1), r.range(1, m + 1)];
        let (a, b) = (q(r), q(r));
        inter(r, a, b);
        let rc = mk(a);
        let m4 = (4 * m).min(40000);
        let near = |r: &mut Rec, lo: i64, hi: i64| { let e = r.pick(&[lo, hi]); r.range(e - 2, e + 2) };
        for _ in 0..3 {
            let p = if m < 500 { [r.range(-m4, m4), r.range(-m4, m4)] } else { [near(r, a[0], a[0] + a[2] - 1), near(r, a[1], a[1] + a[3] - 1)] };
            if m < 500 {
                let p = [near(r, 4 * a[0], 4 * (a[0] + a[2] - 1)), if r.range(0, 1) == 0 { p[1] } else { near(r, 4 * a[1], 4 * (a[1] + a[3] - 1)) }];
                r.run(ev("rect_contains").a("r", &a).a("p", &p), || rc.contains(p[0] as f32 / 4.0, p[1] as f32 / 4.0));
            }
            let pi = if m < 500 { [p[0] / 4, p[1] / 4] } else { p };
            let p4 = [4 * pi[0], 4 * pi[1]];
            if p4.iter().all(|v| v.abs() < 2_000_000_000) && 4 * (a[0].abs() + a[2]) < 2_000_000_000 && 4 * (a[1].abs() + a[3]) < 2_000_000_000 {
                r.run(ev("rect_contains").a("r", &a).a("p", &p4), || rc.contains(pi[0] as i32, pi[1] as i32));
            }
        }
    }
    // sides of any length, given by the edges; some of them reach past the coordinate range
    let (lo, hi) = (-(i32::MAX as i64), i32::MAX as i64);
    for _ in 0..r.t(1500, 20000) {
        let vals = [lo, lo + 1, lo + 2, -2_000_000_000, -(1 << 30), -5, -1, 0, 1, 7, 1 << 30, 2_000_000_000, hi - 2, hi - 1, hi];
        let mut span = |r: &mut Rec| {
            let mut v = [0; 2].map(|_| if r.range(0, 3) > 0 { r.pick(&vals) } else { r.range(lo, hi) });
            v.sort();
            let n = v[1] - v[0] + 1;
            if n > u32::MAX as i64 { v[1] -= 1; return (v[0], v[1], n - 1) }
            // past the end: the points of the coordinate range are all that counts
            if v[1] == hi { return (v[0], v[1], (n + r.pick(&[0i64, 1, 1000, 1 << 31])).min(u32::MAX as i64)) }
            (v[0], v[1], n)
        };
        let ((a, c, w), (b, d, h)) = (span(r), span(r));
        let ((e, g, u), (f, i, v)) = (span(r), span(r));
        let (q, s) = ([a, b, c, d], [e, f, g, i]);
        let ps: Vec<[i64; 2]> = (0..6).map(|_| [r.pick(&[a, a - 1, c, c + 1, 0, hi, lo]).clamp(lo, hi), r.pick(&[b, b - 1, d, d + 1, 3, hi, lo]).clamp(lo, hi)]).collect();
        r.run_as(ev("rect_wide").a("q", &q).a("s", &s).a("ps", &ps), || {
            let (x, y) = (Rect::at(a as i32, b as i32).of_size(w as u32, h as u32), Rect::at(e as i32, f as i32).of_size(u as u32, v as u32));
            let m = |q: Option<Rect>| q.map(|q| [q.left(), q.top(), q.right(), q.bottom()]);
            (m(Some(x)).unwrap(), m(x.intersect(y)), m(y.intersect(x)), ps.iter().map(|p| x.contains(p[0] as i32, p[1] as i32)).collect::<Vec<_>>())
        }, |o, t| {
            let m = |q: &Option<[i32; 4]>| q.map_or("-1".to_string(), |q| js(&q));
            t.push_str(&format!("[{},{},{},{}]", js(&o.0), m(&o.1), m(&o.2), js(&o.3)))
        });
    }
    // points at the ends of the coordinate range
    let top = i32::MAX as i64;
    for a in [[5i64, 5, 10, 10], [-top, -top, 7, top], [-top, 3, top, 4], [top - 4, 1, 4, 9], [1, top - 9, 6, 9], [-5, -5, top, top], [0, 0, top, 1]] {
        let rc = mk(a);
        let (xs, ys) = ([-top, 1 - top, -1, 0, 1, a[0], a[0] + a[2] - 1, top - 1, top], [-top, -2, 0, 4, a[1], a[1] + a[3] - 1, top]);
        for x in xs { for y in ys { r.run(ev("rect_has").a("r", &a).a("p", &[x, y]), || rc.contains(x as i32, y as i32)); } }
    }
    for a in [[0i64, 0, 1 << 30, 1 << 30], [-(1 << 30), -5, 1 << 30, 10], [(1 << 30) - 5, 1, 6, 1]] { for b in [[0i64, 0, 1 << 30, 1 << 30], [-(1 << 30), -5, 1 << 30, 10], [(1 << 30) - 1, 1, 1, 1]] { inter(r, a, b) } }
}
fn bezier(r: &mut Rec, a: &[i32], w: u32, h: u32) {
    let im: GrayImage = r.img(w, h);
    let col = Luma([201u8]);
    r.run_as(ev("bezier").a("a", a).a("im", &im).a("col", col.channels()), || (both(&im, "bezier", a, col), log(w, h, "bezier", a, col), log(60, 60, "bezier", a, col)),
        |o, s| s.push_str(&format!("{{\"outs\":{},\"log\":{},\"full\":{}}}", js(&o.0), js(&o.1), js(&o.2))));
}
fn bezier_out(r: &mut Rec, a: &[i32], w: u32, h: u32) {
    let im: GrayImage = r.img(w, h);
    let col = Luma([201u8]);
    r.run_as(ev("bezier_out").a("a", a).a("im", &im).a("col", col.channels()), || (both(&im, "bezier", a, col), log(w, h, "bezier", a, col)),
        |o, s| s.push_str(&format!("{{\"outs\":{},\"log\":{}}}", js(&o.0), js(&o.1))));
}
struct F { glyphs: Vec<([i32; 4], i32, bool)>, asc: i32, desc: i32 }
impl Font for F {
    fn units_per_em(&self) -> Option<f32> { Some(1.0) }
    fn ascent_unscaled(&self) -> f32 { self.asc as f32 }
    fn descent_unscaled(&self) -> f32 { -self.desc as f32 }
    fn line_gap_unscaled(&self) -> f32 { 0.0 }
    fn glyph_id(&self, c: char) -> GlyphId { GlyphId((c as u32 - 'a' as u32) as u16) }
    fn h_advance_unscaled(&self, id: GlyphId) -> f32 { self.glyphs[id.0 as usize].1 as f32 / 2.0 }
    fn h_side_bearing_unscaled(&self, _: GlyphId) -> f32 { 0.0 }
    fn v_advance_unscaled(&self, _: GlyphId) -> f32 { 0.0 }
    fn v_side_bearing_unscaled(&self, _: GlyphId) -> f32 { 0.0 }
    fn kern_unscaled(&self, _: GlyphId, _: GlyphId) -> f32 { 0.0 }
    fn outline(&self, id: GlyphId) -> Option<Outline> {
        let (g, _, on) = self.glyphs[id.0 as usize];
        if !on { return None }
        let (x0, y0, x1, y1) = (g[0] as f32 / 2.0, -g[1] as f32 / 2.0, g[2] as f32 / 2.0, -g[3] as f32 / 2.0);
        let p = [point(x0, y0), point(x1, y0), point(x1, y1), point(x0, y1)];
        Some(Outline { bounds: ab_glyph::Rect { min: point(x0, y0), max: point(x1, y1) }, curves: (0..4).map(|i| OutlineCurve::Line(p[i], p[(i + 1) % 4])).collect() })
    }
    fn glyph_count(&self) -> usize { self.glyphs.len() }
    fn codepoint_ids(&self) -> CodepointIdIter<'_> { unimplemented!() }
    fn glyph_raster_image2(&self, _: GlyphId, _: u16) -> Option<ab_glyph::v2::GlyphImage<'_>> { None }
}
/// Glyph boxes and advances are in half pixels (whole pixels when `even`).
fn text(r: &mut Rec) { text_at(r, 0) }
/// `mode` 1: strings much longer than the canvas; 2: much larger scales. Either way a part far from the start is in view.
fn text_at(r: &mut Rec, mode: i32) {
    let big = mode == 0 && r.range(0, 4) == 0;
    let (w, h) = if big { (r.dim(17, 80), r.dim(13, 40)) } else { (r.dim(0, 16), r.dim(0, 12)) };
    let mut f = F { glyphs: vec![], asc: r.range(1, 7) as i32, desc: r.range(0, 3) as i32 };
    let even = r.range(0, 2) == 0;
    let z = |r: &mut Rec, a: i64, b: i64| if even { 2 * r.range(a, b) as i32 } else { r.range(2 * a, 2 * b) as i32 };
    for _ in 0..3 {
        let (x, y) = (z(r, -1, 2), z(r, -6, 1));
        let g = ([x, y, x + z(r, 1, 4), y + z(r, 1, 5)], z(r, 1, 6), r.range(0, 4) > 0);
        f.glyphs.push(g);
    }
    let s: Vec<usize> = (0..if mode == 1 { r.range(40, 160) } else { r.range(0, if big { 14 } else { 4 }) }).map(|_| r.range(0, 2) as usize).collect();
    let st: String = s.iter().map(|i| (b'a' + *i as u8) as char).collect();
    let k = if mode == 2 { r.range(20, 150) as i32 } else if big { r.range(1, 4) as i32 } else { r.pick(&[1i32, 1, 1, 2]) };
    let mut pen = 0;
    // scaled by k: every length is k times as large
    let mut gl: Vec<[i32; 4]> = vec![];
    for i in &s { let g = &f.glyphs[*i]; if g.2 { let b = g.0; gl.push([k * (pen + b[0]), k * b[1], k * (pen + b[2]), k * b[3]]) } pen += g.1 }
    let (mut x, mut y) = (r.range(-9, w as i64 + 2) as i32, r.range(-9, h as i64 + 2) as i32);
    // an inner point of the string comes to the canvas
    if mode > 0 { x -= (r.range(0, 16) * (k * pen) as i64 / 32) as i32 }
    if mode == 2 { y -= (r.range(0, 16) * (k * (f.asc + f.desc)) as i64 / 16) as i32 }
    let size = if st.is_empty() { (0, 0) } else { (1 + (pen * k + 1) / 2, (f.asc + f.desc) * k) };
    let e = ev("text").a("glyphs", &gl).a("asc", &(2 * f.asc * k)).a("x", &x).a("y", &y).a("size", &size);
    let sc = PxScale::from(((f.asc + f.desc) * k) as f32);
    if r.range(0, 3) > 0 {
        let im: GrayImage = r.img(w, h);
        let col = Luma([r.range(0, 255) as u8]);
        r.run_as(e.a("im", &im).a("col", col.channels()), || {
            let mut m = im.clone();
            draw_text_mut(&mut m, col, x, y, sc, &f, &st);
            (vec![draw_text(&im, col, x, y, sc, &f, &st), m], text_size(sc, &f, &st))
        }, |o, s| s.push_str(&format!("{{\"outs\":{},\"size\":{}}}", js(&o.0), js(&o.1))));
    } else if r.range(0, 2) == 0 {
        let im: RgbaImage = r.img(w, h);
        let col = Rgba([r.range(0, 255) as u8, 0, 255, r.range(0, 255) as u8]);
        r.run_as(e.a("im", &im).a("col", col.channels()), || {
            let mut m = im.clone();
            draw_text_mut(&mut m, col, x, y, sc, &f, &st);
            (vec![draw_text(&im, col, x, y, sc, &f, &st), m], text_size(sc, &f, &st))
        }, |o, s| s.push_str(&format!("{{\"outs\":{},\"size\":{}}}", js(&o.0), js(&o.1))));
    } else {
        let im: RgbImage = r.img(w, h);
        let col = Rgb([r.range(0, 255) as u8, 0, 255]);
        r.run_as(e.a("im", &im).a("col", col.channels()), || {
            let mut m = im.clone();
            draw_text_mut(&mut m, col, x, y, sc, &f, &st);
            (vec![draw_text(&im, col, x, y, sc, &f, &st), m], text_size(sc, &f, &st))
        }, |o, s| s.push_str(&format!("{{\"outs\":{},\"size\":{}}}", js(&o.0), js(&o.1))));
    }
}
fn c42(r: &mut Rec) {
    for _ in 0..r.t(250, 2500) {
        let a: Vec<i32> = match r.range(0, 3) {
            0 => { let (x, y) = (r.range(0, 40) as i32, r.range(0, 40) as i32); (0..4).flat_map(|_| [x, y]).collect() }
            1 => { let (x, y) = (r.range(0, 20) as i32, r.range(0, 20) as i32); (0..4).flat_map(|_| [x + r.range(0, 4) as i32, y + r.range(0, 4) as i32]).collect() }
            _ => args(r, "bezier", 1, 1),
        };
        bezier(r, &a, 45, 42);
    }
    for _ in 0..r.t(60, 600) { let a = args(r, "bezier", 1, 1); bezier(r, &a, 15, 20) }
    // both ends, or both control points, beyond one border of the canvas, or any of the four anywhere around it
    for k in 0..r.t(96, 900) {
        let (w, h) = (r.range(12, 26) as u32, r.range(12, 26) as u32);
        let mut a: Vec<i32> = (0..8).map(|i| r.range(-14, if i % 2 == 0 { w } else { h } as i64 + 13) as i32).collect();
        let (at, far) = (if k / 8 % 2 == 0 { 0 } else { 4 }, r.range(1, 9) as i32);
        if k % 8 < 4 {
            let v = [-far, -far, w as i32 - 1 + far, h as i32 - 1 + far][k as usize % 4];
            for j in [at, at + 2] { a[j + k as usize % 2] = v }
            let v = [w as i32 + 8, h as i32 + 8, -9, -9][k as usize % 4];
            for j in [4 - at, 6 - at] { a[j + k as usize % 2] = v }
        }
        bezier_out(r, &a, w, h);
    }
    for _ in 0..r.t(600, 6000) { text(r) }
    for i in 0..r.t(40, 400) { text_at(r, 1 + i as i32 % 2) }
    for k in 0..r.t(12, 60) {
        let m = r.pick(&[150i64, 400, 1000]);
        let mut a: Vec<i32> = (0..8).map(|_| r.range(0, m) as i32).collect();
        if k % 4 == 0 { a[2] = a[0] + r.range(-2, 2).abs() as i32; a[3] = a[1] } // nearly closed
        r.run(ev("bezier_big").a("a", &a), || { let mut l = log(1010, 1010, "bezier", &a, Luma([1u8])); l.sort(); l.dedup(); l.iter().map(|p| [p.0, p.1]).collect::<Vec<_>>() });
    }
    let f = F { glyphs: vec![([0, -6, 4, 0], 6, true), ([-3, -4, 3, 2], 5, true)], asc: 4, desc: 2 };
    for (x, y) in remote() { for k in [1.0f32, 3.0] {
        let im: GrayImage = r.img(7, 6);
        r.run(ev("remote").a("x", &x).a("y", &y).a("im", &im), || { let mut m = im.clone(); draw_text_mut(&mut m, Luma([200]), x, y, PxScale::from(6.0 * k), &f, "abba"); m });
    } }
}
/// Positions at the ends of the coordinate range.
fn remote() -> Vec<(i32, i32)> {
    let (lo, hi) = (i32::MIN, i32::MAX);
    vec![(hi, 0), (hi - 1, 2), (0, hi), (lo, 1), (lo + 2, 1), (3, lo), (hi, hi), (lo, lo), (hi - 3, lo + 3), (lo, hi), (2, hi - 2)]
}
// Middling canvases and shapes.
fn mid(r: &mut Rec) {
    for i in 0..r.t(24, 240) {
        let (w, h) = (r.dim(15, 110), r.dim(15, 110));
        let kinds: &[&str] = match r.prop.as_str() {
            "C21" => &["line", "line"],
            "C22" => &["filled_rect", "hollow_rect", "cross"],
            "C23" => &["hollow_circle", "filled_circle"],
            _ => &["hollow_polygon", "hollow_polygon"],
        };
        match r.prop.as_str() {
            "C21" | "C22" | "C23" => {
                for k in kinds { let a = args(r, k, w, h); shape(r, w, h, k, &a); }
                if r.prop == "C21" {
                    let a = args(r, "line", w, h);
                    pix_iter(r, w, h, [a[0], a[1], a[2], a[3]]);
                    iter(r, [a[1], a[0], a[2], a[3]]);
                }
                if r.prop == "C23" {
                    let a = args(r, "hollow_ellipse", w / 2, h / 2);
                    ellipse_at(r, w, h, i % 2 == 0, &a);
                    let (a, b) = (r.dim(9, 60) as i32, r.dim(9, 60) as i32);
                    ellipse(r, a, b);
                }
            }
            "C24" => {
                let (w, h) = (w.min(60), h.min(60));
                let a = args(r, "hollow_polygon", w, h);
                if a.len() != 2 { shape(r, w, h, "hollow_polygon", &a) }
                let n = r.range(3, 14);
                let p: Vec<Pt> = (0..n).map(|_| (r.range(-20, w as i64 + 20) as i32, r.range(-20, h as i64 + 20) as i32)).collect();
                polygon(r, w, h, &p);
                let mut p: Vec<Pt> = vec![(r.range(0, w as i64) as i32, r.range(0, h as i64) as i32)];
                for _ in 0..r.range(4, 24) { let l = p[p.len() - 1]; let k = r.range(-30, 30) as i32; p.push(match r.range(0, 3) { 0 => (l.0 + k, l.1), 1 => (l.0, l.1 + k), 2 => (l.0 + k, l.1 + k), _ => (l.0 + k, l.1 - k / 2) }) }
                polygon(r, w, h, &p);
            }
            "C25" => {
                let m = 10;
                let p = (r.range(-m, w as i64 + m) as i32, r.range(-m, h as i64 + m) as i32);
                let q = (r.range(-m, w as i64 + m) as i32, r.range(-m, h as i64 + m) as i32);
                wu(r, w, h, p, q, i % 2 == 0);
                let k = r.pick(&["line", "hollow_rect", "filled_rect", "hollow_circle", "filled_circle", "hollow_ellipse", "filled_ellipse", "polygon", "hollow_polygon"]);
                let (w, h) = (w.min(50), h.min(50));
                let a = args(r, k, w, h);
                if a.len() != 2 { blend(r, w, h, k, &a) }
                let n = r.range(3, 9);
                let pts: Vec<Pt> = (0..n).map(|_| (r.range(-9, w as i64 + 9) as i32, r.range(-9, h as i64 + 9) as i32)).collect();
                let im: GrayImage = r.img(w, h);
                let col = Luma([140u8]);
                r.run(ev("aapoly").a("pts", &pts).a("im", &im).a("col", col.channels()), || draw_antialiased_polygon(&im, &ipts(&pts), col, imageproc::pixelops::interpolate));
            }
            "C42" => {
                let a: Vec<i32> = (0..8).map(|_| r.range(0, 58) as i32).collect();
                bezier(r, &a, 60, 60);
                text(r);
            }
            _ => {}
        }
    }
}
fn main() {
    let mut r = Rec::start();
    match r.prop.as_str() { "C21" => c21(&mut r), "C22" => c22(&mut r), "C23" => c23(&mut r), "C24" => c24(&mut r), "C25" => c25(&mut r), "C26" => c26(&mut r), _ => c42(&mut r) }
    mid(&mut r);
    r.finish();
}
