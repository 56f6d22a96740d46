use image::{GrayImage, Luma, Pixel, Rgb, RgbImage, Rgba, RgbaImage};
use imageproc::definitions::{Clamp, Image};
use imageproc::geometry::*;
use imageproc::hog::*;
use imageproc::image_hash::phash;
use imageproc::map::*;
use imageproc::pixelops::*;
use imageproc::point::Point;
use imageproc::seam_carving::*;
use imageproc::template_matching::*;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicUsize, Ordering};
use vh::image::{ImageBuffer, LumaA};
use vh::*;

// ---- C31
/// The column of a seam in each row, top first, seen by drawing it on a black canvas.
fn seam_xs(s: &VerticalSeam, w: u32, h: u32) -> Vec<i64> {
    let d = draw_vertical_seams(&GrayImage::new(w, h), std::slice::from_ref(s));
    (0..h).map(|y| {
        let xs: Vec<u32> = (0..w).filter(|&x| d.get_pixel(x, y).0 == [255, 0, 0]).collect();
        if xs.len() == 1 { xs[0] as i64 } else { -1 - xs.len() as i64 }
    }).collect()
}
macro_rules! carve { ($n:ident, $p:ty) => {
fn $n(r: &mut Rec, im: &Image<$p>, steps: u32) {
    r.run(ev("seam_start").a("im", im), || ());
    let mut cur = im.clone();
    let mut seams = vec![];
    let mut ok = true;
    for _ in 0..steps {
        let (w, h) = cur.dimensions();
        let mut keep = None;
        let res = r.run(ev("seam").cont(), || {
            let s = find_vertical_seam(&cur);
            let n = remove_vertical_seam(&cur, &s);
            let xs = seam_xs(&s, w, h);
            keep = Some(s);
            (xs, n)
        });
        match (res, keep) { (Some((_, n)), Some(s)) => { cur = n; seams.push(s) } _ => { ok = false; break } }
    }
    if !ok { return }
    let t = im.width() - steps;
    r.run(ev("shrink").cont().a("t", &t), || shrink_width(im, t));
    let (w, h) = im.dimensions();
    let canvas: GrayImage = r.img(w, h);
    r.run(ev("drawn").cont().a("canvas", &canvas), || draw_vertical_seams(&canvas, &seams));
} } }
carve!(carve1, Luma<u8>);
carve!(carve3, Rgb<u8>);
carve!(carve4, Rgba<u8>);
fn c31(r: &mut Rec) {
    for (w, h) in [(2u32, 1u32), (2, 2), (3, 2), (2, 3), (4, 2), (3, 3)] {
        let pal: &[u8] = if w * h <= 6 { &[0, 60, 255] } else { &[0, 90] };
        for im in all_images(w, h, pal).collect::<Vec<_>>() { carve1(r, &im, w - 1) }
    }
    for _ in 0..r.t(160, 2500) {
        let (w, h) = (r.dim(2, 9), r.dim(1, 8));
        let s = r.range(1, w as i64 - 1) as u32;
        match r.range(0, 4) { 0 => { let im = r.img(w, h); carve3(r, &im, s) } 1 => { let im = r.img(w, h); carve4(r, &im, s) } _ => { let im = r.img(w, h); carve1(r, &im, s) } }
    }
    // smooth images: many near-equal paths
    for _ in 0..r.t(40, 500) {
        let (w, h) = (r.dim(3, 12), r.dim(3, 12));
        let (a, b, c) = (r.range(0, 9), r.range(0, 9), r.range(1, 60));
        let im = GrayImage::from_fn(w, h, |x, y| Luma([((x as i64 * a + y as i64 * b) % c * 3) as u8]));
        let s = r.range(1, w as i64 - 1) as u32;
        carve1(r, &im, s);
    }
    for (w, h, s) in [(300u32, 2u32, 3u32), (1100, 1, 4), (2, 300, 1), (3, 1100, 2), (270, 3, 30), (60, 50, 3), (40, 2, 39)] { let im: GrayImage = r.img(w, h); carve1(r, &im, s) }
    { let im: GrayImage = r.img(40, 3); carve1(r, &im, 3); let im: GrayImage = r.img(3, 60); carve1(r, &im, 2); }
    for _ in 0..8 {
        let (w, h) = (r.dim(1, 5), r.dim(1, 5));
        let im: GrayImage = r.img(w, h);
        r.run(ev("shrink_bad").a("im", &im), || shrink_width(&im, 0));
        let t = w + r.range(1, 3) as u32;
        r.run(ev("shrink_bad").a("im", &im).a("t", &t), || shrink_width(&im, t));
        let o: GrayImage = r.img(w + 1, h + 1);
        let s = find_vertical_seam(&o);
        r.run(ev("seam_len").a("im", &im), || remove_vertical_seam(&im, &s));
        let one: GrayImage = r.img(1, h);
        r.run(ev("shrink_bad").a("im", &one).a("t", &-1), || { find_vertical_seam(&one); });
        // no step at all
        r.run(ev("seam_start").a("im", &im), || ());
        r.run(ev("shrink").cont(), || shrink_width(&im, w));
    }
}

// ---- C32
/// mantissa in 2^14..2^15 and exponent
fn fl(v: f64) -> (i64, i64) {
    if v == 0.0 { return (0, 0) }
    if !v.is_finite() || v < 0.0 { return (-1, 0) }
    let mut e = v.log2().floor() as i64 - 14;
    let mut m = (v / (e as f64).exp2()).round() as i64;
    if m >= 32768 { m = (m + 1) / 2; e += 1 }
    (m, e)
}
fn tm_js(m: &str, ms: i64, o: &Image<Luma<f32>>) -> Raw {
    let px = if m.len() == 4 || m == "ccn" { js(&o.iter().map(|&v| fl(v as f64)).collect::<Vec<_>>()) }
        else { js(&o.iter().map(|&v| fr(v as f64 / (ms * ms) as f64, 1.0)).collect::<Vec<_>>()) };
    Raw(format!("{{\"w\":{},\"h\":{},\"c\":1,\"px\":{}}}", o.width(), o.height(), px))
}
fn tm(r: &mut Rec, im: &GrayImage, t: &GrayImage, mask: Option<GrayImage>, ms: i64, m: &str) { tm_at(r, im, t, mask, ms, m, 0, 0) }
/// The image is what the event shows with dx columns and dy rows before it.
fn tm_at(r: &mut Rec, im: &GrayImage, t: &GrayImage, mask: Option<GrayImage>, ms: i64, m: &str, dx: u32, dy: u32) {
    let method = match m { "sse" => MatchTemplateMethod::SumOfSquaredErrors, "ssen" => MatchTemplateMethod::SumOfSquaredErrorsNormalized,
        "cc" => MatchTemplateMethod::CrossCorrelation, _ => MatchTemplateMethod::CrossCorrelationNormalized };
    let m2 = mask.as_ref().map(|k| GrayImage::from_fn(k.width(), k.height(), |x, y| Luma([(k.get_pixel(x, y)[0] as i64 * ms) as u8])));
    let e = ev("tm").a("im", im).a("t", t).a("mask", &mask).a("ms", &ms).a("m", m);
    let big;
    let im = if dx + dy > 0 { big = far(im, Luma([7]), dx, dy); &big } else { im };
    r.run(e, || {
        match &m2 {
            None => { let mut o = vec![match_template(im, t, method)]; o.extend(pools(|| match_template_parallel(im, t, method))); o }
            Some(k) => { let mut o = vec![match_template_with_mask(im, t, method, k)]; o.extend(pools(|| match_template_with_mask_parallel(im, t, method, k))); o }
        }.iter().map(|o| if dx + dy > 0 { corner(o, o.width() - dx, o.height() - dy) } else { o.clone() }).map(|o| tm_js(m, ms, &o)).collect::<Vec<_>>()
    });
}
/// A flat image of level u, a flat template of level v one smaller each way, and a flat mask of level k (none for 1).
fn tm_flat(r: &mut Rec, w: u32, h: u32, u: u8, v: u8, k: u8, m: &str) {
    let method = match m { "sse" => MatchTemplateMethod::SumOfSquaredErrors, "ssen" => MatchTemplateMethod::SumOfSquaredErrorsNormalized,
        "cc" => MatchTemplateMethod::CrossCorrelation, _ => MatchTemplateMethod::CrossCorrelationNormalized };
    let (im, t, mask) = (GrayImage::from_pixel(w + 1, h + 1, Luma([u])), GrayImage::from_pixel(w, h, Luma([v])), GrayImage::from_pixel(w, h, Luma([k])));
    r.run(ev("tm_flat").a("w", &w).a("h", &h).a("u", &u).a("v", &v).a("k", &k).a("m", m), || {
        if k == 1 { vec![match_template(&im, &t, method), match_template_parallel(&im, &t, method)] }
        else { vec![match_template_with_mask(&im, &t, method, &mask), match_template_with_mask_parallel(&im, &t, method, &mask)] }
            .iter().map(|o| Raw(format!("{{\"w\":{},\"h\":{},\"c\":1,\"px\":{}}}", o.width(), o.height(), js(&o.iter().map(|&v| fl(v as f64)).collect::<Vec<_>>())))).collect::<Vec<_>>()
    });
}
const METHODS: [&str; 4] = ["sse", "ssen", "cc", "ccn"];
fn c32(r: &mut Rec) {
    for w in 1..=2u32 { for h in 1..=2u32 { for im in all_images(w, h, &[0, 3]).collect::<Vec<_>>() {
        for t in all_images(1, 1, &[0, 1, 3]).collect::<Vec<_>>() { for m in METHODS { tm(r, &im, &t, None, 1, m) } }
        if w * h == 4 { for t in all_images(2, 1, &[0, 3]).chain(all_images(1, 2, &[0, 3])).collect::<Vec<_>>() { for m in METHODS { tm(r, &im, &t, None, 1, m) } } }
    } } }
    // every tiny image of dark levels: norms near 0
    for (w, h, tw, th) in [(1u32, 1u32, 1u32, 1u32), (2, 1, 1, 1), (2, 1, 2, 1), (1, 2, 1, 2), (2, 2, 2, 2)] {
        for im in all_images(w, h, &[0, 1, 2]).collect::<Vec<_>>() { for t in all_images(tw, th, &[0, 1, 2]).collect::<Vec<_>>() {
            if w * h > 2 && !r.thorough && r.range(0, 15) != 0 { continue }
            for m in METHODS { tm(r, &im, &t, None, 1, m) }
            let k = GrayImage::from_pixel(tw, th, Luma([1]));
            let m = METHODS[r.range(0, 3) as usize];
            tm(r, &im, &t, Some(k), 1, m);
        } }
    }
    for i in 0..r.t(400, 6000) {
        let m = METHODS[i % 4];
        let (w, h) = (r.dim(1, 9), r.dim(1, 9));
        let (mut tw, mut th) = (r.dim(1, w as i64), r.dim(1, h as i64));
        if r.range(0, 9) == 0 { tw += w; }
        if r.range(0, 9) == 0 { th += h; }
        let masked = r.range(0, 1) == 0;
        let hi = if masked && (tw * th > 9 || r.range(0, 1) == 0) { 40 } else { 255 };
        let px = |r: &mut Rec, n: u32| -> Vec<u8> { r.samples(n as usize, hi).into_iter().map(|v| v as u8).collect() };
        let im = GrayImage::from_raw(w, h, px(r, w * h)).unwrap();
        let mut t = GrayImage::from_raw(tw, th, px(r, tw * th)).unwrap();
        if r.range(0, 2) == 0 && tw <= w && th <= h {
            // a template cut from the image
            let (x0, y0) = (r.range(0, (w - tw) as i64) as u32, r.range(0, (h - th) as i64) as u32);
            t = GrayImage::from_fn(tw, th, |x, y| *im.get_pixel(x0 + x, y0 + y));
        }
        if !masked { tm(r, &im, &t, None, 1, m); continue }
        let (mw, mh) = match r.range(0, 15) { 0 => (tw + 1, th), 1 => (tw, th + 1), 2 if tw != th => (th, tw), _ => (tw, th) };
        let (ms, mx) = r.pick(&[(1i64, 1i64), (1, 4), (255, 1), (51, 5), (3, 2)]);
        let k = GrayImage::from_raw(mw, mh, r.samples((mw * mh) as usize, mx).into_iter().map(|v| v.min(mx) as u8).collect()).unwrap();
        tm(r, &im, &t, Some(k), ms, m);
    }
    // sums of more than 32 bits
    for (w, h) in [(260u32, 261u32), (70, 1000)] { for (u, v) in [(255u8, 254u8), (200, 255), (255, 255), (3, 255)] { for k in [1u8, 255] { for m in METHODS { tm_flat(r, w, h, u, v, k, m) } } } }
    // the far corner of a large image
    for (dx, dy) in FAR { for m in METHODS {
        let (w, h) = (r.dim(5, 12), r.dim(5, 12));
        let im = GrayImage::from_raw(w, h, r.samples((w * h) as usize, 40).into_iter().map(|v| v as u8).collect()).unwrap();
        let t = GrayImage::from_fn(3, 2, |x, y| *im.get_pixel(w - 3 + x, h - 2 + y));
        let k = GrayImage::from_raw(3, 2, r.samples(6, 4).into_iter().map(|v| v.min(4) as u8).collect()).unwrap();
        for mask in [None, Some(k)] { tm_at(r, &im, &t, mask, 1, m, dx, dy) }
    } }
    { let im: GrayImage = r.img(300, 3); let t = GrayImage::from_fn(5, 2, |x, y| *im.get_pixel(290 + x, y)); tm(r, &im, &t, None, 1, "sse"); tm(r, &im, &t, None, 1, "ccn") }
    for m in METHODS {
        let im: GrayImage = GrayImage::from_raw(1100, 2, r.samples(2200, 9).into_iter().map(|v| v as u8).collect()).unwrap(); let t = GrayImage::from_fn(5, 2, |x, y| *im.get_pixel(1090 + x, y)); tm(r, &im, &t, None, 1, m);
        let im: GrayImage = GrayImage::from_raw(2, 1100, r.samples(2200, 9).into_iter().map(|v| v as u8).collect()).unwrap(); let t = GrayImage::from_fn(2, 5, |x, y| *im.get_pixel(x, 1090 + y)); tm(r, &im, &t, None, 1, m);
    }
    { let im: GrayImage = r.img(3, 300); let t = GrayImage::from_fn(2, 5, |x, y| *im.get_pixel(x, 290 + y)); tm(r, &im, &t, None, 1, "sse"); tm(r, &im, &t, None, 1, "ccn") }
}

// ---- C36
type Pt = (i32, i32);
fn pts(ps: &[Pt]) -> Vec<Point<i32>> { ps.iter().map(|p| Point::new(p.0, p.1)).collect() }
fn back(ps: &[Point<i32>]) -> Vec<Pt> { ps.iter().map(|p| (p.x, p.y)).collect() }
/// the recorded points are mapped to (f x + dx, f y + dy) for the call and back afterwards
fn hull(r: &mut Rec, ps: &[Pt], f: i32, d: Pt) {
    r.run(ev("hull").a("ps", ps).a("f", &f).a("d", &d), || {
        let v: Vec<_> = ps.iter().map(|p| Point::new(p.0 * f + d.0, p.1 * f + d.1)).collect();
        convex_hull(v).iter().map(|p| if (p.x - d.0) % f == 0 && (p.y - d.1) % f == 0 { ((p.x - d.0) / f, (p.y - d.1) / f) } else { (99999, 99999) }).collect::<Vec<_>>()
    });
}
/// A right angle of side x with points so far apart along its sides: the distance of each from the far end.
fn hull_far(r: &mut Rec, x: i32, ks: &[i32], ms: &[i32], perm: i64) {
    r.run(ev("hull_far").a("ks", ks).a("ms", ms), || {
        let mut v = vec![Point::new(0, 0)];
        v.extend(ks.iter().map(|k| Point::new(x - k, 0)));
        v.extend(ms.iter().map(|m| Point::new(0, x - m)));
        let n = v.len(); v.rotate_left(perm as usize % n); if perm % 2 == 0 { v.reverse() }
        convex_hull(v).iter().map(|p| if p.x == 0 && p.y == 0 { (0, 0) } else if p.y == 0 { (1, x - p.x) } else if p.x == 0 { (2, x - p.y) } else { (9, 9) }).collect::<Vec<_>>()
    });
}
fn hull_u32(r: &mut Rec, ps: &[Pt]) {
    r.run(ev("hull").a("ps", ps).a("f", &0), || {
        let v: Vec<_> = ps.iter().map(|p| Point::new(p.0 as u32 * 3, p.1 as u32 * 3)).collect();
        convex_hull(v).iter().map(|p| (p.x / 3, p.y / 3)).collect::<Vec<_>>()
    });
}
fn rect(r: &mut Rec, ps: &[Pt]) { r.run(ev("rect").a("ps", ps), || back(&min_area_rect(&pts(ps)))); }
fn area(r: &mut Rec, ps: &[Pt]) {
    r.run(ev("area").a("ps", ps), || {
        let q = pts(ps);
        let f: Vec<_> = ps.iter().map(|p| Point::new(p.0 as f64 * 0.5, p.1 as f64 * 0.5)).collect();
        let (a, b) = (fx(oriented_contour_area(&q), 2.0), fx(contour_area(&q), 2.0));
        if fx(oriented_contour_area(&f), 8.0) == a && fx(contour_area(&f), 8.0) == b { vec![a, b] } else { vec![] }
    });
}
fn arc(r: &mut Rec, ps: &[Pt]) { r.run(ev("arc").a("ps", ps), || { let q = pts(ps); ((arc_length(&q, false) * 1000.0).floor() as i64, (arc_length(&q, true) * 1000.0).floor() as i64) }); }
fn dp(r: &mut Rec, ps: &[Pt], eps: i64) {
    // the same for the curve at other scales, in floating point
    r.run(ev("dp").a("ps", ps).a("eps", &eps), || {
        let q = pts(ps);
        let o = [false, true].map(|c| back(&approximate_polygon_dp(&q, eps as f64 / 4.0, c))).to_vec();
        for k in [1.0 / 1024.0, 65536.0] {
            let f: Vec<_> = ps.iter().map(|p| Point::new(p.0 as f64 * k, p.1 as f64 * k)).collect();
            let of = [false, true].map(|c| approximate_polygon_dp(&f, eps as f64 / 4.0 * k, c).iter().map(|p| ((p.x / k) as i32, (p.y / k) as i32)).collect::<Vec<_>>()).to_vec();
            if of != o { return of }
        }
        o
    });
}
fn cloud(r: &mut Rec, n: i64, m: i64) -> Vec<Pt> {
    let k = r.range(1, n);
    let mut v: Vec<Pt> = (0..k).map(|_| (r.range(-m, m) as i32, r.range(-m, m) as i32)).collect();
    if r.range(0, 4) == 0 { for _ in 0..r.range(1, 3) { let i = r.range(0, v.len() as i64 - 1) as usize; v.push(v[i]) } }
    v
}
fn c36(r: &mut Rec) {
    for x in [1i32 << 26, 1 << 28, 1_000_000_007, i32::MAX] { for perm in 0..8 {
        let mut some = |r: &mut Rec| { let n = r.range(1, 4); (0..n).map(|_| r.range(0, 5) as i32).collect::<Vec<_>>() };
        let (ks, ms) = (some(r), some(r));
        hull_far(r, x, &ks, &ms, perm);
    } }
    // the whole of the i32 plane
    for f in [1i32 << 29, 700_000_000, 1 << 30] {
        let (lo, hi) = ((i32::MIN as i64 / f as i64), (i32::MAX as i64 / f as i64));
        for n in 3..=12 {
            let v: Vec<Pt> = (0..n).map(|_| (r.range(lo, hi) as i32, r.range(lo, hi) as i32)).collect();
            hull(r, &v, f, (0, 0));
        }
        hull(r, &[(lo as i32, lo as i32), (hi as i32, lo as i32), (hi as i32, hi as i32), (lo as i32, hi as i32), (0, 0)], f, (0, 0));
    }
    hull(r, &[], 1, (0, 0));
    rect(r, &[]);
    arc(r, &[]);
    area(r, &[]);
    // every sequence of up to 4 points of a 3x3 grid (5 when thorough)
    let g = |i: usize| (i as i32 % 3, i as i32 / 3);
    for n in 1..=r.t(4, 5) {
        for mut k in 0..9usize.pow(n as u32) {
            let v: Vec<Pt> = (0..n).map(|_| { let d = k % 9; k /= 9; g(d) }).collect();
            hull(r, &v, 1, (0, 0));
            if n <= 3 || r.range(0, 3) == 0 { rect(r, &v) }
            if n <= 3 || r.range(0, 5) == 0 { area(r, &v); arc(r, &v) }
            if n >= 2 && (n <= 3 || r.range(0, 3) == 0) { let e = r.pick(&[1i64, 3, 4, 6, 9]); dp(r, &v, e) }
        }
    }
    // every subset of the 3x3 grid
    for s in 1..512u32 { let v: Vec<Pt> = (0..9).filter(|i| s >> i & 1 == 1).map(g).collect(); hull(r, &v, 1, (-1, -1)); rect(r, &v); hull_u32(r, &v) }
    for _ in 0..r.t(500, 8000) {
        let m = r.pick(&[2i64, 4, 10]);
        let v = cloud(r, 14, m);
        let (f, d) = r.pick(&[(1, (0, 0)), (1, (40000, -40000)), (20000, (0, 0)), (50000000, (7, -3)), (100, (-100000, 5))]);
        hull(r, &v, f, d);
        let v = cloud(r, 8, 9);
        rect(r, &v);
        let v = cloud(r, 10, 15);
        area(r, &v);
        arc(r, &v);
        let v: Vec<Pt> = (0..r.range(3, 5)).map(|_| (2 * r.range(-4900, 4900) as i32 + 1, 2 * r.range(-4900, 4900) as i32 + 1)).collect();
        area(r, &v);
    }
    // thin and rotated shapes: which edge gives the least area
    for _ in 0..r.t(150, 2500) {
        let (a, b) = (r.range(1, 6) as i32, r.range(-3, 6) as i32);
        let (l, w) = (r.range(1, 3) as i32, r.range(0, 2) as i32);
        let o = (r.range(-5, 5) as i32, r.range(-5, 5) as i32);
        let mut v: Vec<Pt> = vec![o, (o.0 + l * a, o.1 + l * b), (o.0 + l * a - w * b, o.1 + l * b + w * a), (o.0 - w * b, o.1 + w * a)];
        if r.range(0, 1) == 0 { let k = r.range(0, 3) as usize; v[k].0 += r.range(-1, 1) as i32; }
        let k = r.range(0, 3) as usize;
        v.rotate_left(k);
        if r.range(0, 1) == 0 { v.reverse() }
        rect(r, &v);
        hull(r, &v, 1, (0, 0));
    }
    // many points: large hulls, long contours
    for k in 0..r.t(12, 100) {
        let m = r.pick(&[6i64, 12, 20]);
        let v: Vec<Pt> = (0..r.range(40, 120)).map(|_| (r.range(-m, m) as i32, r.range(-m, m) as i32)).collect();
        hull(r, &v, 1, (0, 0));
        if k % 3 == 0 { rect(r, &v[..30]) }
        area(r, &v);
        let q: Vec<Pt> = (0..64).map(|i| { let t = i as f64 * std::f64::consts::PI / 32.0; ((t.cos() * m as f64 * 4.0) as i32, (t.sin() * m as f64 * 4.0) as i32) }).collect();
        hull(r, &q, 1, (k as i32, -3));
        let (mut p, mut c): (Pt, Vec<Pt>) = ((0, 0), vec![]);
        for _ in 0..r.range(50, 150) { p = (p.0 + r.range(-1, 1) as i32, p.1 + r.range(-1, 1) as i32); c.push(p) }
        arc(r, &c);
        dp(r, &c, 4 + k as i64);
    }
    // walks: contours that double back and close
    for _ in 0..r.t(500, 8000) {
        let n = r.range(2, 16);
        let mut p: Pt = (0, 0);
        let mut v = vec![p];
        let step = r.pick(&[1i64, 1, 5]);
        for _ in 1..n { p = (p.0 + r.range(-step, step) as i32, p.1 + r.range(-step, step) as i32); v.push(p) }
        match r.range(0, 3) { 0 => v.push((0, 0)), 1 => { let mut q = v.clone(); q.reverse(); v.extend_from_slice(&q[1..]) } _ => {} }
        let e = r.pick(&[1i64, 2, 4, 7, 12, 40]);
        dp(r, &v, e);
        arc(r, &v);
        area(r, &v);
    }
    // points in general position and a tolerance far below their distances: none may be left out
    for k in 0..r.t(400, 4000) {
        let (n, m) = (r.range(2, 12), r.pick(&[1i64, 100, 1000]));
        let q: Vec<Point<f64>> = (0..n).map(|_| { let mut c = || r.range(-1 << 40, 1 << 40) as f64 / (1i64 << 40) as f64 * m as f64; Point::new(c(), c()) }).collect();
        let (eps, exp) = [(1e-10, 10), (1e-12, 12), (1e-15, 15)][k as usize % 3];
        let at: Vec<Pt> = q.iter().map(|p| ((p.x * 1000.0) as i32, (p.y * 1000.0) as i32)).collect();
        r.run(ev("dp_tiny").a("ps", &at).a("exp", &exp), || [false, true].map(|c| {
            approximate_polygon_dp(&q, eps, c).iter().map(|p| q.iter().position(|o| o == p).map_or(-1, |i| i as i64)).collect::<Vec<_>>()
        }).to_vec());
    }
    for e in [0.0, -1.0] { r.run(ev("dp_bad").a("eps", &(e as i64)), || back(&approximate_polygon_dp(&pts(&[(0, 0), (1, 1)]), e, false))); }
}

// ---- C37
#[derive(Clone)]
struct F { k: i64, a: Vec<i64>, b: Vec<i64>, m: i64 }
impl J for F { fn j(&self, s: &mut String) { s.push_str(&format!("{{\"k\":{},\"a\":{},\"b\":{},\"m\":{}}}", self.k, js(&self.a), js(&self.b), self.m)) } }
impl F {
    fn at(&self, px: &[u8], x: u32, y: u32) -> i64 {
        (self.k + self.b[0] * x as i64 + self.b[1] * y as i64 + px.iter().zip(&self.a).map(|(p, a)| *p as i64 * a).sum::<i64>()).rem_euclid(self.m)
    }
}
fn coefs(r: &mut Rec, c: usize, xy: bool, m: i64) -> F {
    F { k: r.range(0, 255), a: (0..c).map(|_| r.range(0, 40)).collect(), b: (0..2).map(|_| if xy { r.range(0, 40) } else { 0 }).collect(), m }
}
struct Cnt(AtomicUsize);
impl Cnt { fn new() -> Cnt { Cnt(AtomicUsize::new(0)) } fn hit(&self) { self.0.fetch_add(1, Ordering::Relaxed); } fn get(&self) -> usize { self.0.load(Ordering::Relaxed) } }
macro_rules! maps { ($n:ident, $p:ty, $c:expr, $q:ty, $qc:expr, $mk:expr, $same:expr) => {
fn $n(r: &mut Rec, w: u32, h: u32) {
    let im: Image<$p> = r.img(w, h);
    let mk = $mk;
    // result channels: f, f + 1, ...
    for xy in [false, true] {
        let m = r.pick(&[256i64, 251]); let f = coefs(r, $c, xy, m);
        r.run(ev("map").a("im", &im).a("f", &f).a("c", &$qc).a("calls", &1), || {
            let mut outs: Vec<(Image<$q>, usize)> = vec![];
            let go = |p: $p, x: u32, y: u32| -> $q { mk((0..4).map(|k| ((f.at(p.channels(), x, y) + k) % f.m) as u8).collect::<Vec<_>>()) };
            let c = Cnt::new();
            outs.push((map_enumerated_pixels(&im, |x, y, p| { c.hit(); go(p, x, y) }), c.get()));
            outs.extend(pools(|| { let c = Cnt::new(); let o = map_enumerated_pixels_parallel(&im, |x, y, p| { c.hit(); go(p, x, y) }); (o, c.get()) }));
            if !xy {
                let c = Cnt::new();
                outs.push((map_pixels(&im, |p| { c.hit(); go(p, 0, 0) }), c.get()));
                outs.extend(pools(|| { let c = Cnt::new(); let o = map_pixels_parallel(&im, |p| { c.hit(); go(p, 0, 0) }); (o, c.get()) }));
            }
            $same(&im, &f, xy, &mut outs);
            outs
        });
    }
} } }
macro_rules! same { ($p:ty, $mk:expr) => { |im: &Image<$p>, f: &F, xy: bool, outs: &mut Vec<(Image<$p>, usize)>| {
    let mk = $mk;
    let go = |p: $p, x: u32, y: u32| -> $p { mk((0..4).map(|k| ((f.at(p.channels(), x, y) + k) % f.m) as u8).collect::<Vec<_>>()) };
    let c = Cnt::new();
    let mut o = im.clone();
    map_enumerated_pixels_mut(&mut o, |x, y, p| { c.hit(); go(p, x, y) });
    outs.push((o, c.get()));
    outs.extend(pools(|| { let c = Cnt::new(); let mut o = im.clone(); map_enumerated_pixels_mut_parallel(&mut o, |x, y, p| { c.hit(); go(p, x, y) }); (o, c.get()) }));
    if !xy {
        let c = Cnt::new();
        let mut o = im.clone();
        map_pixels_mut(&mut o, |p| { c.hit(); go(p, 0, 0) });
        outs.push((o, c.get()));
        outs.extend(pools(|| { let c = Cnt::new(); let mut o = im.clone(); map_pixels_mut_parallel(&mut o, |p| { c.hit(); go(p, 0, 0) }); (o, c.get()) }));
    }
} } }
macro_rules! none { ($p:ty, $q:ty) => { |_: &Image<$p>, _: &F, _: bool, _: &mut Vec<(Image<$q>, usize)>| {} } }
maps!(map11, Luma<u8>, 1, Luma<u8>, 1, |v: Vec<u8>| Luma([v[0]]), same!(Luma<u8>, |v: Vec<u8>| Luma([v[0]])));
maps!(map33, Rgb<u8>, 3, Rgb<u8>, 3, |v: Vec<u8>| Rgb([v[0], v[1], v[2]]), same!(Rgb<u8>, |v: Vec<u8>| Rgb([v[0], v[1], v[2]])));
maps!(map44, Rgba<u8>, 4, Rgba<u8>, 4, |v: Vec<u8>| Rgba([v[0], v[1], v[2], v[3]]), same!(Rgba<u8>, |v: Vec<u8>| Rgba([v[0], v[1], v[2], v[3]])));
maps!(map31, Rgb<u8>, 3, Luma<u8>, 1, |v: Vec<u8>| Luma([v[0]]), none!(Rgb<u8>, Luma<u8>));
maps!(map13, Luma<u8>, 1, Rgb<u8>, 3, |v: Vec<u8>| Rgb([v[0], v[1], v[2]]), none!(Luma<u8>, Rgb<u8>));
maps!(map24, LumaA<u8>, 2, Rgba<u8>, 4, |v: Vec<u8>| Rgba([v[0], v[1], v[2], v[3]]), none!(LumaA<u8>, Rgba<u8>));
macro_rules! subs { ($n:ident, $p:ty, $p16:ty) => {
fn $n(r: &mut Rec, w: u32, h: u32) {
    let im: Image<$p> = r.img(w, h);
    let f = coefs(r, 1, false, 256);
    let f1 = f.clone();
    r.run(ev("map_sub").a("im", &im).a("f", &f1), || {
        let g = |s: u8| ((f.k + f.a[0] * s as i64) % 256) as u8;
        let mut outs: Vec<(Image<$p>, usize)> = vec![];
        let c = Cnt::new();
        outs.push((map_subpixels(&im, |s| { c.hit(); g(s) }), c.get()));
        let c = Cnt::new();
        let mut o = im.clone();
        map_subpixels_mut(&mut o, |s| { c.hit(); g(s) });
        outs.push((o, c.get()));
        outs.extend(pools(|| { let c = Cnt::new(); let o = map_subpixels_parallel(&im, |s| { c.hit(); g(s) }); (o, c.get()) }));
        outs.extend(pools(|| { let c = Cnt::new(); let mut o = im.clone(); map_subpixels_mut_parallel(&mut o, |s| { c.hit(); g(s) }); (o, c.get()) }));
        outs
    });
    let f = coefs(r, 1, false, 65536);
    r.run(ev("map_sub").a("im", &im).a("f", &f), || {
        let g = |s: u8| ((f.k + f.a[0] * s as i64) % 65536) as u16;
        let mut outs: Vec<(Image<$p16>, usize)> = vec![];
        let c = Cnt::new();
        outs.push((map_subpixels(&im, |s| { c.hit(); g(s) }), c.get()));
        outs.extend(pools(|| { let c = Cnt::new(); let o = map_subpixels_parallel(&im, |s| { c.hit(); g(s) }); (o, c.get()) }));
        outs
    });
} } }
subs!(sub1, Luma<u8>, Luma<u16>);
subs!(sub2, LumaA<u8>, LumaA<u16>);
subs!(sub3, Rgb<u8>, Rgb<u16>);
subs!(sub4, Rgba<u8>, Rgba<u16>);
fn map2(r: &mut Rec, a: &RgbImage, b: &RgbImage) {
    let f = coefs(r, 2, false, 256);
    r.run(ev("map2").a("a", a).a("b", b).a("f", &f), || {
        let c = Cnt::new();
        let o = map_pixels2(a, b, |p: Rgb<u8>, q: Rgb<u8>| { c.hit(); Rgb([0, 1, 2].map(|k: usize| ((f.k + f.a[0] * p[k] as i64 + f.a[1] * q[k] as i64) % 256) as u8)) });
        (o, c.get())
    });
}
/// Maps on a large image; its far corner is what the event shows, and only calls there are counted.
fn map_far(r: &mut Rec) {
    for (dx, dy) in FAR {
        let (w, h) = (r.dim(3, 12), r.dim(3, 12));
        let im: RgbImage = r.img(w, h);
        let big = far(&im, Rgb([1, 2, 3]), dx, dy);
        let f = coefs(r, 3, true, 256);
        r.run(ev("map").a("im", &im).a("f", &f).a("c", &3).a("calls", &1), || {
            let go = |x: u32, y: u32, p: Rgb<u8>, c: &Cnt| if x < dx || y < dy { p } else { c.hit(); Rgb([0, 1, 2].map(|k| ((f.at(&p.0, x - dx, y - dy) + k) % f.m) as u8)) };
            let run = |n: usize| -> (RgbImage, usize) {
                let c = Cnt::new();
                let mut m = big.clone();
                let o = match n {
                    0 => map_enumerated_pixels(&big, |x, y, p| go(x, y, p, &c)),
                    1 => map_enumerated_pixels_parallel(&big, |x, y, p| go(x, y, p, &c)),
                    2 => { map_enumerated_pixels_mut(&mut m, |x, y, p| go(x, y, p, &c)); m }
                    _ => { map_enumerated_pixels_mut_parallel(&mut m, |x, y, p| go(x, y, p, &c)); m }
                };
                (cut_only(&o, Rgb([1, 2, 3]), dx, dy, w, h), c.get())
            };
            let mut v = vec![run(0), run(2)];
            v.extend(pools(|| run(1)));
            v.extend(pools(|| run(3)));
            v
        });
        // maps that do not see the coordinates: the rest of the image becomes the image of its colour
        let f = coefs(r, 1, false, 256);
        let g = |s: u8| ((f.k + f.a[0] * s as i64) % 256) as u8;
        let gp = |p: Rgb<u8>| Rgb([g(p[0]), g(p[1]), g(p[2])]);
        let bg = gp(Rgb([1, 2, 3]));
        let rest = (big.width() * big.height() - w * h) as usize;
        r.run(ev("map_sub").a("im", &im).a("f", &f), || {
            let run = |n: usize| -> (RgbImage, i64) {
                let c = Cnt::new();
                let mut m = big.clone();
                let o = match n {
                    0 => map_subpixels(&big, |s| { c.hit(); g(s) }),
                    1 => map_subpixels_parallel(&big, |s| { c.hit(); g(s) }),
                    2 => { map_subpixels_mut(&mut m, |s| { c.hit(); g(s) }); m }
                    3 => { map_subpixels_mut_parallel(&mut m, |s| { c.hit(); g(s) }); m }
                    4 => map_pixels(&big, |p| { c.hit(); gp(p) }),
                    5 => map_pixels_parallel(&big, |p| { c.hit(); gp(p) }),
                    6 => { map_pixels_mut(&mut m, |p| { c.hit(); gp(p) }); m }
                    7 => { map_pixels_mut_parallel(&mut m, |p| { c.hit(); gp(p) }); m }
                    _ => map_pixels2(&big, &big, |p, _| { c.hit(); gp(p) }),
                };
                // a call for a pixel counts for its three samples
                let k = if n < 4 { 1 } else { 3 };
                (cut_only(&o, bg, dx, dy, w, h), (c.get() * k) as i64 - 3 * rest as i64)
            };
            (0..9).map(run).collect::<Vec<_>>()
        });
        r.run(ev("channel_into").a("im", &im).a("k", &2), || cut_only(&into_blue_channel(&big), Luma([3]), dx, dy, w, h));
        r.run(ev("channel_into").a("im", &im).a("k", &0), || cut_only(&into_red_channel(&big), Luma([1]), dx, dy, w, h));
        r.run(ev("channel_into").a("im", &im).a("k", &1), || cut_only(&into_green_channel(&big), Luma([2]), dx, dy, w, h));
    }
}
fn c37(r: &mut Rec) {
    map_far(r);
    let sizes: Vec<(u32, u32)> = (0..=4).flat_map(|w| (0..=4).map(move |h| (w, h))).collect();
    for &(w, h) in &sizes {
        for _ in 0..r.t(1, 6) {
            map11(r, w, h); map33(r, w, h); map44(r, w, h); map31(r, w, h); map13(r, w, h); map24(r, w, h);
            sub1(r, w, h); sub2(r, w, h); sub3(r, w, h); sub4(r, w, h);
        }
        let im: RgbImage = r.img(w, h);
        r.run(ev("channel_into").a("im", &im).a("k", &0), || into_red_channel(&im));
        r.run(ev("channel_into").a("im", &im).a("k", &1), || into_green_channel(&im));
        r.run(ev("channel_into").a("im", &im).a("k", &2), || into_blue_channel(&im));
        let im: GrayImage = r.img(w, h);
        r.run(ev("channel_from").a("im", &im).a("k", &0), || from_red_channel(&im));
        r.run(ev("channel_from").a("im", &im).a("k", &1), || from_green_channel(&im));
        r.run(ev("channel_from").a("im", &im).a("k", &2), || from_blue_channel(&im));
        for &(u, v) in &sizes { let a: RgbImage = r.img(w, h); let b: RgbImage = r.img(u, v); map2(r, &a, &b) }
    }
    for _ in 0..r.t(12, 150) {
        let (w, h) = (r.dim(5, 30), r.dim(5, 30));
        map11(r, w, h); map33(r, w, h); map44(r, w, h); map31(r, w, h); map13(r, w, h); map24(r, w, h); sub3(r, w, h);
        let a: RgbImage = r.img(w, h); let b: RgbImage = r.img(w, h); map2(r, &a, &b);
    }
    for (w, h) in [(300, 2), (2, 300), (1100, 1), (1, 1100), (530, 3), (3, 530), (70, 60)] { map11(r, w, h); map31(r, w, h); sub1(r, w, h) }
}

// ---- C38
fn grid(lo: i64, hi: i64) -> Vec<i64> {
    let mut v = vec![];
    for c in [lo, -1, 0, 1, hi / 2, hi, 127, 128, 255, 256, 32767, 32768, 65535, 65536, -32768, -32769, -255, -256] { for d in -2..=2 { v.push(c + d) } }
    v
}
macro_rules! cl { ($r:expr, $f:ty, $t:ty, $lo:expr, $hi:expr) => {{
    let (mn, mx) = (<$f>::MIN as i128, <$f>::MAX as i128);
    let mut vs: Vec<i64> = grid($lo, $hi).into_iter().filter(|&v| (v as i128) >= mn && (v as i128) <= mx).collect();
    vs.push(mn.max(-2147483647) as i64); vs.push(mx.min(2147483647) as i64);
    for _ in 0..$r.t(60, 600) { let b = $r.pick(&[300i64, 70000, 2000000000]); let v = $r.range(-b, b); if (v as i128) >= mn && (v as i128) <= mx { vs.push(v) } }
    $r.run(ev("clamp").a("from", stringify!($f)).a("to", stringify!($t)).a("u", &1).a("lo", &$lo).a("hi", &$hi).a("vs", &vs), || vs.iter().map(|&v| <$t as Clamp<$f>>::clamp(v as $f)).collect::<Vec<_>>());
    // beyond the specification's integers: shown as its largest
    let big: Vec<$f> = [1u64 << 31, (1 << 31) + 1, 3000000000, (1 << 32) - 256, (1 << 32) - 1].iter().filter(|&&v| (v as i128) <= mx).map(|&v| v as $f).collect();
    if !big.is_empty() {
        let vs = vec![2147483647i64; big.len()];
        $r.run(ev("clamp").a("from", stringify!($f)).a("to", stringify!($t)).a("u", &1).a("lo", &$lo).a("hi", &$hi).a("vs", &vs), || big.iter().map(|&v| <$t as Clamp<$f>>::clamp(v)).collect::<Vec<_>>());
    }
}} }
macro_rules! clf { ($r:expr, $f:ty, $t:ty, $hi:expr) => {{
    // values in units of 1/8
    let mut vs: Vec<i64> = vec![];
    for v in grid(0, $hi) { for d in [-8, -7, -4, -1, 0, 1, 4, 7] { vs.push(v * 8 + d) } }
    for _ in 0..$r.t(60, 600) { let b = $r.pick(&[2400i64, 600000, 16000000]); vs.push($r.range(-b, b)) }
    $r.run(ev("clamp").a("from", stringify!($f)).a("to", stringify!($t)).a("u", &8).a("lo", &0).a("hi", &$hi).a("vs", &vs), || vs.iter().map(|&v| <$t as Clamp<$f>>::clamp(v as $f / 8.0)).collect::<Vec<_>>());
    // beyond every integer
    let vs = [-2000000000i64, 2000000000];
    $r.run(ev("clamp").a("from", "inf").a("to", stringify!($t)).a("u", &1).a("lo", &0).a("hi", &$hi).a("vs", &vs), || vec![<$t as Clamp<$f>>::clamp(<$f>::NEG_INFINITY), <$t as Clamp<$f>>::clamp(<$f>::INFINITY)]);
    $r.run(ev("clamp").a("from", "max").a("to", stringify!($t)).a("u", &1).a("lo", &0).a("hi", &$hi).a("vs", &vs), || vec![<$t as Clamp<$f>>::clamp(<$f>::MIN), <$t as Clamp<$f>>::clamp(<$f>::MAX)]);
}} }
macro_rules! ident { ($r:expr, $($t:ty),*) => { $( {
    let (mn, mx) = (<$t>::MIN as i128, <$t>::MAX as i128);
    let vs: Vec<i64> = grid(0, 0).into_iter().filter(|&v| (v as i128) >= mn && (v as i128) <= mx).collect();
    $r.run(ev("clamp").a("from", stringify!($t)).a("to", "same").a("u", &1).a("lo", &-2147483647).a("hi", &2147483647).a("vs", &vs), || vs.iter().map(|&v| <$t as Clamp<$t>>::clamp(v as $t) as i64).collect::<Vec<_>>());
} )* } }
fn c38(r: &mut Rec) {
    cl!(r, i16, u8, 0, 255);
    cl!(r, u16, u8, 0, 255);
    cl!(r, i32, u8, 0, 255);
    cl!(r, u32, u8, 0, 255);
    cl!(r, i32, u16, 0, 65535);
    cl!(r, i32, i16, -32768, 32767);
    clf!(r, f32, u8, 255);
    clf!(r, f64, u8, 255);
    clf!(r, f32, u16, 65535);
    clf!(r, f64, u16, 65535);
    ident!(r, u8, i8, u16, i16, u32, i32, u64, i64, f32, f64);
    for _ in 0..r.t(800, 10000) {
        let l: Vec<u8> = r.samples(4, 255).into_iter().map(|v| v as u8).collect();
        let q: Vec<u8> = r.samples(4, 255).into_iter().map(|v| v as u8).collect();
        let b = r.pick(&[64i64, 64, 200, 6400]);
        let (lw, rw) = (r.range(-b, b), r.range(-b, b));
        let (lf, rf) = (lw as f32 / 64.0, rw as f32 / 64.0);
        let lw01 = r.range(0, 64);
        match r.range(0, 3) {
            0 => {
                let (a, c) = (Rgba([l[0], l[1], l[2], l[3]]), Rgba([q[0], q[1], q[2], q[3]]));
                r.run(ev("wsum").a("l", &l).a("r", &q).a("lw", &lw).a("rw", &rw).a("hi", &255), || weighted_sum(a, c, lf, rf).0);
                r.run(ev("interp").a("l", &l).a("r", &q).a("lw", &lw).a("hi", &255), || interpolate(a, c, lf).0);
            }
            1 => {
                let (a, c) = (Rgb([l[0], l[1], l[2]]), Rgb([q[0], q[1], q[2]]));
                r.run(ev("wsum").a("l", &l[..3]).a("r", &q[..3]).a("lw", &lw).a("rw", &rw).a("hi", &255), || weighted_sum(a, c, lf, rf).0);
                r.run(ev("interp").a("l", &l[..3]).a("r", &q[..3]).a("lw", &lw01).a("hi", &255), || interpolate(a, c, lw01 as f32 / 64.0).0);
            }
            2 => {
                let l: Vec<u16> = r.samples(2, 65535).into_iter().map(|v| v as u16).collect();
                let q: Vec<u16> = r.samples(2, 65535).into_iter().map(|v| v as u16).collect();
                let (lw, rw) = (lw % 128, rw % 128);
                r.run(ev("wsum").a("l", &l).a("r", &q).a("lw", &lw).a("rw", &rw).a("hi", &65535), || weighted_sum(LumaA([l[0], l[1]]), LumaA([q[0], q[1]]), lw as f32 / 64.0, rw as f32 / 64.0).0);
                r.run(ev("interp").a("l", &l).a("r", &q).a("lw", &lw01).a("hi", &65535), || interpolate(LumaA([l[0], l[1]]), LumaA([q[0], q[1]]), lw01 as f32 / 64.0).0);
            }
            _ => {
                r.run(ev("wsum").a("l", &l[..1]).a("r", &q[..1]).a("lw", &lw).a("rw", &rw).a("hi", &255), || weighted_sum(Luma([l[0]]), Luma([q[0]]), lf, rf).0);
                r.run(ev("interp").a("l", &l[..1]).a("r", &q[..1]).a("lw", &lw01).a("hi", &255), || interpolate(Luma([l[0]]), Luma([q[0]]), lw01 as f32 / 64.0).0);
            }
        }
    }
}

// ---- C39
type Comps = Vec<(i64, i64, i64)>;
fn comps(r: &mut Rec, dense: bool) -> Comps {
    loop {
        let n = if dense { r.range(24, 40) } else { r.range(1, 20) };
        let mut v: Comps = vec![];
        for _ in 0..n {
            let hi = if dense { 8 } else { 9 };
            let c = (r.range(if dense { 1 } else { 0 }, hi), r.range(if dense { 1 } else { 0 }, hi), if dense { r.range(3, 5) } else { r.range(-5, 9) });
            if c.2 != 0 && !v.iter().any(|d| d.0 == c.0 && d.1 == c.1) { v.push(c) }
        }
        let tot: i64 = v.iter().filter(|c| (1..=8).contains(&c.0) && (1..=8).contains(&c.1)).map(|c| c.2).sum();
        let margin = if dense { 40 } else { 1 };
        let ok = tot.abs() >= margin && v.iter().all(|c| (64 * c.2 - tot).abs() >= margin);
        if ok { return v }
    }
}
fn synth(cs: &Comps, w: u32, h: u32, gain: f64, base: f64) -> Image<Luma<f32>> {
    ImageBuffer::from_fn(w, h, |x, y| {
        let mut s = base;
        for c in cs {
            let f = |p: u32, n: u32, k: i64| ((2 * p + 1) as f64 * k as f64 * std::f64::consts::PI / (2 * n) as f64).cos();
            s += gain * c.2 as f64 * f(x, w, c.0) * f(y, h, c.1);
        }
        Luma([s as f32])
    })
}
fn hash_of(p: &impl Hash) -> u64 { let mut h = std::collections::hash_map::DefaultHasher::new(); p.hash(&mut h); h.finish() }
fn c39(r: &mut Rec) {
    let one = |r: &mut Rec, a: &Comps, b: &Comps, s: (u32, u32), t: (u32, u32), ga: f64, gb: f64, base: f64| {
        r.run(ev("phash").a("a", a).a("b", b).a("s", &s).a("t", &t), || {
            let (p, q) = (phash(&synth(a, s.0, s.1, ga, 0.0)), phash(&synth(b, t.0, t.1, gb, base)));
            (p.hamming_distance(q), p == q, hash_of(&p) == hash_of(&q))
        });
    };
    // a black image: no coefficient exceeds the mean
    one(r, &vec![], &vec![(3, 5, 1)], (32, 32), (32, 32), 1.0, 1.0, 0.0);
    one(r, &vec![], &vec![(8, 8, 2), (1, 1, 5)], (64, 32), (32, 32), 1.0, 1.0, 0.0);
    // one component at every frequency against every other
    for u in 0..=9i64 { for v in 0..=9i64 {
        if u == 0 && v == 0 || (u == 0 || v == 0 || u == 9 || v == 9) { continue }
        let (x, y) = (r.range(1, 8), r.range(1, 8));
        one(r, &vec![(u, v, 1)], &vec![(x, y, 2)], (32, 32), (32, 32), 1.0, 0.1, 0.0);
        let o = r.pick(&[(0i64, v), (u, 0), (9, v), (u, 9), (0, 0)]);
        one(r, &vec![(u, v, 1)], &vec![(u, v, 1), (o.0, o.1, 7)], (32, 32), (32, 32), 1.0, 1.0, 0.0);
    } }
    for _ in 0..r.t(300, 4000) {
        let a = comps(r, false);
        let b = if r.range(0, 4) == 0 { a.clone() } else { comps(r, false) };
        let (g, base) = r.pick(&[(1.0, 0.0), (0.25, 0.5), (100.0, 0.0), (3.0, 40.0)]);
        one(r, &a, &b, (32, 32), (32, 32), 1.0, g, base);
    }
    // many equal coefficients, one or two a little off: the mean lies right beside them
    for _ in 0..r.t(40, 400) {
        let mut near = || {
            let c = r.range(2, 20);
            let mut v: Comps = (0..64).map(|i| (1 + i % 8, 1 + i / 8, c)).collect();
            let d = r.pick(&[1i64, -1]);
            for _ in 0..r.range(1, 2) { let k = r.range(0, 63) as usize; v[k].2 = c + d }
            v
        };
        let (a, b) = (near(), near());
        one(r, &a, &b, (32, 32), (32, 32), 1.0, 1.0, 0.0);
        one(r, &a, &vec![(3, 5, 1)], (32, 32), (32, 32), 1.0, 1.0, 0.0);
    }
    // an image against its negative: all bits differ, or all but a few
    for _ in 0..r.t(40, 400) {
        let full = |r: &mut Rec| loop {
            let hi = r.pick(&[1i64, 2, 4, 9]);
            let v: Comps = (0..64).map(|i| { let s = r.pick(&[1i64, -1]); (1 + i % 8, 1 + i / 8, s * r.range(1, hi)) }).collect();
            let tot: i64 = v.iter().map(|c| c.2).sum();
            if v.iter().all(|c| (64 * c.2 - tot).abs() >= 8) { return v }
        };
        let a = full(r);
        let mut b: Comps = a.iter().map(|c| (c.0, c.1, -c.2)).collect();
        one(r, &a, &b, (32, 32), (32, 32), 1.0, 1.0, 0.0);
        for _ in 0..r.range(1, 3) { let k = r.range(0, 63) as usize; b[k].2 = a[k].2 }
        let tot: i64 = b.iter().map(|c| c.2).sum();
        if b.iter().all(|c| (64 * c.2 - tot).abs() >= 8) { one(r, &a, &b, (32, 32), (32, 32), 1.0, 1.0, 0.0); }
    }
    for _ in 0..r.t(60, 600) {
        let (a, b) = (comps(r, true), comps(r, true));
        let s = r.pick(&[(64u32, 64u32), (32, 64), (64, 32), (96, 64), (32, 32), (50, 100)]);
        let t = r.pick(&[(64u32, 64u32), (32, 64), (32, 32), (128, 40)]);
        one(r, &a, &b, s, t, 1.0, 1.0, 0.0);
    }
    for _ in 0..r.t(60, 600) {
        let ims: Vec<Image<Luma<f32>>> = (0..3).map(|_| { let (w, h) = (r.dim(1, 40), r.dim(1, 40)); let g: GrayImage = r.img(w, h); map_pixels(&g, |p| Luma([p[0] as f32])) }).collect();
        r.run(ev("phash_metric").a("n", &r.n), || {
            let hs: Vec<_> = ims.iter().map(phash).collect();
            let again: Vec<_> = pools(|| ims.iter().map(phash).collect::<Vec<_>>()).pop().unwrap();
            let d: Vec<Vec<u32>> = hs.iter().map(|a| hs.iter().map(|b| a.hamming_distance(*b)).collect()).collect();
            let e: Vec<Vec<bool>> = hs.iter().map(|a| hs.iter().map(|b| a == b).collect()).collect();
            (d, e, hs == again)
        });
    }
}

// ---- C40
fn hog_ev(op: &str, w: u32, h: u32, o: &HogOptions) -> Ev {
    ev(op).a("w", &w).a("h", &h).a("n", &o.orientations).a("signed", &o.signed).a("cell", &o.cell_side).a("block", &o.block_side).a("stride", &o.block_stride)
}
fn c40(r: &mut Rec) {
    let top = r.t(7, 10) as u32;
    for w in 0..=top { for h in 0..=top { for cell in 1..=3 { for block in 1..=4 { for stride in 1..=3 {
        if !r.thorough && (w + h + cell as u32 * 3 + block as u32 + stride as u32) % 3 != 0 { continue }
        let o = HogOptions::new(2, true, cell, block, stride);
        r.run(hog_ev("hogspec", w, h, &o), || match HogSpec::from_options(w, h, o) {
            Ok(s) => (vec![s.descriptor_length()], false, false),
            Err(m) => (vec![], m.contains("width") || m.contains("wide"), m.contains("height") || m.contains("high")),
        });
    } } } } }
    for _ in 0..r.t(150, 2000) {
        let (cell, block) = (r.range(1, 4) as usize, r.range(1, 3) as usize);
        let stride = r.range(1, 3) as usize;
        let o = HogOptions::new(r.range(1, 9) as usize, r.range(0, 1) == 0, cell, block, stride);
        let (mut cw, mut ch) = (block + stride * r.range(0, 2) as usize, block + stride * r.range(0, 2) as usize);
        if r.range(0, 9) == 0 { cw += 1 }
        if r.range(0, 9) == 0 { ch += 1 }
        let (mut w, h) = ((cw * cell) as u32, (ch * cell) as u32);
        if w * h > 400 { continue }
        if r.range(0, 19) == 0 { w += 1 }
        let im: GrayImage = if r.range(0, 3) == 0 { let (a, b) = (r.range(0, 9), r.range(0, 9)); GrayImage::from_fn(w, h, |x, y| Luma([((a * x as i64 + b * y as i64) % 256) as u8])) } else { r.img(w, h) };
        r.run(hog_ev("hog", w, h, &o).a("im", &im), || hog(&im, o).ok().map(|v| v.iter().map(|&x| fr(x as f64, 10000.0)).collect::<Vec<_>>()));
    }
    for _ in 0..r.t(60, 600) {
        let cell = r.range(2, 5) as usize;
        let (cw, ch) = (r.dim(1, 4), r.dim(1, 4));
        // bin directions at whole degrees
        let o = HogOptions::new(r.pick(&[1usize, 2, 3, 4, 5, 6]), r.range(0, 1) == 0, cell, 1, 1);
        let o = if o.signed && r.range(0, 2) == 0 { HogOptions::new(8, true, cell, 1, 1) } else { o };
        let (w, h) = (cw * cell as u32, ch * cell as u32);
        // flat except for one spot
        let mut im = GrayImage::from_pixel(w, h, Luma([r.range(0, 200) as u8]));
        for _ in 0..r.range(0, 2) { let (x, y) = (r.dim(0, w as i64 - 1), r.dim(0, h as i64 - 1)); im.put_pixel(x, y, Luma([255])) }
        let star = r.pick(&[1u32, 2, 5, 8, 9, 15, 20, 21]);
        r.run(hog_ev("stars", w, h, &o).a("im", &im).a("star", &star), || {
            let spec = HogSpec::from_options(w, h, o).unwrap();
            let mut g = cell_histograms(&im, spec);
            render_hist_grid(star, &g.view_mut(), o.signed)
        });
    }
}
// ---- C46
fn bw<P: Pixel + imageproc::definitions::HasBlack + imageproc::definitions::HasWhite>(r: &mut Rec, max: i64) where P::Subpixel: J {
    r.run(ev("bw").a("c", &P::CHANNEL_COUNT).a("max", &max), || (P::black().channels().to_vec(), P::white().channels().to_vec()));
}
fn diffs<P: Pixel<Subpixel = u8> + PartialEq + std::fmt::Debug>(r: &mut Rec, a: &Image<P>, b: &Image<P>, tol: u8) {
    use imageproc::utils::*;
    use imageproc::{assert_dimensions_match, assert_pixels_eq, assert_pixels_eq_within};
    r.run(ev("diffs").a("a", a).a("b", b).a("tol", &tol), || {
        let far = |p: &P, q: &P| p.channels().iter().zip(q.channels()).any(|(&s, &t)| s.abs_diff(t) > tol);
        let list = |d: Vec<Diff<P>>| d.iter().map(|d| (d.x, d.y, d.actual.channels().to_vec(), d.expected.channels().to_vec())).collect::<Vec<_>>();
        let same = a.dimensions() == b.dimensions();
        let (l0, l1) = if same { (list(pixel_diffs(a, b, |p, q| p.2 != q.2)), list(pixel_diffs(a, b, |p, q| far(&p.2, &q.2)))) } else { (vec![], vec![]) };
        let s0 = pixel_diff_summary(a, b).is_none();
        let s1 = significant_pixel_diff_summary(a, b, |p, q| far(&p.2, &q.2)).is_none();
        let x0 = catch(|| assert_pixels_eq!(*a, *b)).is_some();
        let x1 = catch(|| assert_pixels_eq_within!(*a, *b, tol)).is_some();
        let x2 = catch(|| assert_dimensions_match!(*a, *b)).is_some();
        Raw(format!("[{},{},{},{},{},{},{}]", js(&l0), js(&l1), s0, s1, x0, x1, x2))
    });
}
fn c46(r: &mut Rec) {
    use imageproc::kernel::*;
    bw::<Luma<u8>>(r, 255); bw::<LumaA<u8>>(r, 255); bw::<Rgb<u8>>(r, 255); bw::<Rgba<u8>>(r, 255);
    bw::<Luma<u16>>(r, 65535); bw::<LumaA<u16>>(r, 65535); bw::<Rgb<u16>>(r, 65535); bw::<Rgba<u16>>(r, 65535);
    fn kc<K: J + Copy>(r: &mut Rec, name: &str, k: Kernel<'static, K>, w: u32, h: u32) {
        r.run(ev("kconst").a("name", name), || (w, h, (0..w * h).map(|i| k.get(i % w, i / w)).collect::<Vec<_>>()));
    }
    kc(r, "sobel_h", SOBEL_HORIZONTAL_3X3, 3, 3); kc(r, "sobel_v", SOBEL_VERTICAL_3X3, 3, 3);
    kc(r, "scharr_h", SCHARR_HORIZONTAL_3X3, 3, 3); kc(r, "scharr_v", SCHARR_VERTICAL_3X3, 3, 3);
    kc(r, "prewitt_h", PREWITT_HORIZONTAL_3X3, 3, 3); kc(r, "prewitt_v", PREWITT_VERTICAL_3X3, 3, 3);
    kc(r, "roberts_h", ROBERTS_HORIZONTAL_2X2, 2, 2); kc(r, "roberts_v", ROBERTS_VERTICAL_2X2, 2, 2);
    kc(r, "lap4", FOUR_LAPLACIAN_3X3, 3, 3); kc(r, "lap8", EIGHT_LAPLACIAN_3X3, 3, 3);
    for w in 0..6u32 { for h in 0..6u32 { for n in [w * h, w * h + 1, (w * h).saturating_sub(1), w + h, 0] {
        let d: Vec<i32> = (0..n as i32).map(|i| i * 3 - 7).collect();
        r.run(ev("kernel").a("w", &w).a("h", &h).a("d", &d), || {
            let k = Kernel::new(&d, w, h);
            let all: Vec<i32> = (0..w * h).map(|i| k.get(i % w, i / w)).collect();
            // in bounds: get above has returned for each of these positions
            let raw: Vec<i32> = (0..w * h).map(|i| unsafe { k.get_unchecked(i % w, i / w) }).collect();
            (all, raw)
        });
        if n == w * h && n > 0 { for (x, y) in [(0, h), (w - 1, h), (w, h - 1), (0, h + 2)] {
            r.run(ev("kernel_get").a("w", &w).a("h", &h).a("d", &d).a("x", &x).a("y", &y), || Kernel::new(&d, w, h).get(x, y));
        } }
    } } }
    for _ in 0..r.t(200, 2000) {
        let v: Vec<i64> = (0..4).map(|_| r.range(-9, 9) * if r.range(0, 2) == 0 { 10_000_000 } else { 1 }).collect();
        let (a, b) = (Point::new(v[0] as i32, v[1] as i32), Point::new(v[2] as i32, v[3] as i32));
        let pt = |p: Point<i32>| (p.x, p.y);
        r.run(ev("point").a("a", &pt(a)).a("b", &pt(b)), || { let (mut s, mut d) = (a, a); s += b; d -= b; (pt(a), pt(a + b), pt(s), pt(a - b), pt(d), a == b) });
        let v: Vec<i64> = (0..r.range(0, 9)).map(|_| r.range(-100, 100)).collect();
        let f: Vec<f32> = v.iter().map(|&x| x as f32).collect();
        r.run(ev("norm").a("v", &v), || (fx(imageproc::math::l1_norm(&f) as f64, 1.0), fr(imageproc::math::l2_norm(&f) as f64, 100.0)));
    }
    for _ in 0..r.t(300, 4000) {
        let (w, h) = (r.dim(0, 12), r.dim(0, 12));
        let tol = r.pick(&[0u8, 1, 2, 10, 255]);
        macro_rules! go { ($p:ty) => {{
            let a: Image<$p> = r.img(w, h);
            let mut b = a.clone();
            if r.range(0, 9) == 0 { let (p, q) = (w + r.range(0, 1) as u32, h + r.range(0, 1) as u32); b = r.img(p, q) } else if w * h > 0 {
                for _ in 0..r.range(0, 3) { let n = b.len(); let i = r.range(0, n as i64 - 1) as usize; let d = r.range(-12, 12) as i32; let v: &mut [u8] = &mut b; v[i] = (v[i] as i32 + d).clamp(0, 255) as u8 }
            }
            diffs(r, &a, &b, tol);
        }} }
        match r.range(0, 2) { 0 => go!(Rgb<u8>), 1 => go!(Rgba<u8>), _ => go!(Luma<u8>) }
    }
    for _ in 0..r.t(20, 100) {
        use imageproc::{gray_image, rgb_image, rgba_image};
        let v: Vec<u8> = (0..24).map(|_| r.range(0, 255) as u8).collect();
        let u: Vec<u16> = v.iter().map(|&x| x as u16 * 257).collect();
        let m = |w: u32, h: u32, c: u32, n: usize| ev("macro").a("w", &w).a("h", &h).a("c", &c).a("v", &v[..n].to_vec());
        r.run(m(0, 0, 1, 0), || gray_image!());
        r.run(m(0, 0, 3, 0), || rgb_image!());
        r.run(m(0, 0, 4, 0), || rgba_image!());
        r.run(m(1, 1, 1, 1), || gray_image!(v[0]));
        r.run(m(3, 1, 1, 3), || gray_image!(v[0], v[1], v[2]));
        r.run(m(1, 3, 1, 3), || gray_image!(v[0]; v[1]; v[2]));
        r.run(m(3, 2, 1, 6), || gray_image!(v[0], v[1], v[2]; v[3], v[4], v[5]));
        r.run(m(2, 1, 3, 6), || rgb_image!([v[0], v[1], v[2]], [v[3], v[4], v[5]]));
        r.run(m(1, 2, 3, 6), || rgb_image!([v[0], v[1], v[2]]; [v[3], v[4], v[5]]));
        r.run(m(2, 2, 3, 12), || rgb_image!([v[0], v[1], v[2]], [v[3], v[4], v[5]]; [v[6], v[7], v[8]], [v[9], v[10], v[11]]));
        r.run(m(2, 1, 4, 8), || rgba_image!([v[0], v[1], v[2], v[3]], [v[4], v[5], v[6], v[7]]));
        r.run(m(1, 3, 4, 12), || rgba_image!([v[0], v[1], v[2], v[3]]; [v[4], v[5], v[6], v[7]]; [v[8], v[9], v[10], v[11]]));
        r.run(ev("macro").a("w", &2).a("h", &2).a("c", &1).a("v", &u[..4].to_vec()), || gray_image!(type: u16, u[0], u[1]; u[2], u[3]));
        r.run(ev("macro").a("w", &1).a("h", &2).a("c", &3).a("v", &u[..6].to_vec()), || rgb_image!(type: u16, [u[0], u[1], u[2]]; [u[3], u[4], u[5]]));
        r.run(ev("macro").a("w", &2).a("h", &1).a("c", &4).a("v", &u[..8].to_vec()), || rgba_image!(type: u16, [u[0], u[1], u[2], u[3]], [u[4], u[5], u[6], u[7]]));
    }
}
/// Picture-like and noisy inputs of a few dozen pixels a side.
fn mid(r: &mut Rec) {
    match r.prop.as_str() {
        "C31" => for i in 0..r.t(24, 150) {
            let (w, h) = (r.dim(16, 46), r.dim(14, 40));
            let s = r.range(2, 5) as u32;
            let im = r.mid(w, h);
            match i % 4 {
                0 => { let g = r.mid(w, h); let c: RgbImage = ImageBuffer::from_fn(w, h, |x, y| { let (p, q) = (im.get_pixel(x, y)[0], g.get_pixel(x, y)[0]); Rgb([p, q, p / 2 + q / 2]) }); carve3(r, &c, s) }
                1 => { let g = r.mid(w, h); let c: RgbaImage = ImageBuffer::from_fn(w, h, |x, y| { let (p, q) = (im.get_pixel(x, y)[0], g.get_pixel(x, y)[0]); Rgba([p, q, 255 - p, q / 2]) }); carve4(r, &c, s) }
                _ => carve1(r, &im, s),
            }
        },
        "C32" => for i in 0..r.t(48, 400) {
            let m = METHODS[i % 4];
            let (w, h) = (r.dim(14, 34), r.dim(14, 34));
            let (tw, th) = (r.dim(3, 12), r.dim(3, 12));
            let masked = r.range(0, 1) == 0;
            let dim = |im: GrayImage| if masked { map_pixels(&im, |p| Luma([p[0] / 7])) } else { im };
            let im = dim(r.mid(w, h));
            let t = if r.range(0, 2) > 0 {
                let (x0, y0) = (r.range(0, (w - tw) as i64) as u32, r.range(0, (h - th) as i64) as u32);
                cut(&im, x0, y0, tw, th)
            } else { dim(r.mid(tw, th)) };
            if !masked { tm(r, &im, &t, None, 1, m); continue }
            let (ms, mx) = r.pick(&[(1i64, 1i64), (1, 4), (255, 1), (51, 5), (3, 2)]);
            let k = if r.range(0, 1) == 0 {
                // a disc
                let (cx, cy) = (tw as i64 - 1, th as i64 - 1);
                GrayImage::from_fn(tw, th, |x, y| { let (dx, dy) = (2 * x as i64 - cx, 2 * y as i64 - cy); Luma([if dx * dx + dy * dy <= cx.max(cy) * cx.max(cy) { mx as u8 } else { 0 }]) })
            } else { GrayImage::from_raw(tw, th, r.samples((tw * th) as usize, mx).into_iter().map(|v| v.min(mx) as u8).collect()).unwrap() };
            tm(r, &im, &t, Some(k), ms, m);
        },
        "C36" => for _ in 0..r.t(10, 80) {
            let n = r.range(60, 250);
            let m = r.pick(&[15i64, 60, 300]);
            let v: Vec<Pt> = (0..n).map(|_| (r.range(-m, m) as i32, r.range(-m, m) as i32)).collect();
            hull(r, &v, 1, (3, 5));
            // a contour: the outline of a star of random radii
            let k = r.range(30, 120) as usize;
            let c: Vec<Pt> = (0..k).map(|i| { let t = i as f64 * std::f64::consts::TAU / k as f64; let q = r.range(10, 40) as f64; ((q * t.cos()).round() as i32, (q * t.sin()).round() as i32) }).collect();
            for e in [1, 8, 30] { dp(r, &c, e) }
            arc(r, &c);
            area(r, &c);
            hull(r, &c, 1, (0, 0));
            let v: Vec<Pt> = (0..r.range(20, 60)).map(|_| (r.range(-9, 9) as i32, r.range(-9, 9) as i32)).collect();
            rect(r, &v);
        },
        "C37" => for _ in 0..r.t(6, 40) {
            let (w, h) = (r.dim(30, 70), r.dim(20, 60));
            map44(r, w, h); map24(r, w, h); sub2(r, w, h); sub4(r, w, h);
            let im: RgbImage = r.img(w, h);
            r.run(ev("channel_into").a("im", &im).a("k", &0), || into_red_channel(&im));
            r.run(ev("channel_into").a("im", &im).a("k", &1), || into_green_channel(&im));
            r.run(ev("channel_into").a("im", &im).a("k", &2), || into_blue_channel(&im));
            let g = r.mid(w, h);
            r.run(ev("channel_from").a("im", &g).a("k", &0), || from_red_channel(&g));
            r.run(ev("channel_from").a("im", &g).a("k", &1), || from_green_channel(&g));
            r.run(ev("channel_from").a("im", &g).a("k", &2), || from_blue_channel(&g));
            let (u, v) = ((w as i64 + r.range(-8, 8)) as u32, (h as i64 + r.range(-8, 8)) as u32);
            let b: RgbImage = r.img(u, v);
            map2(r, &im, &b);
        },
        "C40" => {
            for _ in 0..r.t(30, 200) {
                let (cell, block, stride) = (r.range(4, 8) as usize, r.range(1, 3) as usize, r.range(1, 2) as usize);
                let o = HogOptions::new(r.range(4, 9) as usize, r.range(0, 1) == 0, cell, block, stride);
                let (cw, ch) = (block + stride * r.range(0, 3) as usize, block + stride * r.range(0, 3) as usize);
                let (w, h) = ((cw * cell) as u32, (ch * cell) as u32);
                if w * h > 1300 { continue }
                let im = r.mid(w, h);
                r.run(hog_ev("hog", w, h, &o).a("im", &im), || hog(&im, o).ok().map(|v| v.iter().map(|&x| fr(x as f64, 10000.0)).collect::<Vec<_>>()));
            }
            // specifications of any size
            for _ in 0..r.t(400, 3000) {
                let (cell, block, stride) = (r.range(1, 40) as usize, r.range(1, 6) as usize, r.range(1, 5) as usize);
                let o = HogOptions::new(r.range(1, 40) as usize, r.range(0, 1) == 0, cell, block, stride);
                let side = |r: &mut Rec| (cell as i64 * (block as i64 + stride as i64 * r.range(0, 12) + r.pick(&[0i64, 0, 0, 0, 1, -1])) + r.pick(&[0i64, 0, 0, 0, 0, 1, -1])).max(0) as u32;
                let (w, h) = (side(r), side(r));
                r.run(hog_ev("hogspec", w, h, &o), || match HogSpec::from_options(w, h, o) {
                    Ok(s) => (vec![s.descriptor_length()], false, false),
                    Err(m) => (vec![], m.contains("width") || m.contains("wide"), m.contains("height") || m.contains("high")),
                });
            }
        }
        "C46" => for _ in 0..r.t(30, 200) {
            let (w, h) = (r.dim(13, 70), r.dim(13, 60));
            let tol = r.pick(&[0u8, 1, 2, 10, 254, 255]);
            let a: RgbImage = r.img(w, h);
            let mut b = a.clone();
            for _ in 0..r.range(0, 40) { let n = b.len(); let i = r.range(0, n as i64 - 1) as usize; let d = r.range(-255, 255) as i32 / r.pick(&[1, 1, 20, 100]); let v: &mut [u8] = &mut b; v[i] = (v[i] as i32 + d).clamp(0, 255) as u8 }
            diffs(r, &a, &b, tol);
            let a = r.mid(w, h);
            let b = if r.range(0, 1) == 0 { a.clone() } else { r.mid(w, h) };
            diffs(r, &a, &b, tol);
        },
        _ => {}
    }
}
fn main() {
    let mut r = Rec::start();
    mid(&mut r);
    match r.prop.as_str() { "C31" => c31(&mut r), "C32" => c32(&mut r), "C36" => c36(&mut r), "C37" => c37(&mut r), "C38" => c38(&mut r), "C39" => c39(&mut r), "C46" => c46(&mut r), _ => c40(&mut r) }
    r.finish();
}
