use image::{GrayImage, Luma, Rgb, RgbImage};
use imageproc::binary_descriptors::brief::*;
use imageproc::binary_descriptors::*;
use imageproc::corners::*;
use imageproc::definitions::{Position, Score};
use imageproc::haar::*;
use imageproc::hough::*;
use imageproc::integral_image::integral_image;
use imageproc::local_binary_patterns::*;
use imageproc::point::Point;
use imageproc::suppress::*;
use vh::image::ImageBuffer;
use vh::*;

#[derive(Copy, Clone)]
struct P(u32, u32, f32);
impl Position for P {
    fn x(&self) -> u32 { self.0 }
    fn y(&self) -> u32 { self.1 }
}
impl Score for P { fn score(&self) -> f32 { self.2 } }

fn sup(r: &mut Rec, im: &GrayImage, k: u32) { r.run(ev("suppress").a("im", im).a("r", &k), || suppress_non_maximum(im, k)); }
fn locmax(r: &mut Rec, ps: &[(u32, u32, i32)], k: u32) {
    r.run(ev("localmax").a("ps", ps).a("r", &k), || {
        let v: Vec<P> = ps.iter().map(|p| P(p.0, p.1, p.2 as f32)).collect();
        local_maxima(&v, k).iter().map(|p| (p.0, p.1, p.2 as i32)).collect::<Vec<_>>()
    });
    // the same order with neighbouring floating-point scores
    r.run(ev("localmax").a("ps", ps).a("r", &k), || {
        let v: Vec<P> = ps.iter().map(|p| P(p.0, p.1, f32::from_bits((0x3f80_0000 + p.2) as u32))).collect();
        local_maxima(&v, k).iter().map(|p| (p.0, p.1, p.2.to_bits() as i32 - 0x3f80_0000)).collect::<Vec<_>>()
    });
}
fn c27_far(r: &mut Rec) {
    for (dx, dy) in FAR { for k in [0u32, 1, 3] {
        let (w, h) = (r.dim(4, 14), r.dim(4, 14));
        let im: GrayImage = r.img(w, h);
        let big = far(&im, Luma([0]), dx, dy);
        r.run(ev("suppress").a("im", &im).a("r", &k), || cut_only(&suppress_non_maximum(&big, k), Luma([0]), dx, dy, w, h));
        let m = r.pick(&[3i64, 8, 30]);
        let ps: Vec<_> = (0..12).map(|_| (dx + r.range(0, m) as u32, dy + r.range(0, m) as u32, r.range(-2, 3) as i32)).collect();
        locmax(r, &ps, k);
    } }
    // radii and columns at the end of the range
    for k in [40u32, 65535, 65536, 70000, 1 << 20, i32::MAX as u32, u32::MAX] {
        let im: GrayImage = r.img(9, 7);
        sup(r, &im, k);
        for x in [0u32, 1, 70000, 2147483600] {
            let ps: Vec<_> = (0..8).map(|_| (x + r.range(0, 40) as u32, r.range(0, 40) as u32, r.range(-2, 3) as i32)).collect();
            locmax(r, &ps, k);
            locmax(r, &ps, 3);
            let ps: Vec<_> = (0..8).map(|_| (r.pick(&[0u32, 5, 70000, 65536, 65535, 2147483000]), r.range(0, 9) as u32, r.range(-2, 3) as i32)).collect();
            locmax(r, &ps, k);
        }
    }
}
fn c27(r: &mut Rec) {
    c27_far(r);
    for w in 0..=3u32 { for h in 0..=3u32 { for k in 0..=3 {
        let pal: &[u8] = if w * h <= 6 { &[0, 1, 2] } else { &[0, 1] };
        if w * h == 9 && k > 1 && !r.thorough { continue }
        for im in all_images(w, h, pal).collect::<Vec<_>>() { sup(r, &im, k) }
    } } }
    for _ in 0..r.t(300, 4000) {
        let (w, h) = (r.dim(1, 14), r.dim(1, 14));
        let im: GrayImage = r.img(w, h);
        let k = r.range(0, 6) as u32;
        sup(r, &im, k);
        let v: Vec<u16> = r.samples((w * h) as usize, 65535).into_iter().map(|x| x as u16).collect();
        let im: ImageBuffer<Luma<u16>, Vec<u16>> = ImageBuffer::from_raw(w, h, v).unwrap();
        r.run(ev("suppress").a("im", &im).a("r", &k), || suppress_non_maximum(&im, k));
    }
    for (w, h) in [(300, 2), (2, 300), (260, 1)] { for k in [0, 3, 20, 400] { let im: GrayImage = r.img(w, h); if k < 20 { sup(r, &im, k) } else { sup(r, &GrayImage::from_fn(40, 2, |x, y| Luma([(x * 7 + y) as u8])), k) } } }
    for (w, h) in [(1100, 1), (1, 1100), (530, 3), (3, 530), (60, 50)] { for k in [1, 2, 5, 17] { let im: GrayImage = r.img(w, h); sup(r, &im, k) } }
    for (w, h, k) in [(30, 2, 31), (2, 30, 29), (9, 9, 300), (5, 1, 70000), (1, 1, 3)] { let im: GrayImage = r.img(w, h); sup(r, &im, k) }
    // signed values
    for _ in 0..r.t(150, 2000) {
        let (w, h) = (r.dim(1, 12), r.dim(1, 12));
        let b = r.pick(&[0i64, -300, -70000, -9]);
        let n = (w * h) as usize;
        let k = r.range(0, 5) as u32;
        let v: Vec<i32> = (0..n).map(|_| (b + r.range(-5, 9)) as i32).collect();
        let im: ImageBuffer<Luma<i32>, Vec<i32>> = ImageBuffer::from_raw(w, h, v).unwrap();
        r.run(ev("suppress").a("im", &im).a("r", &k), || suppress_non_maximum(&im, k));
        let v: Vec<i16> = r.samples(n, 60000).into_iter().map(|x| (x - 30000) as i16).collect();
        let im: ImageBuffer<Luma<i16>, Vec<i16>> = ImageBuffer::from_raw(w, h, v).unwrap();
        r.run(ev("suppress").a("im", &im).a("r", &k), || suppress_non_maximum(&im, k));
    }
    // many points, far away ones, and scores that differ little
    for _ in 0..r.t(30, 300) {
        let (o, m, n) = (r.pick(&[0i64, 70000, 1 << 20]), r.pick(&[10i64, 40, 400]), r.range(50, 200));
        let b = r.pick(&[0i64, 16777000, -16777000]);
        let ps: Vec<_> = (0..n).map(|_| ((o + r.range(0, m)) as u32, (o + r.range(0, m)) as u32, (b + r.range(-5, 50)) as i32)).collect();
        let k = r.pick(&[0u32, 1, 2, 4, 20, 300]);
        locmax(r, &ps, k);
    }
    // point lists: every list of up to 3 points in a 3x3 area with few scores
    locmax(r, &[], 1);
    for a in 0..18u32 { for b in 0..18u32 { for k in 0..3 {
        let p = |i: u32| (i % 3, (i / 3) % 3, (i / 9) as i32);
        if k == 0 { locmax(r, &[p(a)], b % 4) }
        locmax(r, &[p(a), p(b)], k);
        if r.thorough { for c in 0..18 { locmax(r, &[p(a), p(b), p(c)], k) } }
    } } }
    for _ in 0..r.t(500, 6000) {
        let m = r.pick(&[3i64, 8, 30, 300]);
        let n = r.range(1, 14);
        let ps: Vec<_> = (0..n).map(|_| (r.range(0, m) as u32, r.range(0, m) as u32, r.range(-2, 3) as i32)).collect();
        let k = r.range(0, m) as u32;
        locmax(r, &ps, k);
    }
}

fn fast(r: &mut Rec, im: &GrayImage, t: u8, n: u8) {
    r.run_as(ev("fast").a("im", im).a("t", &t).a("n", &n), || if n == 9 { corners_fast9(im, t) } else { corners_fast12(im, t) },
        |o, s| o.iter().map(|c| (c.x, c.y, fx(c.score as f64, 1.0))).collect::<Vec<_>>().j(s));
}
const CIRCLE: [(i32, i32); 16] = [(0, -3), (1, -3), (2, -2), (3, -1), (3, 0), (3, 1), (2, 2), (1, 3), (0, 3), (-1, 3), (-2, 2), (-3, 1), (-3, 0), (-3, -1), (-2, -2), (-1, -3)];
/// An arc of the circle around (x, y) differs from the centre.
fn arc(r: &mut Rec, im: &mut GrayImage, x: i32, y: i32) {
    let c = r.pick(&[0i64, 1, 100, 128, 254, 255]);
    im.put_pixel(x as u32, y as u32, Luma([c as u8]));
    let d = r.pick(&[1i64, 2, 20, 60, 128, 254, 255]) * r.pick(&[1i64, -1]);
    let (s, n) = (r.range(0, 15), r.range(7, 16));
    for j in 0..16 {
        let e = if j < n { d + r.pick(&[0i64, 0, 0, 1, 30]) * d.signum() } else { r.pick(&[0i64, 0, d, -d, d / 2, -1, 1]) };
        let o = CIRCLE[((s + j) % 16) as usize];
        im.put_pixel((x + o.0) as u32, (y + o.1) as u32, Luma([(c + e).clamp(0, 255) as u8]));
    }
}
fn c28_far(r: &mut Rec) {
    for (dx, dy) in FAR { for n in [9u8, 12] {
        let (w, h) = (24, 24);
        let mut im: GrayImage = r.img(w, h);
        for _ in 0..4 { let (x, y) = (r.range(10, w as i64 - 4) as i32, r.range(10, h as i64 - 4) as i32); arc(r, &mut im, x, y); }
        let bg = Luma([100]);
        margin(&mut im, bg, 7);
        let big = far(&im, bg, dx, dy);
        for t in [0u8, 20] {
            r.run_as(ev("fast").a("im", &im).a("t", &t).a("n", &n), || if n == 9 { corners_fast9(&big, t) } else { corners_fast12(&big, t) },
                |o, s| o.iter().map(|c| (c.x as i64 - dx as i64, c.y as i64 - dy as i64, fx(c.score as f64, 1.0))).collect::<Vec<_>>().j(s));
            for _ in 0..4 {
                let (x, y) = (r.range(3, w as i64 - 1) as u32, r.range(3, h as i64 - 1) as u32);
                let v = if n == 9 { Fast::Nine } else { Fast::Twelve };
                r.run(ev("fast_score").a("im", &im).a("t", &t).a("n", &n).a("x", &x).a("y", &y), || fast_corner_score(&big, t, x + dx, y + dy, v));
            }
        }
    } }
}
/// A grid of bright dots, every one of them a corner.
fn dots(k: u32) -> GrayImage {
    let mut im = GrayImage::new(4 * k + 3, 4 * k + 3);
    for i in 0..k { for j in 0..k { im.put_pixel(4 * i + 3, 4 * j + 3, Luma([(40 + (7 * i + 13 * j) % 200) as u8])) } }
    im
}
fn c28(r: &mut Rec) {
    c28_far(r);
    for (k, t, n) in [(20u32, 0u8, 9), (37, 45, 12), (66, 0, 9), (66, 3, 12), (70, 200, 9)] {
        let im = dots(k);
        r.run_as(ev("dots").a("k", &k).a("t", &t).a("margin", &0).a("n", &-1), || if n == 9 { corners_fast9(&im, t) } else { corners_fast12(&im, t) },
            |o, s| o.iter().map(|c| (c.x, c.y, fx(c.score as f64, 1.0))).collect::<Vec<_>>().j(s));
    }
    for _ in 0..r.t(1200, 15000) {
        let (w, h) = (r.dim(7, 10), r.dim(7, 10));
        let mut im: GrayImage = r.img(w, h);
        let (x, y) = (r.range(3, w as i64 - 4) as i32, r.range(3, h as i64 - 4) as i32);
        arc(r, &mut im, x, y);
        let t = r.pick(&[0u8, 0, 1, 19, 20, 59, 60, 127, 253, 254, 255]);
        let n = r.pick(&[9u8, 12]);
        fast(r, &im, t, n);
        let v = |n| if n == 9 { Fast::Nine } else { Fast::Twelve };
        let (px, py) = if r.range(0, 3) > 0 { (x, y) } else { (r.range(0, w as i64 - 1) as i32, r.range(0, h as i64 - 1) as i32) };
        r.run(ev("fast_score").a("im", &im).a("t", &t).a("n", &n).a("x", &px).a("y", &py), || fast_corner_score(&im, t, px as u32, py as u32, v(n)));
    }
    // every subset of bright circle pixels (half of them in the quick tier)
    for k in 0..1u32 << 16 {
        if !r.thorough && k.wrapping_mul(2654435761) >> 28 != 0 { continue }
        let dark = k & 5 == 1;
        let mut im = GrayImage::from_pixel(7, 7, Luma([if dark { 255 } else { 0 }]));
        for j in 0..16 { if k >> j & 1 == 1 { let o = CIRCLE[j]; im.put_pixel((3 + o.0) as u32, (3 + o.1) as u32, Luma([77])) } }
        if r.thorough && k % 8 != 0 { continue }
        fast(r, &im, 0, 9);
        fast(r, &im, 10, 12);
    }
    for w in 0..=8u32 { for h in 0..=8u32 { let im: GrayImage = r.img(w, h); for n in [9, 12] { fast(r, &im, 0, n) } } }
    for (w, h) in [(300u32, 7u32), (7, 300), (25, 25), (1100, 7), (7, 1100), (60, 50)] { for _ in 0..3 {
        let mut im: GrayImage = r.img(w, h);
        for _ in 0..12 { let (x, y) = (r.range(3, w as i64 - 4) as i32, r.range(3, h as i64 - 4) as i32); arc(r, &mut im, x, y); }
        for n in [9, 12] { fast(r, &im, 5, n) }
    } }
}
fn blobs(r: &mut Rec, w: u32, h: u32) -> GrayImage {
    let bg = r.range(0, 255) as u8;
    let mut im = GrayImage::from_pixel(w, h, Luma([bg]));
    for _ in 0..r.range(1, 5) {
        let (x0, y0) = (r.range(0, w as i64 - 1) as u32, r.range(0, h as i64 - 1) as u32);
        let (bw, bh) = (r.dim(2, 9), r.dim(2, 9));
        let v = r.range(0, 255) as u8;
        for y in y0..(y0 + bh).min(h) { for x in x0..(x0 + bw).min(w) { im.put_pixel(x, y, Luma([v])) } }
    }
    if r.range(0, 2) == 0 { for p in im.pixels_mut() { if r.range(0, 9) == 0 { p.0[0] = r.range(0, 255) as u8 } } }
    im
}
fn c43(r: &mut Rec) {
    c43_far(r);
    for (k, t, n, m) in [(20u32, 0u8, 300usize, 15u32), (37, 45, 1025, 0), (66, 0, 5000, 3), (66, 3, 300, 20), (70, 0, 4200, 4)] {
        let im = dots(k);
        r.run_as(ev("dots").a("k", &k).a("t", &t).a("margin", &m).a("n", &n), || oriented_fast(&im, Some(t), n, m, Some(5)),
            |o, s| o.iter().map(|c| (c.corner.x, c.corner.y, fx(c.corner.score as f64, 1.0))).collect::<Vec<_>>().j(s));
    }
    for i in 0..r.t(150, 1500) {
        let (w, h, m) = if i % 25 == 7 { (r.pick(&[290u32, 40]), 14, 3) } else if i % 25 == 8 { (14, r.pick(&[290u32, 40]), 3) } else if i % 3 == 0 { (r.dim(31, 37), r.dim(31, 37), r.pick(&[0u32, 12, 15])) } else { (r.dim(9, 22), r.dim(9, 22), r.pick(&[0, 1, 3, 4])) };
        // now and then no pixel is far enough from the border
        let m = if i % 30 == 11 { r.pick(&[w / 2 + 1, w, h + 1, 1000, u32::MAX]) } else { m.min((w.min(h) - 1) / 2) };
        let im = blobs(r, w, h);
        let t = if r.range(0, 2) > 0 { Some(r.pick(&[0u8, 1, 5, 20, 60, 120])) } else { None };
        let n = r.pick(&[0usize, 1, 2, 5, 50, 1000, 3000]);
        let s = r.range(0, 1000) as u64;
        r.run_as(ev("oriented").a("im", &im).a("margin", &(m as i64).min(2000)).a("n", &n).a("t", &t), || oriented_fast(&im, t, n, m, Some(s)),
            |o, st| o.iter().map(|c| (c.corner.x, c.corner.y, fx(c.corner.score as f64, 1.0), fr((c.orientation as f64).cos(), 1e4), fr((c.orientation as f64).sin(), 1e4))).collect::<Vec<_>>().j(st));
    }
}

fn c43_far(r: &mut Rec) {
    for (dx, dy) in FAR { for m in [0u32, 3, 15] {
        let mut im = blobs(r, 44, 44);
        let bg = Luma([100]);
        margin(&mut im, bg, 16);
        let big = far(&im, bg, dx, dy);
        let t = Some(r.pick(&[0u8, 5, 20]));
        let n = r.pick(&[2usize, 1000]);
        r.run_as(ev("oriented").a("im", &im).a("margin", &m).a("n", &n).a("t", &t), || oriented_fast(&big, t, n, m, Some(9)),
            |o, st| o.iter().map(|c| (c.corner.x as i64 - dx as i64, c.corner.y as i64 - dy as i64, fx(c.corner.score as f64, 1.0), fr((c.orientation as f64).cos(), 1e4), fr((c.orientation as f64).sin(), 1e4))).collect::<Vec<_>>().j(st));
    } }
}
fn lbp(r: &mut Rec, im: &GrayImage, x: u32, y: u32) { r.run(ev("lbp").a("im", im).a("x", &x).a("y", &y), || local_binary_pattern(im, x, y)); }
fn c29(r: &mut Rec) {
    for (dx, dy) in FAR {
        let im: GrayImage = r.img(12, 12);
        let big = far(&im, Luma([50]), dx, dy);
        for _ in 0..60 { let (x, y) = (r.dim(1, 12), r.dim(1, 12)); r.run(ev("lbp").a("im", &im).a("x", &x).a("y", &y), || local_binary_pattern(&big, x + dx, y + dy)); }
    }
    for k in 0..256u32 {
        let (c, d) = (r.range(1, 255) as u8, r.range(0, 2) as u8);
        let mut j = 0;
        let im = GrayImage::from_fn(3, 3, |x, y| if (x, y) == (1, 1) { Luma([c]) } else { j += 1; Luma([if k >> (j - 1) & 1 == 1 { c - 1 } else { c.saturating_add(d) }]) });
        lbp(r, &im, 1, 1);
        let b = k as u8;
        r.run(ev("lbp_tables").a("b", &b), || (min_shift(b) as u32, count_transitions(b), UNIFORM_REPRESENTATIVE_2[b as usize] as u32, MIN_SHIFT[b as usize] as u32));
    }
    for w in 0..=4u32 { for h in 0..=4u32 { let im: GrayImage = r.img(w, h); for x in 0..=w + 1 { for y in 0..=h + 1 { lbp(r, &im, x, y) } } } }
    for _ in 0..r.t(1000, 10000) {
        let (w, h) = (r.dim(3, 8), r.dim(3, 8));
        let im: GrayImage = r.img(w, h);
        let (x, y) = (r.range(0, w as i64) as u32, r.range(0, h as i64) as u32);
        lbp(r, &im, x, y);
    }
    let im: GrayImage = r.img(300, 3);
    for x in [0, 1, 255, 256, 257, 298, 299, 300, u32::MAX] { lbp(r, &im, x, 1); lbp(r, &im, 1, x) }
    let im: GrayImage = r.img(3, 1100);
    for y in [0, 1, 255, 256, 257, 511, 512, 598, 599, 600, 1022, 1024, 1025, 1098, 1099, 1100, u32::MAX] { lbp(r, &im, 1, y); lbp(r, &im, 0, y) }
}

/// The blocks a feature draws on a w-by-h frame.
fn picture(f: HaarFeature, w: u32, h: u32) -> Vec<i32> {
    draw_haar_feature(&GrayImage::from_pixel(w, h, Luma([128])), f).as_raw().iter().map(|v| match v { 255 => 1, 0 => -1, 128 => 0, _ => 7 }).collect()
}
/// shape, block size, position and sign read off its picture
fn tuple(f: HaarFeature, w: u32, h: u32) -> Vec<i32> {
    let p = picture(f, w, h);
    let at = |x: u32, y: u32| if x < w && y < h { p[(y * w + x) as usize] } else { 0 };
    let Some(i) = p.iter().position(|v| *v != 0) else { return vec![0; 7] };
    let (l, t) = (i as u32 % w, i as u32 / w);
    let s = p[i];
    let run = |x: u32, y: u32, dx: u32, dy: u32| { let v = at(x, y); let mut n = 0; while at(x + n * dx, y + n * dy) == v && x + n * dx < w && y + n * dy < h { n += 1 } n };
    let (bw, bh) = (run(l, t, 1, 0), run(l, t, 0, 1));
    let mut sw = 0; while at(l + sw * bw, t) != 0 { sw += 1 }
    let mut sh = 0; while at(l, t + sh * bh) != 0 { sh += 1 }
    let mut area = 0; for v in &p { if *v != 0 { area += 1 } }
    if area != sw * sh * bw * bh { return vec![0; 7] }
    vec![sw as i32, sh as i32, bw as i32, bh as i32, l as i32, t as i32, s]
}
fn heval(r: &mut Rec, im: &GrayImage, f: HaarFeature, w: u32, h: u32) {
    let t = tuple(f, w, h);
    r.run(ev("haar_eval").a("im", im).a("f", &t), || f.evaluate(&integral_image(im)));
}
fn c30(r: &mut Rec) {
    let m = if r.thorough { 6 } else { 4 };
    for w in 0..=m { for h in 0..=m {
        r.run_as(ev("haar_all").a("w", &w).a("h", &h), || enumerate_haar_features(w, h), |o, s| o.iter().map(|f| picture(*f, w as u32, h as u32)).collect::<Vec<_>>().j(s));
    } }
    for w in 0..=40u32 { for h in [0u32, 1, 2, 3, 5, 10, 24, 40, 255] { r.run(ev("haar_count").a("w", &w).a("h", &h), || number_of_haar_features(w, h)); r.run(ev("haar_count").a("w", &h).a("h", &w), || number_of_haar_features(h, w)); } }
    for (w, h) in [(256u32, 1u32), (300, 1), (300, 2), (511, 3), (1000, 4), (3000, 1), (9000, 0), (400, 7)] { r.run(ev("haar_count").a("w", &w).a("h", &h), || number_of_haar_features(w, h)); r.run(ev("haar_count").a("w", &h).a("h", &w), || number_of_haar_features(h, w)); }
    // the largest blocks of large frames, on bright images
    for (w, h) in [(255u8, 36u8), (36, 255)] {
        let along = |s: u32, n: u32| (1..=s / n).map(|b| s - n * b + 1).sum::<u32>() as usize;
        let Some(fs) = catch(|| enumerate_haar_features(w, h)) else { continue };
        let (a, b) = (w as u32, h as u32);
        let mut at = 0;
        for n in [along(a, 2) * along(b, 1), along(a, 3) * along(b, 1), along(a, 1) * along(b, 2), along(a, 1) * along(b, 3), along(a, 2) * along(b, 2)] {
            at += 2 * n;
            for k in [at.wrapping_sub(1), at.wrapping_sub(2)] {
                let Some(f) = fs.get(k).copied() else { continue };
                let t = tuple(f, a, b);
                if t[2] == 0 { continue }
                // bright where the feature is white (or black), the rest dark
                let im = GrayImage::from_fn(a, b, |x, y| {
                    let (x, y) = (x as i32 - t[4], y as i32 - t[5]);
                    Luma([if x >= 0 && y >= 0 && (x / t[2] + y / t[3]) % 2 == 0 { 255 } else { 0 }])
                });
                heval(r, &im, f, a, b);
                let im: GrayImage = r.img(a, b);
                heval(r, &im, f, a, b);
            }
        }
    }
    for (w, h) in [(5u8, 3u8), (3, 5), (8, 8), (12, 5), (255, 1), (1, 255), (254, 1), (2, 255), (255, 2), (24, 3), (20, 20)] {
        let k: Vec<usize> = (0..60).map(|_| r.range(0, 1 << 30) as usize).collect();
        r.run_as(ev("haar_some").a("w", &w).a("h", &h), || enumerate_haar_features(w, h), |o, s| {
            let fs: Vec<_> = k.iter().filter(|_| !o.is_empty()).map(|i| tuple(o[i % o.len()], w as u32, h as u32)).collect();
            s.push_str(&format!("{{\"n\":{},\"fs\":{}}}", o.len(), js(&fs)));
        });
    }
    for (w, h) in [(2u8, 2u8), (3, 3), (4, 4), (6, 5), (9, 9), (12, 3)] {
        let Some(fs) = catch(|| enumerate_haar_features(w, h)) else { continue };
        for _ in 0..r.t(60, 600) {
            let f = r.pick(&fs);
            let (dw, dh) = (r.range(-2, 4), r.range(-2, 4));
            let im: GrayImage = r.img((w as i64 + dw).max(0) as u32, (h as i64 + dh).max(0) as u32);
            heval(r, &im, f, w as u32, h as u32);
            let t = tuple(f, w as u32, h as u32);
            let (iw, ih) = (w as u32 + r.dim(0, 3), h as u32 + r.dim(0, 3));
            if r.range(0, 1) == 0 {
                let im: GrayImage = r.img(iw, ih);
                r.run(ev("haar_draw").a("im", &im).a("f", &t).a("white", &[255]).a("black", &[0]), || { let mut m = im.clone(); draw_haar_feature_mut(&mut m, f); vec![draw_haar_feature(&im, f), m] });
            } else {
                let im: RgbImage = r.img(iw, ih);
                r.run(ev("haar_draw").a("im", &im).a("f", &t).a("white", &[255, 255, 255]).a("black", &[0, 0, 0]), || { let mut m = im.clone(); draw_haar_feature_mut(&mut m, f); vec![draw_haar_feature(&im, f), m] });
            }
        }
    }
    for (w, h) in [(255u8, 1u8), (1, 255), (30, 20)] {
        let Some(fs) = catch(|| enumerate_haar_features(w, h)) else { continue };
        for _ in 0..20 { if fs.is_empty() { break } let f = r.pick(&fs); let im: GrayImage = r.img(w as u32, h as u32); heval(r, &im, f, w as u32, h as u32); }
    }
}

fn bits(v: &[u128]) -> Vec<u32> { v.iter().flat_map(|c| (0..128).rev().map(move |i| (c >> i & 1) as u32)).collect() }
fn desc(b: Vec<u128>, i: usize) -> BriefDescriptor { BriefDescriptor { bits: b, corner: Corner::new(i as u32, 0, 0.0) } }
fn chunk(r: &mut Rec) -> u128 { (0..4).fold(0u128, |a, _| a << 32 | r.range(0, u32::MAX as i64) as u128) }
fn c33(r: &mut Rec) {
    for i in 0..r.t(40, 400) {
        let (mut w, mut h) = (r.dim(31, 40), r.dim(31, 40));
        if i % 8 == 3 { if i % 16 == 3 { w += 260 } else { h += 260 } }
        let im: GrayImage = if r.range(0, 1) == 0 { r.img(w, h) } else { blobs(r, w, h) };
        let len = r.pick(&[128usize, 128, 256, 384, 100, 127]);
        let np = if r.range(0, 9) == 0 { 128 } else { len };
        let mut keys: Vec<(u32, u32)> = (0..r.range(0, 3)).map(|_| (r.range(16, (w as i64 - 15).max(16)) as u32, r.range(16, (h as i64 - 15).max(16)) as u32)).collect();
        if r.range(0, 3) == 0 { keys.push((r.range(14, w as i64 - 13) as u32, r.range(14, h as i64 - 13) as u32)) }
        let far = |k: &(u32, u32)| k.0 > 15 && k.1 > 15 && k.0 + 15 <= w && k.1 + 15 <= h;
        if r.range(0, 3) > 0 { keys.retain(far) }
        if i % 10 == 6 { keys.push(r.pick(&[(u32::MAX, 20), (20, u32::MAX - 3), (u32::MAX - 15, u32::MAX - 15), (1 << 31, 17)])) }
        // pairs of one's own may lie outside of the patch, and even of the image
        let top = if i % 6 == 1 { r.pick(&[60i64, 400, 100000]) } else { 30 };
        let mut tp: Vec<TestPair> = (0..np).map(|_| { let mut c = || r.range(0, top) as u32; TestPair { p0: Point::new(c(), c()), p1: Point::new(c(), c()) } }).collect();
        let kp: Vec<Point<u32>> = keys.iter().map(|k| Point::new(k.0, k.1)).collect();
        let over = i % 5 != 0;
        let pre = if over { None } else { catch(|| brief(&im, &kp, len, None)).and_then(|x| x.ok()) };
        if let Some(p) = &pre { tp = p.1.clone() }
        let pj: Vec<((u32, u32), (u32, u32))> = tp.iter().map(|t| ((t.p0.x, t.p0.y), (t.p1.x, t.p1.y))).collect();
        r.run_as(ev("brief").a("im", &im).a("keys", &keys.iter().map(|k| (k.0.min(1 << 20), k.1.min(1 << 20))).collect::<Vec<_>>()).a("len", &len).a("pairs", &pj), || match pre { Some(p) => Some(p), None => brief(&im, &kp, len, Some(&tp)).ok() },
            |o, s| { let v = o.as_ref().map(|o| o.0.iter().map(|d| Raw(format!("{{\"pos\":{},\"bits\":{}}}", js(&(d.position().x, d.position().y)), js(&bits(&d.bits))))).collect::<Vec<_>>()); v.j(s) });
    }
    // long descriptors
    for len in [512usize, 640, 1280, 2560] {
        let im: GrayImage = r.img(34, 35);
        let keys = [(16u32, 17u32), (18, 18)];
        let tp: Vec<TestPair> = (0..len).map(|_| { let mut c = || r.range(0, 30) as u32; TestPair { p0: Point::new(c(), c()), p1: Point::new(c(), c()) } }).collect();
        let kp: Vec<Point<u32>> = keys.iter().map(|k| Point::new(k.0, k.1)).collect();
        let pj: Vec<((u32, u32), (u32, u32))> = tp.iter().map(|t| ((t.p0.x, t.p0.y), (t.p1.x, t.p1.y))).collect();
        r.run_as(ev("brief").a("im", &im).a("keys", &keys.to_vec()).a("len", &len).a("pairs", &pj), || brief(&im, &kp, len, Some(&tp)).ok(),
            |o, s| { let v = o.as_ref().map(|o| o.0.iter().map(|d| Raw(format!("{{\"pos\":{},\"bits\":{}}}", js(&(d.position().x, d.position().y)), js(&bits(&d.bits))))).collect::<Vec<_>>()); v.j(s) });
    }
    for (dx, dy) in FAR { for _ in 0..2 {
        let (w, h) = (36u32, 36u32);
        let im: GrayImage = r.img(w, h);
        let big = far(&im, Luma([90]), dx, dy);
        let keys: Vec<(u32, u32)> = (0..3).map(|_| (r.dim(16, 21), r.dim(16, 21))).collect();
        let tp: Vec<TestPair> = (0..128).map(|_| { let mut c = || r.range(0, 30) as u32; TestPair { p0: Point::new(c(), c()), p1: Point::new(c(), c()) } }).collect();
        let kp: Vec<Point<u32>> = keys.iter().map(|k| Point::new(k.0 + dx, k.1 + dy)).collect();
        let pj: Vec<((u32, u32), (u32, u32))> = tp.iter().map(|t| ((t.p0.x, t.p0.y), (t.p1.x, t.p1.y))).collect();
        r.run_as(ev("brief").a("im", &im).a("keys", &keys).a("len", &128).a("pairs", &pj), || brief(&big, &kp, 128, Some(&tp)).ok(),
            |o, s| { let v = o.as_ref().map(|o| o.0.iter().map(|d| Raw(format!("{{\"pos\":{},\"bits\":{}}}", js(&(d.position().x as i64 - dx as i64, d.position().y as i64 - dy as i64)), js(&bits(&d.bits))))).collect::<Vec<_>>()); v.j(s) });
    } }
    for _ in 0..r.t(200, 2000) {
        let n = r.range(1, 3) as usize;
        let b: Vec<u128> = (0..n).map(|_| chunk(r)).collect();
        let k = r.pick(&[0i64, 1, 5, 100, 127, 128, 129]);
        let idx: Vec<u32> = (0..k).map(|_| r.range(0, 128 * n as i64 - 1) as u32).collect();
        r.run_as(ev("subset").a("bits", &bits(&b)).a("idx", &idx), || desc(b.clone(), 0).get_bit_subset(&idx), |o, s| bits(&[*o]).j(s));
        let mut b2 = b.clone();
        for _ in 0..r.range(0, 4) { let j = r.range(0, n as i64 - 1) as usize; b2[j] ^= 1 << r.range(0, 127) }
        if r.range(0, 9) == 0 { b2.push(0) }
        if r.range(0, 3) == 0 { b2[0] = chunk(r) }
        if r.range(0, 3) == 0 { for v in b2.iter_mut() { *v = !*v } }
        if r.range(0, 9) == 0 { let (z, j) = (r.range(0, 1) == 0, r.range(0, n as i64 - 1) as usize); b2[j] = if z { !b[j] } else { u128::MAX } }
        r.run(ev("hamming").a("a", &bits(&b)).a("b", &bits(&b2)), || desc(b.clone(), 0).hamming_distance(&desc(b2.clone(), 1)));
    }
    for (n, len) in [(300usize, 3usize), (1500, 1), (5000, 1), (2000, 2)] {
        let d2: Vec<_> = (0..n).map(|i| desc((0..len).map(|_| chunk(r)).collect(), i)).collect();
        assert!(d2.iter().map(|d| d.bits.clone()).collect::<std::collections::HashSet<_>>().len() == n);
        let idx: Vec<usize> = (0..r.t(300, 1500)).map(|k| if k == 0 { n - 1 } else { r.range(0, n as i64 - 1) as usize }).collect();
        let d1: Vec<_> = idx.iter().enumerate().map(|(k, i)| desc(d2[*i].bits.clone(), k)).collect();
        r.run(ev("match_many").a("idx", &idx), || match_binary_descriptors(&d1, &d2, 1, Some(n as u64)).iter().map(|(a, b)| {
            let i = |x: &BriefDescriptor, d: &[BriefDescriptor]| ((x as *const BriefDescriptor as usize - d.as_ptr() as usize) / std::mem::size_of::<BriefDescriptor>()) as u32;
            (i(a, &d1), i(b, &d2))
        }).collect::<Vec<_>>());
    }
    // crowded buckets: many near-identical descriptors, the exact one among the last (or anywhere)
    for k in 0..r.t(10, 60) {
        let base = vec![chunk(r)];
        let m = r.pick(&[12usize, 20, 40]);
        let mut d2: Vec<_> = (0..m).map(|i| { let mut b = base.clone(); b[0] ^= (1 << r.range(0, 63)) | (1 << r.range(64, 127)); desc(b, i) }).collect();
        let at = if k % 2 == 0 { m - 1 } else { r.range(0, m as i64 - 1) as usize };
        d2[at] = desc(base.clone(), at);
        let d1 = vec![desc(base.clone(), 0), desc(d2[m / 2].bits.clone(), 1)];
        let show = |d: &[BriefDescriptor]| d.iter().map(|x| bits(&x.bits)).collect::<Vec<_>>();
        for t in [1u32, 3] {
            r.run(ev("match").a("d1", &show(&d1)).a("d2", &show(&d2)).a("t", &t), || match_binary_descriptors(&d1, &d2, t, Some(k as u64)).iter().map(|(a, b)| {
                let i = |x: &BriefDescriptor, d: &[BriefDescriptor]| d.iter().position(|y| std::ptr::eq(x, y)).map_or(9999, |v| v as i32);
                (i(a, &d1), i(b, &d2))
            }).collect::<Vec<_>>());
        }
    }
    for _ in 0..r.t(250, 2500) {
        let n = r.range(1, 2) as usize;
        let pool: Vec<Vec<u128>> = (0..4).map(|_| (0..n).map(|_| chunk(r)).collect()).collect();
        let mut list = |r: &mut Rec, m: i64| (0..r.range(0, m) as usize).map(|i| {
            let mut b = r.pick(&pool);
            for _ in 0..r.pick(&[0i64, 0, 1, 3, 20]) { let j = r.range(0, n as i64 - 1) as usize; b[j] ^= 1 << r.range(0, 127) }
            desc(b, i)
        }).collect::<Vec<_>>();
        let (m1, m2) = (r.pick(&[1i64, 3, 8]), r.pick(&[1i64, 3, 8]));
        let (d1, d2) = (list(r, m1), list(r, m2));
        let t = r.pick(&[0u32, 1, 2, 4, 20, 200, 1000]);
        let seed = r.range(0, 99) as u64;
        let show = |d: &[BriefDescriptor]| d.iter().map(|x| bits(&x.bits)).collect::<Vec<_>>();
        r.run(ev("match").a("d1", &show(&d1)).a("d2", &show(&d2)).a("t", &t), || match_binary_descriptors(&d1, &d2, t, Some(seed)).iter().map(|(a, b)| {
            let i = |x: &BriefDescriptor, d: &[BriefDescriptor]| d.iter().position(|y| std::ptr::eq(x, y)).map_or(9999, |v| v as i32);
            (i(a, &d1), i(b, &d2))
        }).collect::<Vec<_>>());
    }
}

fn lines(l: &[PolarLine]) -> Vec<(i64, u32)> { l.iter().map(|l| (fx(l.r as f64, 1.0), l.angle_in_degrees)).collect() }
fn hough(r: &mut Rec, im: &GrayImage, nq: usize) {
    let fg = im.pixels().filter(|p| p.0[0] > 0).count() as u32;
    let q: Vec<(u32, u32)> = (0..nq).map(|_| (r.range(1, (fg as i64).max(1)) as u32, r.range(1, 4) as u32)).collect();
    r.run_as(ev("hough").a("im", im), || {
        let d = |t, s| detect_lines(im, LineDetectionOptions { vote_threshold: t, suppression_radius: s });
        ((1..=fg + 1).map(|t| lines(&d(t, 0))).collect::<Vec<_>>(), q.iter().map(|c| lines(&d(c.0, c.1))).collect::<Vec<_>>())
    }, |o, s| {
        let qs: Vec<String> = q.iter().zip(&o.1).map(|(c, l)| format!("{{\"t\":{},\"r\":{},\"lines\":{}}}", c.0, c.1, js(l))).collect();
        s.push_str(&format!("{{\"levels\":{},\"q\":[{}]}}", js(&o.0), qs.join(",")));
    });
}
fn polar(r: &mut Rec, w: u32, h: u32, rr: f32, d: u32) {
    let l = PolarLine { r: rr, angle_in_degrees: d };
    let rt = fr(rr as f64, 1000.0);
    r.run_as(ev("inter").a("w", &w).a("h", &h).a("r", &rt).a("d", &d), || intersection_points(l, w, h),
        |o, s| o.map(|(a, b)| { let p = |q: (f32, f32)| (fr(q.0 as f64, 1000.0), fr(q.1 as f64, 1000.0)); (p(a), p(b)) }).j(s));
    r.run_as(ev("polar").a("w", &w).a("h", &h).a("r", &rt).a("d", &d), || {
        let im = RgbImage::new(w, h);
        let a = draw_polar_lines(&im, &[l], Rgb([9, 0, 255]));
        let mut b = im;
        draw_polar_lines_mut(&mut b, &[l], Rgb([9, 0, 255]));
        let mut v: Vec<(u32, u32)> = vec![];
        for (x, y, p) in a.enumerate_pixels() { if p.0 == [9, 0, 255] { v.push((x, y)) } else if p.0 != [0; 3] { v.push((99999, 0)) } }
        if a != b { v.push((99998, 0)) }
        v
    }, |o, s| o.j(s));
}
fn c34(r: &mut Rec) {
    for w in 1..=2u32 { for h in 1..=2u32 { for im in all_images(w, h, &[0, 1]).collect::<Vec<_>>() { hough(r, &im, 2) } } }
    hough(r, &GrayImage::new(0, 3), 1);
    hough(r, &GrayImage::new(3, 0), 1);
    for _ in 0..r.t(24, 250) {
        let (w, h) = (r.dim(1, 9), r.dim(1, 9));
        let mut im = GrayImage::new(w, h);
        for _ in 0..r.range(1, 6) { let (x, y) = (r.dim(0, w as i64 - 1), r.dim(0, h as i64 - 1)); im.put_pixel(x, y, Luma([r.pick(&[1u8, 255, 128])])) }
        hough(r, &im, 3);
    }
    for i in 0..2 { let mut im = GrayImage::new(12, 10); for k in 0..9 { if i == 0 { im.put_pixel(k, 4, Luma([255])) } else { im.put_pixel(k, k, Luma([255])) } } hough(r, &im, 3) }
    // solid areas
    for i in 0..r.t(12, 80) {
        let (w, h) = (r.dim(3, 7), r.dim(3, 7));
        let mut im = GrayImage::from_pixel(w, h, Luma([r.pick(&[1u8, 40, 255])]));
        for _ in 0..i % 4 { let (x, y) = (r.dim(0, w as i64 - 1), r.dim(0, h as i64 - 1)); im.put_pixel(x, y, Luma([0])) }
        hough(r, &im, 2);
    }
    // sides whose squares exceed 32 bits
    for (w, h) in [(70000u32, 1u32), (1, 66000), (46341, 3)] {
        let (x, y) = (w - 1, h - 1);
        let mut im = GrayImage::new(w, h);
        im.put_pixel(x, y, Luma([7]));
        r.run(ev("hough_far").a("x", &x).a("y", &y), || [1, 2].map(|t| lines(&detect_lines(&im, LineDetectionOptions { vote_threshold: t, suppression_radius: 0 }))).to_vec());
    }
    // lines of more than 8-bit length: along the top or the left border every point has distance 0
    for (w, h) in [(300u32, 1u32), (1, 290), (520, 3), (2, 700)] {
        let im = GrayImage::from_fn(w, h, |x, y| Luma([if if w > h { y == 0 } else { x == 0 } { 1 } else { 0 }]));
        let ts = [150, 255, 256, 257, w.max(h) - 1, w.max(h), w.max(h) + 1];
        r.run(ev("hough_long").a("w", &w).a("h", &h).a("ts", &ts.to_vec()), || ts.map(|t| lines(&detect_lines(&im, LineDetectionOptions { vote_threshold: t, suppression_radius: 0 }))).to_vec());
    }
    // the far corners of large images, where lines are furthest from the origin
    for (w, h) in [(300, 300), (200, 2), (2, 200), (120, 90)] {
        let mut im = GrayImage::new(w, h);
        for (x, y) in [(w - 1, h - 1), (w - 1, h - 2), (w - 2, h - 1), (0, h - 1)] { im.put_pixel(x, y, Luma([255])) }
        hough(r, &im, 1);
    }
    for d in 0..180u32 { for _ in 0..r.t(6, 40) {
        let (w, h) = (r.dim(1, 40), r.dim(1, 40));
        let th = (d as f32).to_radians();
        let (sn, cs) = th.sin_cos();
        let rr = match r.range(0, 5) {
            0 => h as f32 * sn,
            1 => w as f32 * cs,
            2 => w as f32 * cs + h as f32 * sn,
            3 => r.range(-40, 56) as f32,
            4 => 0.0,
            _ => r.range(-400, 560) as f32 / 10.0,
        };
        polar(r, w, h, rr, d);
    } }
    // lines that enter or leave by a corner, at every angle: those with no intersections, or with two
    // close ones, are judged one by one
    let top = r.t(64, 128) as u32;
    for w in 1..=top { for h in 1..=top { for d in (1..180u32).filter(|d| *d != 90) {
        let t = (d as f64).to_radians();
        let cs: &[(f64, f64)] = if d > 90 { &[(1.0, 1.0), (0.0, 0.0)] } else { &[(0.0, 1.0), (1.0, 0.0)] };
        for c in cs {
            let q = (c.0 * w as f64 * t.cos() + c.1 * h as f64 * t.sin()) as f32;
            for rr in [q, q.next_up(), q.next_down()] {
                let i = intersection_points(PolarLine { r: rr, angle_in_degrees: d }, w, h);
                if i.map_or(true, |(a, b)| (a.0 - b.0).abs() + (a.1 - b.1).abs() < 0.2) { polar(r, w, h, rr, d) }
            }
        }
    } } }
    for (w, h, rr, d) in [(100, 10, 5.0, 30), (10, 100, 5.0, 60), (0, 5, 0.0, 45), (5, 0, 0.0, 0), (50, 3, 25.0, 0), (3, 50, 3.0, 90)] { polar(r, w, h, rr, d) }
}
// Middling images, radii and lists.
fn mid(r: &mut Rec) {
    for i in 0..r.t(16, 160) {
        let (w, h) = (r.dim(16, 80), r.dim(16, 80));
        match r.prop.as_str() {
            "C27" => {
                let im = r.mid(w, h);
                let k = r.dim(2, 24);
                sup(r, &im, k);
                let (m, n) = (r.range(15, 200), r.range(60, 220));
                let ps: Vec<_> = (0..n).map(|_| (r.range(0, m) as u32, r.range(0, m) as u32, r.range(-3, 60) as i32)).collect();
                let k = r.dim(1, 40);
                locmax(r, &ps, k);
            }
            "C28" => {
                let mut im = r.scene(w, h);
                for _ in 0..i { let (x, y) = (r.range(3, w as i64 - 4) as i32, r.range(3, h as i64 - 4) as i32); arc(r, &mut im, x, y); }
                let t = r.dim(1, 80) as u8;
                for n in [9, 12] { fast(r, &im, t, n) }
            }
            "C29" => {
                let im = r.mid(w / 2, h / 2);
                for _ in 0..20 { let (x, y) = (r.dim(0, w as i64 / 2), r.dim(0, h as i64 / 2)); lbp(r, &im, x, y) }
            }
            "C30" => {
                let (fw, fh) = (r.dim(5, 26) as u8, r.dim(5, 26) as u8);
                let Some(fs) = catch(|| enumerate_haar_features(fw, fh)) else { continue };
                let im: GrayImage = r.img(w.max(fw as u32), h.max(fh as u32));
                let rgb: RgbImage = r.img(fw as u32 + 9, fh as u32 + 4);
                for _ in 0..4 {
                    let f = r.pick(&fs);
                    heval(r, &im, f, fw as u32, fh as u32);
                    let t = tuple(f, fw as u32, fh as u32);
                    r.run(ev("haar_draw").a("im", &rgb).a("f", &t).a("white", &[255, 255, 255]).a("black", &[0, 0, 0]), || { let mut m = rgb.clone(); draw_haar_feature_mut(&mut m, f); vec![draw_haar_feature(&rgb, f), m] });
                }
            }
            "C33" => {
                let n = r.range(1, 3) as usize;
                let pool: Vec<Vec<u128>> = (0..r.range(3, 12)).map(|_| (0..n).map(|_| chunk(r)).collect()).collect();
                let mut list = |r: &mut Rec, m: usize| (0..m).map(|i| {
                    let mut b = r.pick(&pool);
                    for _ in 0..r.pick(&[0i64, 1, 6, 20, 60]) { let j = r.range(0, n as i64 - 1) as usize; b[j] ^= 1 << r.range(0, 127) }
                    desc(b, i)
                }).collect::<Vec<_>>();
                let (m1, m2) = (r.range(9, 40) as usize, r.range(9, 40) as usize);
                let (d1, d2) = (list(r, m1), list(r, m2));
                let t = r.dim(1, 90);
                let seed = r.range(0, 99) as u64;
                let show = |d: &[BriefDescriptor]| d.iter().map(|x| bits(&x.bits)).collect::<Vec<_>>();
                r.run(ev("match").a("d1", &show(&d1)).a("d2", &show(&d2)).a("t", &t), || match_binary_descriptors(&d1, &d2, t, Some(seed)).iter().map(|(a, b)| {
                    let i = |x: &BriefDescriptor, d: &[BriefDescriptor]| d.iter().position(|y| std::ptr::eq(x, y)).map_or(9999, |v| v as i32);
                    (i(a, &d1), i(b, &d2))
                }).collect::<Vec<_>>());
                // many keypoints
                let (w, h) = (r.dim(40, 90), r.dim(40, 90));
                let im = r.scene(w, h);
                let keys: Vec<(u32, u32)> = (0..12).map(|_| (r.dim(16, w as i64 - 15), r.dim(16, h as i64 - 15))).collect();
                let kp: Vec<Point<u32>> = keys.iter().map(|k| Point::new(k.0, k.1)).collect();
                let tp: Vec<TestPair> = (0..256).map(|_| { let mut c = || r.range(0, 30) as u32; TestPair { p0: Point::new(c(), c()), p1: Point::new(c(), c()) } }).collect();
                let pj: Vec<((u32, u32), (u32, u32))> = tp.iter().map(|t| ((t.p0.x, t.p0.y), (t.p1.x, t.p1.y))).collect();
                r.run_as(ev("brief").a("im", &im).a("keys", &keys).a("len", &256).a("pairs", &pj), || brief(&im, &kp, 256, Some(&tp)).ok(),
                    |o, s| { let v = o.as_ref().map(|o| o.0.iter().map(|d| Raw(format!("{{\"pos\":{},\"bits\":{}}}", js(&(d.position().x, d.position().y)), js(&bits(&d.bits))))).collect::<Vec<_>>()); v.j(s) });
            }
            "C34" => {
                let (w, h) = (r.dim(12, 60), r.dim(12, 60));
                let mut im = GrayImage::new(w, h);
                // a few points on a line, and others
                let (x, y, dx, dy) = (r.range(0, w as i64 - 1), r.range(0, h as i64 - 1), r.range(-3, 3), r.range(-3, 3));
                for k in 0..8 { let (p, q) = (x + k * dx, y + k * dy); if p >= 0 && q >= 0 && p < w as i64 && q < h as i64 { im.put_pixel(p as u32, q as u32, Luma([255])) } }
                for _ in 0..3 { let (p, q) = (r.dim(0, w as i64 - 1), r.dim(0, h as i64 - 1)); im.put_pixel(p, q, Luma([1])) }
                hough(r, &im, 2);
            }
            _ => {
                let mut im = r.scene(w, h);
                for _ in 0..r.range(0, 12) { let (x, y) = (r.range(3, w as i64 - 4) as i32, r.range(3, h as i64 - 4) as i32); arc(r, &mut im, x, y); }
                let m = r.range(0, (w.min(h) as i64 - 1) / 2) as u32;
                let t = if i % 2 == 0 { None } else { Some(r.dim(1, 60) as u8) };
                let n = r.pick(&[3usize, 10, 200]);
                r.run_as(ev("oriented").a("im", &im).a("margin", &m).a("n", &n).a("t", &t), || oriented_fast(&im, t, n, m, Some(i as u64)),
                    |o, st| o.iter().map(|c| (c.corner.x, c.corner.y, fx(c.corner.score as f64, 1.0), fr((c.orientation as f64).cos(), 1e4), fr((c.orientation as f64).sin(), 1e4))).collect::<Vec<_>>().j(st));
            }
        }
    }
}
fn main() {
    let mut r = Rec::start();
    match r.prop.as_str() { "C27" => c27(&mut r), "C28" => c28(&mut r), "C29" => c29(&mut r), "C30" => c30(&mut r), "C33" => c33(&mut r), "C34" => c34(&mut r), _ => c43(&mut r) }
    mid(&mut r);
    r.finish();
}
