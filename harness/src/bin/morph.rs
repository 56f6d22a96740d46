use image::{GrayImage, Luma};
use imageproc::distance_transform::*;
use imageproc::morphology::*;
use vh::*;

fn norm(n: &str) -> Norm { match n { "L1" => Norm::L1, "L2" => Norm::L2, _ => Norm::LInf } }
const NORMS: [&str; 3] = ["L1", "L2", "LInf"];

fn dt(r: &mut Rec, im: &GrayImage) {
    for n in NORMS {
        r.run(ev("dt").a("im", im).a("n", n), || { let mut m = im.clone(); distance_transform_mut(&mut m, norm(n)); vec![distance_transform(im, norm(n)), m] });
    }
}
fn edt(r: &mut Rec, im: &GrayImage) {
    r.run_as(ev("edt").a("im", im), || euclidean_squared_distance_transform(im), |o, s| {
        let px: Vec<i64> = o.as_raw().iter().map(|&v| if v == f64::INFINITY { 2147483647 } else { fx(v, 1.0) }).collect();
        s.push_str(&format!("{{\"w\":{},\"h\":{},\"c\":1,\"px\":{}}}", o.width(), o.height(), js(&px)));
    });
}
fn small(r: &mut Rec, f: &mut dyn FnMut(&mut Rec, &GrayImage)) {
    for w in 0..=4u32 { for h in 0..=4u32 { if w * h <= 9 {
        let skip = !r.thorough && w * h == 9;
        for im in all_images(w, h, &[0, 1]).collect::<Vec<_>>() { if skip && r.range(0, 3) != 0 { continue } f(r, &im) }
    } } }
    for (w, h) in [(5u32, 1u32), (6, 1), (7, 1), (8, 1), (1, 5), (1, 6), (1, 8)] { for im in all_images(w, h, &[0, 255]).collect::<Vec<_>>() { f(r, &im) } }
}
fn sparse(r: &mut Rec, w: u32, h: u32, n: i64) -> GrayImage {
    let mut im = GrayImage::new(w, h);
    if w * h > 0 { for _ in 0..n { let (x, y) = (r.dim(0, w as i64 - 1), r.dim(0, h as i64 - 1)); let v = r.pick(&[1u8, 128, 255]); im.put_pixel(x, y, Luma([v])) } }
    im
}
fn c13(r: &mut Rec) {
    small(r, &mut |r, im| dt(r, im));
    for _ in 0..r.t(220, 4000) {
        let (w, h) = (r.dim(1, 14), r.dim(1, 14));
        let n = r.pick(&[1i64, 1, 2, 4, 12]);
        let im = sparse(r, w, h, n);
        dt(r, &im);
        let p = r.pick(&[10i64, 50, 90]);
        let v = r.pick(&[1u8, 2, 254, 255]);
        let im = r.bin(w.min(9), h.min(9), p, v);
        dt(r, &im);
    }
    for (w, h) in [(300u32, 2u32), (2, 300), (270, 1), (1, 270), (160, 130), (200, 40), (258, 3), (129, 128), (1100, 1), (1, 1100), (3, 520), (520, 3)] {
        for k in 0..3 {
            let mut im = if k == 0 { GrayImage::new(w, h) } else { sparse(r, w, h, 1) };
            if k == 0 { im.put_pixel(0, 0, Luma([255])) }
            dt(r, &im);
            if w * h > 5000 && !r.thorough { break }
        }
    }
    for (w, h) in [(300u32, 2u32), (3, 3), (1, 1), (130, 130)] { dt(r, &GrayImage::new(w, h)); }
}
fn c14(r: &mut Rec) {
    small(r, &mut |r, im| edt(r, im));
    for _ in 0..r.t(1200, 15000) {
        let (w, h) = (r.dim(0, 16), r.dim(0, 16));
        let n = r.pick(&[0i64, 1, 2, 3, 6, 15]);
        let im = sparse(r, w, h, n);
        edt(r, &im);
        let p = r.pick(&[5i64, 30, 60]);
        let im = r.bin(w.min(8), h.min(8), p, 1);
        edt(r, &im);
    }
    for (w, h) in [(300u32, 2u32), (2, 300), (2000, 1), (1, 2000), (90, 70), (40, 200)] { for n in [1i64, 2, 5] { let im = sparse(r, w, h, n); edt(r, &im); } }
    // far apart sources whose bisector passes within 1/width of a pixel centre
    for n in [1000u32, 4600, 8193] { for flip in 0..4u32 {
        if n > 4600 && flip > 1 && !r.thorough { continue }
        let mut a = GrayImage::new(n, 2);
        a.put_pixel(0, flip & 1, Luma([1]));
        a.put_pixel((n - 1) & !1, 1 - (flip & 1), Luma([255]));
        if flip < 2 { edt(r, &a) } else { edt(r, &imageproc::geometric_transformations::rotate90(&a)) }
    } }
}
fn mo(r: &mut Rec, im: &GrayImage, n: &str, k: u8) {
    let v: [(&str, fn(&GrayImage, Norm, u8) -> GrayImage, fn(&mut GrayImage, Norm, u8)); 4] =
        [("dilate", dilate, dilate_mut), ("erode", erode, erode_mut), ("open", open, open_mut), ("close", close, close_mut)];
    for (f, a, b) in v {
        r.run(ev("morph").a("im", im).a("f", f).a("n", n).a("k", &k), || { let mut m = im.clone(); b(&mut m, norm(n), k); vec![a(im, norm(n), k), m] });
    }
}
fn c15(r: &mut Rec) {
    small(r, &mut |r, im| { let n = r.pick(&NORMS); let k = r.pick(&[0u8, 1, 2, 3, 4, 9]); mo(r, im, n, k) });
    for w in 0..=3u32 { for h in 0..=3u32 { for v in [0u8, 1, 255] { for n in NORMS { for k in [0u8, 1, 2, 5, 6, 7, 200, 254] { mo(r, &GrayImage::from_pixel(w, h, Luma([v])), n, k) } } } } }
    for _ in 0..r.t(200, 4000) {
        let (w, h) = (r.dim(1, 10), r.dim(1, 10));
        let p = r.pick(&[3i64, 20, 50, 80, 97]);
        let v = r.pick(&[1u8, 127, 255]);
        let im = r.bin(w, h, p, v);
        let n = r.pick(&NORMS);
        let k = r.pick(&[0u8, 1, 1, 2, 2, 3, 4, 5, 8]);
        mo(r, &im, n, k);
    }
    // one or two lit (or unlit) pixels, the radius about as large as the image
    for _ in 0..r.t(250, 3000) {
        let (w, h) = (r.dim(1, 16), r.dim(1, 16));
        let (a, b) = r.pick(&[(0u8, 255u8), (0, 1), (255, 0)]);
        let mut im = GrayImage::from_pixel(w, h, Luma([a]));
        for _ in 0..r.range(1, 2) {
            let (x, y) = (r.dim(0, w as i64 - 1), r.dim(0, h as i64 - 1));
            let (x, y) = (r.pick(&[0, w - 1, x]), r.pick(&[0, h - 1, y]));
            im.put_pixel(x, y, Luma([b]));
        }
        let n = r.pick(&NORMS);
        let k = r.dim(w.min(h) as i64 - 1, (w + h) as i64) as u8;
        mo(r, &im, n, k);
    }
    for (w, h) in [(300u32, 1u32), (1, 290), (260, 2), (1100, 1), (2, 540)] { for n in NORMS { let mid = r.pick(&[120u8, 130, 199, 253]); for k in [1u8, 2, mid, 254] {
        let im = sparse(r, w, h, 1);
        mo(r, &im, n, k);
        let mut im = im;
        for p in im.pixels_mut() { p.0[0] = if p.0[0] == 0 { 9 } else { 0 } }
        mo(r, &im, n, k);
    } } }
    for _ in 0..r.t(60, 1000) {
        let (w, h) = (r.dim(1, 9), r.dim(1, 9));
        let p = r.pick(&[20i64, 50, 80]);
        let mut im = r.bin(w, h, p, 255);
        r.run(ev("begin").a("im", &im), || 0);
        for _ in 0..8 {
            let n = r.pick(&NORMS);
            let k = r.dim(0, 3) as u8;
            let f = r.pick(&["dilate", "erode", "open", "close"]);
            r.run(ev("s_morph").cont().a("f", f).a("n", n).a("k", &k), || {
                match f { "dilate" => dilate_mut(&mut im, norm(n), k), "erode" => erode_mut(&mut im, norm(n), k), "open" => open_mut(&mut im, norm(n), k), _ => close_mut(&mut im, norm(n), k) }
                im.clone()
            });
        }
    }
}
#[derive(Clone)]
enum M { Square(u8), Diamond(u8), Disk(u8), Image(GrayImage, u8, u8) }
impl M {
    fn mask(&self) -> Mask { match self { M::Square(r) => Mask::square(*r), M::Diamond(r) => Mask::diamond(*r), M::Disk(r) => Mask::disk(*r), M::Image(i, x, y) => Mask::from_image(i, *x, *y) } }
}
impl J for M {
    fn j(&self, s: &mut String) {
        s.push_str(&match self {
            M::Square(r) => format!("{{\"kind\":\"square\",\"r\":{}}}", r),
            M::Diamond(r) => format!("{{\"kind\":\"diamond\",\"r\":{}}}", r),
            M::Disk(r) => format!("{{\"kind\":\"disk\",\"r\":{}}}", r),
            M::Image(i, x, y) => format!("{{\"kind\":\"image\",\"im\":{},\"cx\":{},\"cy\":{}}}", js(i), x, y),
        })
    }
}
fn any_mask(r: &mut Rec, lim: i64) -> M {
    match r.range(0, 5) {
        0 => M::Square(r.dim(0, lim) as u8),
        1 => M::Diamond(r.dim(0, lim + 1) as u8),
        2 => M::Disk(r.dim(0, lim + 1) as u8),
        _ => {
            let (w, h) = (r.dim(0, 5), r.dim(0, 5));
            let p = r.pick(&[20i64, 60, 100]);
            let v = r.pick(&[1u8, 255]);
            M::Image(r.bin(w, h, p, v), r.dim(0, 6) as u8, r.dim(0, 6) as u8)
        }
    }
}
fn gray(r: &mut Rec, im: &GrayImage, m: &M) {
    let v: [(&str, fn(&GrayImage, &Mask) -> GrayImage); 4] = [("dilate", grayscale_dilate), ("erode", grayscale_erode), ("open", grayscale_open), ("close", grayscale_close)];
    for (f, g) in v { r.run(ev("gray").a("im", im).a("f", f).a("m", m), || g(im, &m.mask())); }
}
fn probe(r: &mut Rec, m: M, w: u32, h: u32, ix: u32, iy: u32) {
    r.run(ev("probe").a("m", &m).a("w", &w).a("h", &h).a("ix", &ix).a("iy", &iy), || {
        let mut im = GrayImage::new(w, h);
        im.put_pixel(ix, iy, Luma([255]));
        grayscale_dilate(&im, &m.mask())
    });
}
fn c16(r: &mut Rec) {
    for k in 0..=14u8 { for m in [M::Square(k), M::Diamond(k), M::Disk(k)] { let n = 2 * k as u32 + 3; probe(r, m, n, n, k as u32 + 1, k as u32 + 1) } }
    for k in [21u8] { for m in [M::Square(k), M::Diamond(k), M::Disk(k)] { let n = 2 * k as u32 + 3; probe(r, m, n, n, k as u32 + 1, k as u32 + 1) } }
    for k in [127u8, 200, 255] { for m in [M::Square(k), M::Diamond(k), M::Disk(k)] {
        probe(r, m.clone(), 600, 1, 300, 0);
        probe(r, m.clone(), 1, 600, 0, 290);
        if k == 200 { probe(r, m.clone(), 300, 2, 299, 1) }
        probe(r, m, 2, 40, 0, 39);
    } }
    for k in 0..=6u8 { for l in 0..=6u8 {
        for (a, b) in [(M::Square(k), M::Diamond(l)), (M::Diamond(k), M::Disk(l)), (M::Disk(k), M::Square(l)), (M::Disk(k), M::Disk(l))] {
            r.run(ev("mask_eq").a("m1", &a).a("m2", &b).a("lim", &7), || a.mask() == b.mask());
        }
        let side = 2 * k as u32 + 1;
        let im = GrayImage::from_fn(side, side, |x, y| Luma([if (x as i32 - k as i32).abs() + (y as i32 - k as i32).abs() <= l as i32 { 7 } else { 0 }]));
        let (a, b) = (M::Image(im, k, k), M::Diamond(l));
        r.run(ev("mask_eq").a("m1", &a).a("m2", &b).a("lim", &7), || a.mask() == b.mask());
    } }
    for (w, h) in [(511u32, 1u32), (512, 1), (1, 511), (1, 512), (513, 513), (0, 600), (600, 0)] {
        r.run(ev("mask_big").a("w", &w).a("h", &h), || { Mask::from_image(&GrayImage::from_pixel(w, h, Luma([1])), 255, 255); });
    }
    // masks whose centre is far inside or outside of their image
    for (mw, mh, cx, cy) in [(300u32, 1u32, 129u8, 0u8), (300, 2, 255, 1), (1, 300, 0, 128), (2, 400, 1, 250), (9, 9, 200, 4), (9, 9, 4, 140), (500, 3, 200, 1)] {
        let mut m = GrayImage::new(mw, mh);
        for _ in 0..6 { let (x, y) = (r.dim(0, mw as i64 - 1), r.dim(0, mh as i64 - 1)); m.put_pixel(x, y, Luma([1])) }
        for d in 0..4u32 { let (x, y) = ((cx as u32 + d).min(mw - 1), (cy as u32 + d / 2).min(mh - 1)); m.put_pixel(x, y, Luma([1])) }
        let m = M::Image(m, cx, cy);
        for (w, h) in if mw > mh { [(400u32, 2u32), (7, 3)] } else { [(2, 400), (4, 7)] } { let im: GrayImage = r.img(w, h); gray(r, &im, &m) }
        let im: GrayImage = r.img(6, 6);
        gray(r, &im, &m);
    }
    for w in 0..=3u32 { for h in 0..=3u32 { for _ in 0..6 { let im: GrayImage = r.img(w, h); let m = any_mask(r, 3); gray(r, &im, &m) } } }
    for _ in 0..r.t(350, 6000) {
        let (w, h) = (r.dim(1, 8), r.dim(1, 8));
        let im: GrayImage = r.img(w, h);
        let m = any_mask(r, 4);
        gray(r, &im, &m);
    }
    for (w, h) in [(30u32, 4u32), (3, 40), (1, 60), (280, 1), (1100, 2), (2, 1100), (50, 40)] { for m in [M::Disk(5), M::Square(2), M::Diamond(30), M::Image(GrayImage::from_pixel(9, 2, Luma([3])), 0, 1)] { let im: GrayImage = r.img(w, h); gray(r, &im, &m) } }
}
/// A small image and the large one whose far corner it is; bg in the first m columns and rows.
fn pair(r: &mut Rec, w: u32, h: u32, p: i64, bg: u8, on: u8, m: u32, d: (u32, u32)) -> (GrayImage, GrayImage) {
    let mut a = r.bin(w, h, p, 1);
    for q in a.pixels_mut() { q.0[0] = if q.0[0] == 1 { on } else { bg } }
    margin(&mut a, Luma([bg]), m);
    a.put_pixel(w - 1, h - 2, Luma([on]));
    let big = far(&a, Luma([bg]), d.0, d.1);
    (a, big)
}
fn c13_far(r: &mut Rec) {
    for d in FAR { for p in [4i64, 30] { for n in NORMS {
        let (a, big) = pair(r, 14, 13, p, 0, 255, 1, d);
        r.run(ev("dt").a("im", &a).a("n", n), || { let mut m = big.clone(); distance_transform_mut(&mut m, norm(n)); vec![corner(&distance_transform(&big, norm(n)), 14, 13), corner(&m, 14, 13)] });
    } } }
}
fn c14_far(r: &mut Rec) {
    for d in FAR { for p in [4i64, 30] {
        let (a, big) = pair(r, 14, 13, p, 0, 255, 1, d);
        r.run_as(ev("edt").a("im", &a), || corner(&euclidean_squared_distance_transform(&big), 14, 13), |o, s| {
            let px: Vec<i64> = o.as_raw().iter().map(|&v| if v == f64::INFINITY { 2147483647 } else { fx(v, 1.0) }).collect();
            s.push_str(&format!("{{\"w\":{},\"h\":{},\"c\":1,\"px\":{}}}", o.width(), o.height(), js(&px)));
        });
    } }
}
fn c15_far(r: &mut Rec) {
    // all background near the margin: dilation and closing stay inside it for small k
    let v: [(&str, fn(&GrayImage, Norm, u8) -> GrayImage); 4] = [("dilate", dilate), ("erode", erode), ("open", open), ("close", close)];
    for d in FAR { for n in NORMS { for k in [1u8, 2] {
        let p = r.pick(&[8i64, 70]);
        let (a, big) = pair(r, 16, 15, p, 0, 255, 3, d);
        for (f, g) in v { r.run(ev("morph").a("im", &a).a("f", f).a("n", n).a("k", &k), || vec![corner(&g(&big, norm(n), k), 16, 15)]); }
    } } }
}
fn c16_far(r: &mut Rec) {
    let v: [(&str, fn(&GrayImage, &Mask) -> GrayImage); 4] = [("dilate", grayscale_dilate), ("erode", grayscale_erode), ("open", grayscale_open), ("close", grayscale_close)];
    for d in FAR { for m in [M::Disk(2), M::Square(1), M::Image(GrayImage::from_pixel(3, 2, Luma([3])), 1, 0)] {
        let mut a: GrayImage = r.img(18, 17);
        margin(&mut a, Luma([60]), 5);
        let big = far(&a, Luma([60]), d.0, d.1);
        for (f, g) in v { r.run(ev("gray").a("im", &a).a("f", f).a("m", &m), || corner(&g(&big, &m.mask()), 18, 17)); }
    } }
}
// Middling images, radii and masks.
fn mid(r: &mut Rec) {
    for i in 0..r.t(16, 160) {
        let (w, h) = (r.dim(15, 70), r.dim(15, 70));
        let n = r.pick(&[1i64, 3, 10, 40]);
        let a = if i % 3 == 0 { let p = r.pick(&[2i64, 20]); r.bin(w, h, p, 255) } else { sparse(r, w, h, n) };
        match r.prop.as_str() {
            "C13" => dt(r, &a),
            "C14" => edt(r, &a),
            "C15" => {
                let (n, k) = (NORMS[i % 3], r.dim(3, 30) as u8);
                mo(r, &a, n, k);
                let k = r.dim(1, 4) as u8;
                let mut a = r.scene(w.min(40), h.min(40));
                for p in a.pixels_mut() { p.0[0] = if p.0[0] > 120 { 255 } else { 0 } }
                mo(r, &a, n, k);
            }
            _ => {
                let (w, h) = (r.dim(15, 36), r.dim(15, 36));
                let a = r.mid(w, h);
                let m = match i % 4 {
                    0 => M::Disk(r.dim(4, 8) as u8),
                    1 => M::Diamond(r.dim(5, 10) as u8),
                    2 => M::Square(r.dim(3, 6) as u8),
                    _ => {
                        let (mw, mh) = (r.dim(5, 15), r.dim(5, 15));
                        let p = r.pick(&[10i64, 50, 90]);
                        M::Image(r.bin(mw, mh, p, 9), r.dim(0, 16) as u8, r.dim(0, 16) as u8)
                    }
                };
                gray(r, &a, &m);
            }
        }
    }
}
fn main() {
    let mut r = Rec::start();
    match r.prop.as_str() { "C13" => { c13(&mut r); c13_far(&mut r) } "C14" => { c14(&mut r); c14_far(&mut r) } "C15" => { c15(&mut r); c15_far(&mut r) } _ => { c16(&mut r); c16_far(&mut r) } }
    mid(&mut r);
    r.finish();
}
