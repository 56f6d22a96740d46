use image::{GrayImage, Luma, Pixel, Rgb, Rgba};
use imageproc::definitions::Image;
use imageproc::geometric_transformations::*;
use std::f32::consts::PI;
use vh::*;

fn rots<P: Pixel<Subpixel = u8>>(r: &mut Rec, im: &Image<P>) {
    r.run(ev("rots").a("im", im), || {
        let mut m = im.clone();
        rotate180_mut(&mut m);
        vec![rotate90(im), rotate180(im), m, rotate270(im)]
    });
}
/// The image is the far corner of a large one of background.
fn c02_far(r: &mut Rec) {
    for (dx, dy) in FAR { for _ in 0..3 {
        let (w, h) = (r.dim(3, 12), r.dim(3, 12));
        let (mut im, bg): (Image<Rgb<u8>>, _) = (r.img(w, h), Rgb([3, 250, 77]));
        let big = far(&im, bg, dx, dy);
        r.run(ev("rots").a("im", &im), || {
            let mut m = big.clone();
            rotate180_mut(&mut m);
            vec![cut_only(&rotate90(&big), bg, 0, dx, h, w), cut_only(&rotate180(&big), bg, 0, 0, w, h), cut_only(&m, bg, 0, 0, w, h), cut_only(&rotate270(&big), bg, dy, 0, h, w)]
        });
        margin(&mut im, bg, 1);
        let big = far(&im, bg, dx, dy);
        for (tx, ty) in [(r.range(-13, 13) as i32, r.range(-13, 13) as i32), (1, 0), (0, 1), (-2, 3)] {
            r.run(ev("translate").a("im", &im).a("tx", &tx).a("ty", &ty), || corner(&translate(&big, (tx, ty)), w, h));
        }
        // moved out of the image by far, the last pixels show the first column or row, the last ones its corner
        let (tx, ty) = (-(dx as i32), -(dy as i32));
        r.run(ev("translate").a("im", &im).a("tx", &0).a("ty", &0), || cut(&translate(&big, (tx, ty)), 0, 0, w, h));
        let near: Image<Rgb<u8>> = r.img(w, h);
        let mut v = near.clone();
        for q in v.pixels_mut() { *q = bg }
        // brought in from the near corner
        r.run(ev("translate").a("im", &near).a("tx", &0).a("ty", &0), || {
            let mut b = Image::from_pixel(w + dx, h + dy, bg);
            for (x, y, q) in near.enumerate_pixels() { b.put_pixel(x, y, *q) }
            cut(&translate(&b, (dx as i32, dy as i32)), dx, dy, w, h)
        });
    } }
}
fn c02(r: &mut Rec) {
    c02_far(r);
    for w in 0..=5u32 {
        for h in 0..=5u32 {
            let im: GrayImage = Image::from_fn(w, h, |x, y| Luma([(10 * y + x + 1) as u8]));
            rots(r, &im);
            for tx in -7i32..=7 {
                for ty in -7i32..=7 {
                    if !r.thorough && (tx + ty) % 2 != 0 && w > 3 { continue }
                    r.run(ev("translate").a("im", &im).a("tx", &tx).a("ty", &ty), || translate(&im, (tx, ty)));
                }
            }
        }
    }
    for _ in 0..r.t(300, 6000) {
        let (w, h) = (r.dim(0, 9), r.dim(0, 9));
        let a: Image<Rgb<u8>> = r.img(w, h);
        rots(r, &a);
        {
            let (tx, ty) = (r.range(-5, 5) as i32, r.range(-5, 5) as i32);
            let c: Image<image::Rgba<u8>> = r.img(w, h);
            rots(r, &c);
            r.run(ev("translate").a("im", &c).a("tx", &tx).a("ty", &ty), || translate(&c, (tx, ty)));
            let c: Image<image::LumaA<u8>> = r.img(w, h);
            rots(r, &c);
            r.run(ev("translate").a("im", &c).a("tx", &tx).a("ty", &ty), || translate(&c, (tx, ty)));
        }
        let big = r.pick(&[1000000000i64, -1000000000, 100000, -65536, 256, -256, 13, -13]);
        for (tx, ty) in [(r.range(-10, 10), r.range(-10, 10)), (big, r.range(-3, 3)), (r.range(-3, 3), big)] {
            r.run(ev("translate").a("im", &a).a("tx", &tx).a("ty", &ty), || translate(&a, (tx as i32, ty as i32)));
        }
    }
    for (w, h) in [(40u32, 25u32), (1, 90), (90, 1), (31, 2), (16, 16)] {
        let a: Image<Rgb<u8>> = r.img(w, h);
        rots(r, &a);
        for (tx, ty) in [(w as i32 - 1, 0), (w as i32, h as i32), (-(w as i32), -(h as i32)), (1 - w as i32, h as i32 - 1), (5, -7)] {
            r.run(ev("translate").a("im", &a).a("tx", &tx).a("ty", &ty), || translate(&a, (tx, ty)));
        }
    }
    for (w, h) in [(1300u32, 1u32), (1, 1300), (700, 2), (2, 700), (280, 300)] {
        let a: GrayImage = r.img(w, h);
        rots(r, &a);
        for (tx, ty) in [(w as i32 / 2, 0), (0, -(h as i32) / 2), (-(w as i32) + 1, 1), (-259, 257), (300, 600), (1 - w as i32, h as i32 - 1)] {
            if w * h > 2000 && tx != -259 { continue }
            r.run(ev("translate").a("im", &a).a("tx", &tx).a("ty", &ty), || translate(&a, (tx, ty)));
        }
    }
    // any offset at least as large as the image is as good as any other: the log saturates them
    for _ in 0..r.t(30, 300) {
        let (w, h) = (r.dim(1, 6), r.dim(1, 6));
        let a: GrayImage = r.img(w, h);
        let far = [i32::MAX, i32::MIN, i32::MAX - 1, i32::MIN + 1, i32::MIN + w as i32, i32::MAX - h as i32];
        let (tx, ty) = match r.range(0, 2) { 0 => (r.pick(&far), r.range(-3, 3) as i32), 1 => (r.range(-3, 3) as i32, r.pick(&far)), _ => (r.pick(&far), r.pick(&far)) };
        let s = |v: i32| v.clamp(-1 << 30, 1 << 30);
        r.run(ev("translate").a("im", &a).a("tx", &s(tx)).a("ty", &s(ty)), || translate(&a, (tx, ty)));
    }
    for _ in 0..r.t(150, 2000) {
        let (w, h) = (r.dim(0, 6), r.dim(0, 6));
        let mut im: Image<Rgb<u8>> = r.img(w, h);
        r.run(ev("begin").a("im", &im), || 0);
        for _ in 0..8 {
            let m = im.clone();
            let o = match r.range(0, 4) {
                0 => r.run(ev("s_rot90").cont(), || rotate90(&m)),
                1 => r.run(ev("s_rot180").cont(), || rotate180(&m)),
                2 => r.run(ev("s_rot180").cont(), || { let mut k = m.clone(); rotate180_mut(&mut k); k }),
                3 => r.run(ev("s_rot270").cont(), || rotate270(&m)),
                _ => {
                    let (tx, ty) = (r.range(-3, 3) as i32, r.range(-3, 3) as i32);
                    r.run(ev("s_translate").cont().a("tx", &tx).a("ty", &ty), || translate(&m, (tx, ty)))
                }
            };
            match o { Some(o) => im = o, None => break }
        }
    }
}

type M = [i64; 9];
fn fm(m: &M) -> [f32; 9] {
    let mut o = [0f32; 9];
    for i in 0..9 { o[i] = m[i] as f32 }
    o
}
fn mul(a: &M, b: &M) -> M {
    let mut o = [0; 9];
    for r in 0..3 { for c in 0..3 { o[3 * r + c] = (0..3).map(|k| a[3 * r + k] * b[3 * k + c]).sum() } }
    o
}
fn det(m: &M) -> i64 {
    m[0] * (m[4] * m[8] - m[5] * m[7]) - m[1] * (m[3] * m[8] - m[5] * m[6]) + m[2] * (m[3] * m[7] - m[4] * m[6])
}
fn adj(m: &M) -> M {
    [m[4]*m[8]-m[5]*m[7], m[2]*m[7]-m[1]*m[8], m[1]*m[5]-m[2]*m[4], m[5]*m[6]-m[3]*m[8], m[0]*m[8]-m[2]*m[6], m[2]*m[3]-m[0]*m[5], m[3]*m[7]-m[4]*m[6], m[1]*m[6]-m[0]*m[7], m[0]*m[4]-m[1]*m[3]]
}
fn reduce(m: &M) -> M {
    fn g(a: i64, b: i64) -> i64 { if b == 0 { a.abs() } else { g(b, a % b) } }
    let d = m.iter().fold(0, |a, &v| g(a, v));
    if d == 0 { *m } else { m.map(|v| v / d) }
}
fn ip(c: &str) -> Interpolation {
    match c { "n" => Interpolation::Nearest, "l" => Interpolation::Bilinear, _ => Interpolation::Bicubic }
}
/// The largest value of a sample.
trait Top { const TOP: i64; fn other(&self) -> Self; }
macro_rules! top { ($p:ident, $t:ty, $m:expr) => { impl Top for $p<$t> { const TOP: i64 = $m; fn other(&self) -> Self { self.map(|v| if v > 9 as $t { 1 as $t } else { 77 as $t }) } } } }
top!(Luma, u8, 255); top!(Rgb, u8, 255); top!(Rgba, u8, 255); top!(Luma, u16, 65535); top!(Rgb, u16, 65535); top!(Luma, f32, 0);
fn stale<P: Pixel + Top>(o: &mut Image<P>, def: P) { for p in o.pixels_mut() { *p = def.other() } }
/// Warps by the sampling map m (output -> input), through every entry point that can express it.
fn warps<P>(r: &mut Rec, im: &Image<P>, m: &M, i: &str, def: P, w: u32, h: u32, proj: bool)
where P: Pixel + Send + Sync + Top, P::Subpixel: J + Into<f32> + imageproc::definitions::Clamp<f32> + Send + Sync {
    let e = ev("warp").a("im", im).a("m", &m[..]).a("i", i).a("d", def.channels()).a("w", &w).a("h", &h).a("mx", &P::TOP);
    let f = fm(m);
    r.run(e, || {
        let map = move |x: f32, y: f32| {
            let d = f[6] * x + f[7] * y + f[8];
            ((f[0] * x + f[1] * y + f[2]) / d, (f[3] * x + f[4] * y + f[5]) / d)
        };
        let mut outs = vec![];
        // stale content must be overwritten everywhere
        let mut o = Image::from_pixel(w, h, def);
        stale(&mut o, def);
        warp_into_with(im, map, ip(i), def, &mut o);
        outs.push(o);
        if (w, h) == im.dimensions() { outs.push(warp_with(im, map, ip(i), def)) }
        if proj {
            let p = Projection::from_matrix(f).expect("invertible").invert();
            let mut o = Image::from_pixel(w, h, def);
            stale(&mut o, def);
            warp_into(im, &p, ip(i), def, &mut o);
            outs.push(o);
            if (w, h) == im.dimensions() { outs.push(warp(im, &p, ip(i), def)) }
        }
        outs
    });
}
/// The image is the far corner of a large one of background, the default; a margin of background keeps the
/// interpolation there from telling it from the default.
fn c03_far(r: &mut Rec) {
    for (dx, dy) in FAR { for i in ["n", "l", "c"] {
        let (w, h) = (r.dim(9, 14), r.dim(9, 14));
        let (mut im, bg): (GrayImage, _) = (r.img(w, h), Luma([40]));
        margin(&mut im, bg, 5);
        let big = far(&im, bg, dx, dy);
        let (a, b) = (dx as i64, dy as i64);
        let mut ms: Vec<(M, M)> = vec![];
        for _ in 0..3 { let (tx, ty) = (r.range(-8, 8), r.range(-8, 8)); ms.push(([2, 0, tx, 0, 2, ty, 0, 0, 2], [2, 0, tx, 0, 2, ty, 0, 0, 2])) }
        // mirrored at the far corner: x' = 2 dx + w - 1 - x
        ms.push(([-1, 0, w as i64 - 1, 0, 1, 0, 0, 0, 1], [-1, 0, 2 * a + w as i64 - 1, 0, 1, 0, 0, 0, 1]));
        ms.push(([1, 0, 0, 0, -1, h as i64 - 1, 0, 0, 1], [1, 0, 0, 0, -1, 2 * b + h as i64 - 1, 0, 0, 1]));
        for (m, f) in ms {
            let f = fm(&f);
            r.run(ev("warp").a("mx", &255).a("im", &im).a("m", &m[..]).a("i", i).a("d", bg.channels()).a("w", &w).a("h", &h), || {
                let map = move |x: f32, y: f32| { let d = f[6] * x + f[7] * y + f[8]; ((f[0] * x + f[1] * y + f[2]) / d, (f[3] * x + f[4] * y + f[5]) / d) };
                let p = Projection::from_matrix(f).expect("invertible").invert();
                let mut o = Image::from_pixel(w + dx, h + dy, Luma([9]));
                let mut q = o.clone();
                warp_into_with(&big, map, ip(i), bg, &mut o);
                warp_into(&big, &p, ip(i), bg, &mut q);
                [o, q, warp(&big, &p, ip(i), bg), warp_with(&big, map, ip(i), bg)].iter().map(|o| corner(o, w, h)).collect::<Vec<_>>()
            });
        }
    } }
}
/// Warps of a real-valued image of whole numbers: the event shows 256 times what came out.
fn warpf(r: &mut Rec, im: &GrayImage, m: &M, i: &str, def: u8, w: u32, h: u32, proj: bool) {
    let e = ev("warpf").a("im", im).a("m", &m[..]).a("i", i).a("d", &[def]).a("w", &w).a("h", &h);
    let f = fm(m);
    let im: Image<Luma<f32>> = Image::from_raw(im.width(), im.height(), im.iter().map(|&v| v as f32).collect()).unwrap();
    let def = Luma([def as f32]);
    r.run(e, || {
        let map = move |x: f32, y: f32| { let d = f[6] * x + f[7] * y + f[8]; ((f[0] * x + f[1] * y + f[2]) / d, (f[3] * x + f[4] * y + f[5]) / d) };
        let mut o = Image::from_pixel(w, h, Luma([9.5]));
        warp_into_with(&im, map, ip(i), def, &mut o);
        let mut outs = vec![o];
        if (w, h) == im.dimensions() { outs.push(warp_with(&im, map, ip(i), def)) }
        if proj {
            let p = Projection::from_matrix(f).expect("invertible").invert();
            let mut o = Image::from_pixel(w, h, Luma([-3.0]));
            warp_into(&im, &p, ip(i), def, &mut o);
            outs.push(o);
            if (w, h) == im.dimensions() { outs.push(warp(&im, &p, ip(i), def)) }
        }
        outs.iter().map(|o| Raw(format!("{{\"w\":{},\"h\":{},\"c\":1,\"px\":{}}}", o.width(), o.height(), js(&o.iter().map(|&v| fr(v as f64, 256.0)).collect::<Vec<_>>())))).collect::<Vec<_>>()
    });
}
fn warps_tol<P: Pixel<Subpixel = u8> + Send + Sync>(r: &mut Rec, im: &Image<P>, m: &M, i: &str, def: P, w: u32, h: u32) {
    let f = fm(m);
    r.run(ev("warp_tol").a("im", im).a("m", &m[..]).a("i", i).a("d", def.channels()).a("w", &w).a("h", &h), || {
        let map = move |x: f32, y: f32| { let d = f[6] * x + f[7] * y + f[8]; ((f[0] * x + f[1] * y + f[2]) / d, (f[3] * x + f[4] * y + f[5]) / d) };
        let mut o = Image::from_pixel(w, h, def);
        warp_into_with(im, map, ip(i), def, &mut o);
        let mut outs = vec![o];
        if det(m) != 0 {
            let p = Projection::from_matrix(f).expect("invertible").invert();
            let mut o = Image::from_pixel(w, h, def);
            warp_into(im, &p, ip(i), def, &mut o);
            outs.push(o);
        }
        outs
    });
}
/// Other kinds of samples, maps that pass through infinity, pictures of a few dozen pixels a side.
fn c03_more(r: &mut Rec) {
    for _ in 0..r.t(120, 1500) {
        let (w, h) = (r.dim(4, 12), r.dim(4, 12));
        let (ow, oh) = if r.range(0, 2) == 0 { (r.dim(0, 9), r.dim(0, 9)) } else { (w, h) };
        let i = r.pick(&["n", "l", "c"]);
        let q = if i == "c" { r.pick(&[1i64, 2]) } else { r.pick(&[1i64, 2, 4]) };
        let m: M = match r.range(0, 2) {
            0 => [q, 0, r.range(-8, 8), 0, q, r.range(-8, 8), 0, 0, q],
            1 => [r.range(-4, 4), 0, r.range(-8, 16), 0, r.range(-4, 4), r.range(-8, 16), 0, 0, q],
            _ => [r.range(-3, 3), r.range(-3, 3), r.range(-8, 16), r.range(-3, 3), r.range(-3, 3), r.range(-8, 16), 0, 0, q],
        };
        let g = r.mid(w, h);
        warpf(r, &g, &m, i, 90, ow, oh, det(&m) != 0);
        let top = r.pick(&[255i64, 4096, 65535]);
        let im: Image<Luma<u16>> = Image::from_raw(w, h, r.samples((w * h) as usize, top).into_iter().map(|v| v as u16).collect()).unwrap();
        warps(r, &im, &m, i, Luma([40000]), ow, oh, det(&m) != 0);
        let im: Image<Rgb<u16>> = Image::from_raw(w, h, r.samples((3 * w * h) as usize, top).into_iter().map(|v| v as u16).collect()).unwrap();
        warps(r, &im, &m, i, Rgb([1, 300, 65535]), ow, oh, det(&m) != 0);
        let im: Image<Rgba<u8>> = r.img(w, h);
        warps(r, &im, &m, i, Rgba([1, 30, 255, 0]), ow, oh, det(&m) != 0);
    }
    for k in 0..r.t(120, 1500) {
        let big = k % 4 == 0;
        let (w, h) = if big { (r.dim(16, 40), r.dim(16, 40)) } else { (r.dim(3, 12), r.dim(3, 12)) };
        let (ow, oh) = (r.dim(3, if big { 40 } else { 12 }), r.dim(3, if big { 40 } else { 12 }));
        let im = r.mid(w, h);
        // the denominator vanishes along a line, here or there
        let m: M = [r.range(-3, 3), r.range(-3, 3), r.range(-12, 24), r.range(-3, 3), r.range(-3, 3), r.range(-12, 24), r.range(-1, 1), r.range(-1, 1), r.range(-9, 9)];
        warps_tol(r, &im, &m, "n", Luma([9]), ow, oh);
        warps_tol(r, &im, &m, "l", Luma([9]), ow, oh);
        // a tilted view of the whole picture
        let q = 64 * w as i64;
        let (a, b, t) = (r.range(-20, 20), r.range(-20, 20), r.range(-2, 2));
        let m: M = [q + r.range(-40, 40) * 8, r.range(-40, 40) * 8, t * q, r.range(-40, 40) * 8, q + r.range(-40, 40) * 8, -t * q, a, b, q];
        if k % 3 == 0 { warps_tol(r, &im, &m, "l", Luma([9]), w, h); warps_tol(r, &im, &m, "n", Luma([9]), w, h) }
    }
    for k in 0..r.t(24, 200) {
        let (w, h) = (r.dim(16, 44), r.dim(16, 44));
        let (ow, oh) = if k % 3 == 0 { (r.dim(10, 60), r.dim(10, 60)) } else { (w, h) };
        let im = r.mid(w, h);
        let q = r.pick(&[4i64, 8, 16]);
        // near a rotation with shear and scale
        let (c, s) = (r.range(-q, 2 * q), r.range(-q, q));
        let m: M = [c + r.range(-1, 1), s, r.range(-8, 24) * q / 2, -s, c, r.range(-8, 24) * q / 2, 0, 0, q];
        for i in ["n", "l", "c"] { warps(r, &im, &m, i, Luma([9]), ow, oh, det(&m) != 0) }
    }
}
fn c03(r: &mut Rec) {
    c03_far(r);
    c03_more(r);
    // integer and dyadic translations, all interpolations, every small shape
    for w in 1..=6u32 { for h in 1..=6u32 {
        if !r.thorough && w * h > 20 && (w + h) % 2 == 1 { continue }
        let im: GrayImage = r.img(w, h);
        for tx in -3..=3i64 { for ty in -2..=2i64 { for i in ["n", "l", "c"] {
            if i == "c" && (w < 5 || h < 5) && tx != 0 { continue }
            warps(r, &im, &[2, 0, tx, 0, 2, ty, 0, 0, 2], i, Luma([7]), w, h, true);
        } } }
    } }
    for _ in 0..r.t(500, 10000) {
        let (w, h) = (r.dim(1, 9), r.dim(1, 9));
        let i = r.pick(&["n", "l", "c"]);
        let q = r.pick(&[1i64, 2, 4]);
        let m: M = match r.range(0, 4) {
            0 => [q, 0, r.range(-8, 8), 0, q, r.range(-8, 8), 0, 0, q],
            1 => [r.range(-4, 4), 0, r.range(-8, 16), 0, r.range(-4, 4), r.range(-8, 16), 0, 0, q],
            2 => { let s = r.range(-1, 1); [s, 1 - s.abs(), r.range(-2, 8), 1 - s.abs(), s, r.range(-2, 8), 0, 0, 1] }
            _ => [r.range(-3, 3), r.range(-3, 3), r.range(-8, 16), r.range(-3, 3), r.range(-3, 3), r.range(-8, 16), 0, 0, q],
        };
        let (ow, oh) = if r.range(0, 2) == 0 { (r.dim(0, 9), r.dim(0, 9)) } else { (w, h) };
        let im: Image<Rgb<u8>> = r.img(w, h);
        let d = Rgb([r.dim(0, 255) as u8, 17, 255]);
        warps(r, &im, &m, i, d, ow, oh, det(&m) != 0);
        // projective sampling map, nearest only (division is not exact)
        let m: M = [r.range(-3, 3), r.range(-3, 3), r.range(-8, 16), r.range(-3, 3), r.range(-3, 3), r.range(-8, 16), r.range(0, 1), r.range(0, 2), r.pick(&[1i64, 2, 4])];
        let im: GrayImage = r.img(w, h);
        warps(r, &im, &m, "n", Luma([9]), ow, oh, det(&m) != 0);
    }
    for (w, h) in [(24u32, 17u32), (40, 3), (3, 40)] {
        let im: GrayImage = r.img(w, h);
        for i in ["n", "l", "c"] {
            warps(r, &im, &[2, 1, -3, -1, 2, 5, 0, 0, 2], i, Luma([3]), w, h, true);
            warps(r, &im, &[3, 0, 5, 0, 1, 2, 0, 0, 4], i, Luma([3]), w, h, true);
        }
    }
    // near-identity, near-affine and strongly shrinking maps: classification of the matrix and the
    // invertibility test must not round these off
    for q in [128i64, 256, 2048, 8192] {
        for (w, h) in [(300u32, 2u32), (2, 300), (1100, 1), (1, 1100), (150, 4)] {
            let im: GrayImage = r.img(w, h);
            let t = r.range(-2, 2) * q / 2;
            for i in ["n", "l"] {
                for m in [[q + 1, 0, t, 0, q, 0, 0, 0, q], [q, 0, t, 0, q - 1, q, 0, 0, q], [q, 1, t, 0, q, 0, 0, 0, q], [q, 0, 0, -1, q, t, 0, 0, q], [q - 1, 1, 0, -1, q + 1, 0, 0, 0, q]] {
                    warps(r, &im, &m, i, Luma([3]), w, h, true);
                }
            }
            // near-affine: the last row is almost (0, 0, 1)
            for m in [[q, 0, 0, 0, q, 0, 1, 0, q], [q, 0, t, 0, q, 0, 0, 1, q], [q, 1, 0, 0, q, t, 1, 1, q]] {
                warps(r, &im, &m, "n", Luma([3]), w, h, true);
            }
        }
        let im: GrayImage = r.img(9, 7);
        warps(r, &im, &[1, 0, 0, 0, 1, 0, 0, 0, q], "n", Luma([3]), 40, 30, true);
        warps(r, &im, &[1, 0, 0, 0, -1, 4 * q, 0, 0, q], "l", Luma([3]), 40, 30, true);
        warps(r, &im, &[q, 0, 0, 0, q, 0, 0, 0, 1], "n", Luma([3]), 9, 7, true);
    }
    // rotations by angles with rational sine and cosine, about any centre; position error allowed
    let trip: [(i64, i64, i64); 5] = [(3, 4, 5), (4, 3, 5), (5, 12, 13), (8, 15, 17), (-3, 4, 5)];
    for k in 0..r.t(60, 1500) {
        let (sn, cs, d) = trip[(k % 5) as usize];
        let (sn, cs) = if r.range(0, 1) == 0 { (sn, cs) } else { (-sn, -cs) };
        let th = (sn as f32).atan2(cs as f32);
        let (w, h) = (r.dim(1, 14), r.dim(1, 14));
        let im: Image<Rgb<u8>> = r.img(w, h);
        let i = r.pick(&["n", "l"]);
        let about = r.range(0, 1) == 0;
        let (cx2, cy2) = if about { (w as i64, h as i64) } else { (r.range(-4, 2 * w as i64), r.range(-4, 2 * h as i64)) };
        // x' = (c(x-cx) + s(y-cy))/d + cx,  y' = (-s(x-cx) + c(y-cy))/d + cy, times 2d
        let m: M = [2 * cs, 2 * sn, d * cx2 - cs * cx2 - sn * cy2, -2 * sn, 2 * cs, d * cy2 + sn * cx2 - cs * cy2, 0, 0, 2 * d];
        let (def, c) = (Rgb([5u8, 200, 90]), (cx2 as f32 / 2.0, cy2 as f32 / 2.0));
        let e = ev("warp_tol").a("im", &im).a("m", &m[..]).a("i", i).a("d", def.channels()).a("w", &w).a("h", &h);
        r.run(e, || {
            let p = Projection::translate(-c.0, -c.1).and_then(Projection::rotate(th)).and_then(Projection::translate(c.0, c.1));
            let mut o = Image::from_pixel(w, h, Rgb([9, 9, 9]));
            warp_into(&im, &p, ip(i), def, &mut o);
            vec![if about { rotate_about_center(&im, th, ip(i), def) } else { rotate(&im, c, th, ip(i), def) },
                 rotate(&im, c, th, ip(i), def), warp(&im, &p, ip(i), def), o]
        });
        // anisotropic scaling by thirds, then the rotation
        let (a, b) = (r.pick(&[1i64, 2, 4, 5]), r.pick(&[1i64, 2, 3, 6]));
        let m: M = [3 * b * cs, 3 * b * sn, 0, -3 * a * sn, 3 * a * cs, 0, 0, 0, a * b * d];
        let e = ev("warp_tol").a("im", &im).a("m", &m[..]).a("i", i).a("d", def.channels()).a("w", &w).a("h", &h);
        r.run(e, || {
            let p = Projection::scale(a as f32 / 3.0, b as f32 / 3.0).and_then(Projection::rotate(th));
            vec![warp(&im, &p, ip(i), def)]
        });
    }
    // rotate / rotate_about_center by quarter turns (nearest), and by zero (all interpolations)
    for w in 1..=6u32 { for h in 1..=6u32 {
        let im: GrayImage = r.img(w, h);
        for k in -2i64..=4 {
            let (s, c) = [(0i64, 1i64), (1, 0), (0, -1), (-1, 0)][(k.rem_euclid(4)) as usize];
            for about in 0..2 {
                // doubled centre; its parity must make sample coordinates integral
                let (cx2, cy2) = if about == 0 { (w as i64, h as i64) } else { (r.range(0, w as i64) * 2, r.range(0, h as i64) * 2) };
                if (cx2 + cy2) % 2 != 0 { continue }
                // inverse rotation: x' = c(x-cx) + s(y-cy) + cx, y' = -s(x-cx) + c(y-cy) + cy
                let m: M = [2 * c, 2 * s, cx2 - c * cx2 - s * cy2, -2 * s, 2 * c, cy2 + s * cx2 - c * cy2, 0, 0, 2];
                for i in ["n", "l", "c"] {
                    if i != "n" && k != 0 { continue }
                    let e = ev("warp").a("mx", &255).a("im", &im).a("m", &m[..]).a("i", i).a("d", &[5u8]).a("w", &w).a("h", &h);
                    let th = k as f32 * PI / 2.0;
                    r.run(e, || vec![if about == 0 { rotate_about_center(&im, th, ip(i), Luma([5])) } else {
                        rotate(&im, (cx2 as f32 / 2.0, cy2 as f32 / 2.0), th, ip(i), Luma([5])) }]);
                }
            }
        }
    } }
    // algebra sessions
    let pts: Vec<(i64, i64)> = vec![(0, 0), (1, 0), (0, 1), (3, 5), (-2, 4), (7, -3)];
    for _ in 0..r.t(700, 20000) {
        let mut p = Projection::translate(0.0, 0.0);
        let mut cur: M = [1, 0, 0, 0, 1, 0, 0, 0, 1];
        r.run(ev("p_begin"), || 0);
        for _ in 0..6 {
            let mut inv = false;
            let (m, q): (M, Projection) = match r.range(0, 6) {
                0 | 1 => { let (a, b) = (r.range(-4, 4), r.range(-4, 4)); ([1, 0, a, 0, 1, b, 0, 0, 1], Projection::translate(a as f32, b as f32)) }
                2 => {
                    let (a, b) = (r.pick(&[1i64, 2, 4, -1, -2]), r.pick(&[1i64, 2, 4, -1]));
                    if r.range(0, 1) == 0 { ([a, 0, 0, 0, b, 0, 0, 0, 1], Projection::scale(a as f32, b as f32)) }
                    else { ([b, 0, 0, 0, a, 0, 0, 0, a * b], Projection::scale(1.0 / a as f32, 1.0 / b as f32)) }
                }
                3 => { let k = r.range(0, 3); let (s, c) = [(0i64, 1i64), (1, 0), (0, -1), (-1, 0)][k as usize];
                       ([c, -s, 0, s, c, 0, 0, 0, 1], Projection::rotate(k as f32 * PI / 2.0)) }
                4 => { inv = true; (cur, p) }
                5 => { let mut m: M = [0; 9]; loop { for v in m.iter_mut() { *v = 0 } ; m[8] = r.pick(&[1i64, 2]); for k in 0..6 { m[k] = r.range(-2, 2) } if det(&m) != 0 { break } }
                       (m, Projection::from_matrix(fm(&m)).unwrap()) }
                _ => { let mut m: M = [0; 9]; loop { for k in 0..9 { m[k] = r.range(-2, 2) } if det(&m) != 0 { break } }
                       (m, match Projection::from_matrix(fm(&m)) { Some(p) => p, None => break }) }
            };
            let obs = |p: Projection| -> Vec<(i64, i64, i64, i64)> { pts.iter().map(|&(x, y)| { let o = p * (x as f32, y as f32); (x, y, fr(o.0 as f64, 1024.0), fr(o.1 as f64, 1024.0)) }).collect() };
            let (next, np, e) = if inv { (reduce(&adj(&cur)), catch(|| p.invert()), ev("p_invert").cont()) }
                else if r.range(0, 1) == 0 { (reduce(&mul(&m, &cur)), catch(|| p.and_then(q)), ev("p_then").cont().a("m", &m[..])) }
                else if r.range(0, 1) == 0 { (reduce(&mul(&cur, &m)), catch(|| p * q), ev("p_before").cont().a("m", &m[..])) }
                else { (reduce(&mul(&cur, &m)), catch(|| &p * &q), ev("p_before").cont().a("m", &m[..])) };
            // stop while the integers and the float conditioning stay small
            if next.iter().any(|v| v.abs() > 60) { break }
            let bad = pts.iter().any(|&(x, y)| { let d = next[6] * x + next[7] * y + next[8]; let a = next[0] * x + next[1] * y + next[2]; let b = next[3] * x + next[4] * y + next[5]; d != 0 && (a.abs().max(b.abs()) > 400 * d.abs() || d.abs() > 300) });
            if bad { break }
            let np = match np { Some(v) => v, None => break };
            if r.run(e, || obs(np)).is_none() { break }
            p = np; cur = next;
        }
    }
    for (a, b, s) in [(0i64, 0i64, 0i64), (1, 0, 0), (0, 1, 0), (-1, 0, 0), (0, -1, 0), (1, -1, 0), (2, 1, 0), (-1, 1, 2), (0, 0, 2), (0, 0, -2), (0, 0, 3), (0, 0, 100), (1, 1, 900)] {
        let us: Vec<(i64, i64)> = vec![(0, 0), (16, 16), (16, 0), (0, 16), (3, 9), (15, 2)];
        r.run(ev("faint").a("a", &a).a("b", &b).a("s", &s), || {
            let f = |v: i64| v as f32 / 262144.0;
            Projection::from_matrix([1.0 + f(s), 0.0, 0.0, 0.0, 1.0 + f(s), 0.0, f(a), f(b), 1.0]).map(|p| us.iter().map(|&(u, v)| {
                let o = p * (4096.0 * u as f32, 4096.0 * v as f32);
                let w = p.invert() * o;
                let k = |z: f32| fr(z as f64, 16.0);
                (u, v, k(o.0), k(o.1), k(w.0), k(w.1))
            }).collect::<Vec<_>>())
        });
    }
    for k in 0..r.t(800, 20000) {
        let mut m: M = [0; 9];
        for j in 0..9 { m[j] = r.range(-2, 2) }
        if k % 4 == 0 { m[8] = 0 }
        if k % 5 == 0 { m[6] = 0; m[7] = 0 }
        r.run(ev("from_matrix").a("m", &m[..]), || Projection::from_matrix(fm(&m)).map(|p| {
            let ob = |p: Projection| pts.iter().map(|&(x, y)| { let o = p * (x as f32, y as f32); (x, y, fr(o.0 as f64, 1024.0), fr(o.1 as f64, 1024.0)) }).collect::<Vec<_>>();
            (ob(p), ob(p.invert()))
        }));
    }
    for k in 0..r.t(1500, 40000) {
        let mut quad = || -> Vec<(i64, i64)> {
            // convex quadrilateral with the origin among its corners, then relabelled by a rotation
            let a = r.range(4, 20); let b = r.range(4, 20);
            let (p, q) = (r.range(-2, 2), r.range(-2, 2));
            let c = (a + r.range(0, 6), b + r.range(0, 6));
            vec![(0, 0), (a, p), c, (q, b)]
        };
        let from = quad();
        let mut to = quad();
        let (dx, dy) = (r.range(-10, 10), r.range(-10, 10));
        for t in to.iter_mut() { t.0 += dx; t.1 += dy }
        let s = r.range(0, 3) as usize;
        let mut f2 = from.clone(); f2.rotate_left(s);
        let mut t2 = to.clone(); t2.rotate_left(s);
        if r.range(0, 1) == 1 { f2.reverse(); t2.reverse() }
        if k % 5 == 1 {
            // trapezium whose sides meet on the horizon, which goes through the origin
            let (y, g) = (r.range(1, 6), r.range(2, 5));
            let (p, q, x) = (r.range(-4, 4), r.range(1, 4), r.range(-8, 8));
            f2 = vec![(x + p * y, y), (x + (p + q) * y, y), (x + (p + q) * y * g, y * g), (x + p * y * g, y * g)];
            let (w, h) = (r.range(4, 20), r.range(4, 20));
            t2 = vec![(dx, dy), (dx + w, dy), (dx + w, dy + h), (dx, dy + h)];
        }
        if k % 5 >= 2 {
            // any points, with the ones on a line and equal ones, too
            let m = [2, 5, 12][(k % 5 - 2) as usize];
            for t in f2.iter_mut().chain(t2.iter_mut()) { *t = (r.range(-m, m), r.range(-m, m)) }
            match r.range(0, 5) {
                0 => { let i = r.range(1, 3) as usize; f2[i] = f2[0]; if r.range(0, 1) == 0 { t2[i] = t2[0] } }
                1 => { let v = (r.range(-3, 3), r.range(-3, 3)); let q = if r.range(0, 1) == 0 { &mut f2 } else { &mut t2 };
                       for i in 1..3 { q[i] = (q[0].0 + v.0 * i as i64, q[0].1 + v.1 * i as i64) } }
                _ => {}
            }
        }
        let arr = |v: &Vec<(i64, i64)>| [0, 1, 2, 3].map(|i| (v[i].0 as f32, v[i].1 as f32));
        r.run(ev("control").a("from", &f2).a("to", &t2), || Projection::from_control_points(arr(&f2), arr(&t2)).map(|p| {
            let g = |p: Projection, v: &Vec<(i64, i64)>| v.iter().map(|q| { let o = p * (q.0 as f32, q.1 as f32); (fr(o.0 as f64, 256.0), fr(o.1 as f64, 256.0)) }).collect::<Vec<_>>();
            (g(p, &f2), g(p.invert(), &t2))
        }));
    }
}
fn main() {
    let mut r = Rec::start();
    match r.prop.as_str() {
        "C02" => c02(&mut r),
        _ => c03(&mut r),
    }
    r.finish();
}
