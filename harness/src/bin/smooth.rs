use image::{GrayImage, Luma, Pixel, Rgb, RgbImage, Rgba, RgbaImage};
use imageproc::contrast::kapur_level;
use imageproc::definitions::Image;
use imageproc::filter::bilateral::{bilateral_filter, ColorDistance, GaussianEuclideanColorDistance};
use imageproc::filter::*;
use imageproc::noise::*;
use vh::image::LumaA;
use vh::*;

// ---- C41
struct One;
impl<P> ColorDistance<P> for One { fn color_distance(&self, _: &P, _: &P) -> f32 { 1.0 } }
struct Same;
impl<P: Pixel> ColorDistance<P> for Same where P::Subpixel: PartialEq {
    fn color_distance(&self, a: &P, b: &P) -> f32 { if a.channels() == b.channels() { 1.0 } else { 0.0 } }
}
fn sg(s: i64) -> f32 { s as f32 / 10.0 }
fn blur_f(r: &mut Rec, im: &GrayImage, s: i64) {
    let f: Image<Luma<f32>> = Image::from_fn(im.width(), im.height(), |x, y| Luma([im.get_pixel(x, y)[0] as f32]));
    r.run(ev("blurf").a("im", im).a("s", &s), || {
        let o = gaussian_blur_f32(&f, sg(s));
        Raw(format!("{{\"w\":{},\"h\":{},\"c\":1,\"px\":{}}}", o.width(), o.height(), js(&o.as_raw().iter().map(|&v| fr(v as f64, 100.0)).collect::<Vec<_>>())))
    });
}
macro_rules! bil { ($r:ident, $im:ident, $rad:expr, $s:expr, $sc:expr, $cd:expr) => {{
    let (im, rad, s, sc, cd) = (&$im, $rad, $s, $sc, $cd);
    $r.run(ev("bilateral").a("im", im).a("r", &rad).a("s", &s).a("sc", &sc).a("cd", cd).a("tol", &2), || match cd {
        "gauss" => bilateral_filter(im, rad as u8, sg(s), GaussianEuclideanColorDistance::new(sg(sc))),
        "one" => bilateral_filter(im, rad as u8, sg(s), One),
        _ => bilateral_filter(im, rad as u8, sg(s), Same),
    });
}} }
fn c41(r: &mut Rec) {
    c41_far(r);
    c41_wide(r);
    // one bright pixel shows the whole kernel
    for s in [3i64, 5, 7, 10, 13, 15, 20, 25, 31] {
        let n = 2 * ((2 * s + 9) / 10) as u32 + 3;
        let mut im = GrayImage::new(n, n);
        im.put_pixel(n / 2, n / 2, Luma([255]));
        blur_f(r, &im, s);
        r.run(ev("blur").a("im", &im).a("s", &s), || gaussian_blur_f32(&im, sg(s)));
    }
    for _ in 0..r.t(120, 2500) {
        let (w, h) = (r.dim(0, 12), r.dim(0, 12));
        let s = r.range(1, 40);
        match r.range(0, 4) {
            0 => { let im: RgbImage = r.img(w, h); r.run(ev("blur").a("im", &im).a("s", &s), || gaussian_blur_f32(&im, sg(s))); }
            1 => { let im: RgbaImage = r.img(w, h); r.run(ev("blur").a("im", &im).a("s", &s), || gaussian_blur_f32(&im, sg(s))); }
            2 => { let im: GrayImage = r.img(w, h); r.run(ev("blur").a("im", &im).a("s", &s), || gaussian_blur_f32(&im, sg(s))); }
            _ => { let im: GrayImage = r.img(w, h); blur_f(r, &im, s) }
        }
    }
    // long sides, and kernels wider than the image
    for (w, h, s) in [(90u32, 2u32, 12), (2, 90, 12), (90, 1, 60), (1, 90, 60), (5, 5, 80), (1, 1, 100), (600, 1, 9), (1, 600, 9), (300, 2, 13), (2, 300, 13), (90, 1, 180), (1, 130, 250), (40, 3, 170)] {
        let im: GrayImage = r.img(w, h);
        blur_f(r, &im, s);
        r.run(ev("blur").a("im", &im).a("s", &s), || gaussian_blur_f32(&im, sg(s)));
    }
    for s in [0i64, -1, -10] {
        let im: GrayImage = r.img(3, 3);
        r.run(ev("blur_bad").a("im", &im).a("s", &s), || gaussian_blur_f32(&im, sg(s)));
    }
    for _ in 0..r.t(60, 1200) {
        let (w, h) = (r.dim(0, 9), r.dim(0, 9));
        let s = r.range(3, 30);
        let a = r.range(-8, 16);
        let im: GrayImage = r.img(w, h);
        r.run(ev("sharp").a("im", &im).a("s", &s).a("a", &a), || sharpen_gaussian(&im, sg(s), a as f32 / 4.0));
    }
    for _ in 0..r.t(150, 2500) {
        let rad = r.range(0, 3);
        let (w, h) = (r.dim(0, 6), r.dim(0, 6));
        let s = r.range(5, 40);
        let sc = r.pick(&[10i64, 50, 100, 300, 1000]);
        let cd = r.pick(&["gauss", "gauss", "one", "same"]);
        let mode = r.range(0, 3);
        let near = r.range(0, 1) == 0;
        let base = r.range(0, 200) as u8;
        match mode {
            0 => {
                let mut im: RgbImage = r.img(w, h);
                if near { for v in im.iter_mut() { *v = base + *v % 40 } }
                bil!(r, im, rad, s, sc, cd)
            }
            1 => { let im: RgbaImage = r.img(w, h); bil!(r, im, rad, s, sc, cd) }
            _ => {
                let mut im: GrayImage = r.img(w, h);
                if near { for v in im.iter_mut() { *v = base + *v % 40 } }
                bil!(r, im, rad, s, sc, cd)
            }
        }
    }
    for (w, h) in [(30u32, 2u32), (2, 30), (1100, 1), (1, 1100), (290, 2), (2, 290)] { let im: GrayImage = r.img(w, h); bil!(r, im, 2i64, 20i64, 300i64, "gauss"); }
    for rad in [1i64, 20, 63, 64, 89, 90, 91, 127, 128, 255] {
        let v = r.range(0, 255) as u8;
        let im = GrayImage::from_pixel(2, 1, Luma([v]));
        r.run(ev("bilateral_wide").a("im", &im).a("r", &rad), || bilateral_filter(&im, rad as u8, 3.0, GaussianEuclideanColorDistance::new(10.0)));
    }
}

/// Wide windows over a single row or column: with colours all alike only the positions along it count.
fn c41_wide(r: &mut Rec) {
    for (n, rad, s) in [(14u32, 70i64, 800i64), (9, 128, 400), (6, 255, 1400), (150, 66, 500), (11, 127, 90)] {
        for tall in [false, true] {
            let im: GrayImage = if tall { r.img(1, n) } else { r.img(n, 1) };
            r.run(ev("bilateral_line").a("im", &im).a("r", &rad).a("s", &s), || bilateral_filter(&im, rad as u8, sg(s), One));
        }
    }
}
/// The image is the far corner of a large one of background.
fn c41_far(r: &mut Rec) {
    for (dx, dy) in FAR {
        let (w, h) = (r.dim(4, 9), r.dim(4, 9));
        let (mut im, bg): (GrayImage, _) = (r.img(w, h), Luma([60]));
        margin(&mut im, bg, 1);
        let big = far(&im, bg, dx, dy);
        for s in [5i64, 12] { r.run(ev("blur").a("im", &im).a("s", &s), || corner(&gaussian_blur_f32(&big, sg(s)), w, h)); }
        r.run(ev("sharp").a("im", &im).a("s", &8).a("a", &3), || corner(&sharpen_gaussian(&big, sg(8), 0.75), w, h));
        let (mut im, bg): (RgbImage, _) = (r.img(5, 5), Rgb([60, 9, 200]));
        margin(&mut im, bg, 1);
        let big = far(&im, bg, dx, dy);
        for cd in ["gauss", "one"] {
            r.run(ev("bilateral").a("im", &im).a("r", &1).a("s", &15).a("sc", &300).a("cd", cd).a("tol", &2), || match cd {
                "gauss" => corner(&bilateral_filter(&big, 1, 1.5, GaussianEuclideanColorDistance::new(30.0)), 5, 5),
                _ => corner(&bilateral_filter(&big, 1, 1.5, One), 5, 5),
            });
        }
    }
}

// ---- C44
fn c44(r: &mut Rec) {
    // large images: a few levels, some of them very rare; the image is only described
    for _ in 0..r.t(60, 600) {
        let n = r.range(2, 6);
        let mut lv: Vec<(u8, u32)> = vec![];
        let mut v = r.range(0, 40);
        for _ in 0..n { let c = r.pick(&[1u32, 1, 2, 3000, 5000, 17000, 40]); lv.push((v as u8, c)); v += r.range(1, 40) }
        let mut px: Vec<u8> = lv.iter().flat_map(|l| std::iter::repeat(l.0).take(l.1 as usize)).collect();
        let k = r.range(0, px.len() as i64 - 1) as usize;
        px.rotate_left(k);
        let im = GrayImage::from_raw(px.len() as u32, 1, px).unwrap();
        r.run(ev("kapur_levels").a("levels", &lv), || kapur_level(&im));
    }
    // one pixel in a million: the only two classes there are
    for n in [70_000u32, 180_000, 1_100_000, 2_000_000] {
        let (a, b) = (r.range(0, 120) as u8, r.range(121, 255) as u8);
        let (ca, cb) = r.pick(&[(1, n), (n, 1), (2, n), (n, 3)]);
        let lv = vec![(a, ca), (b, cb)];
        let px: Vec<u8> = lv.iter().flat_map(|l| std::iter::repeat(l.0).take(l.1 as usize)).collect();
        let im = GrayImage::from_raw(px.len() as u32, 1, px).unwrap();
        r.run(ev("kapur_levels").a("levels", &lv), || kapur_level(&im));
    }
    // the same image at another scale
    for _ in 0..r.t(20, 200) {
        let (w, h) = (r.dim(2, 9), r.dim(2, 9));
        let im: GrayImage = r.img(w, h);
        let s = r.pick(&[7u32, 80, 300]);
        let big = blow(&im, s);
        r.run(ev("kapur").a("im", &im), || kapur_level(&big));
    }
    fn go(r: &mut Rec, im: &GrayImage) { r.run(ev("kapur").a("im", im), || kapur_level(im)); }
    for im in all_images(3, 2, &[0, 7, 255]).collect::<Vec<_>>() { go(r, &im) }
    for im in all_images(4, 1, &[0, 1, 254, 255]).collect::<Vec<_>>() { go(r, &im) }
    for v in 0..=255u8 { if r.thorough || v % 16 == 0 || v > 250 { go(r, &GrayImage::from_pixel(2, 2, Luma([v]))) } }
    for _ in 0..r.t(250, 4000) {
        let (w, h) = (r.dim(1, 20), r.dim(1, 20));
        let mut im: GrayImage = r.img(w, h);
        match r.range(0, 3) {
            // two populations
            0 => { let (a, b, s) = (r.range(0, 100) as u8, r.range(120, 200) as u8, r.range(1, 50) as u8); let k = r.range(2, 5) as u8; for v in im.iter_mut() { *v = if *v % k == 0 { a + *v / 6 % s } else { b + *v / 6 % s } } }
            1 => { let (a, s) = (r.range(0, 200) as u8, r.range(1, 55) as u8); for v in im.iter_mut() { *v = a + *v % s } }
            _ => {}
        }
        go(r, &im);
    }
}

// ---- C45
macro_rules! salt { ($r:ident, $im:ident, $rate:expr, $seed:expr, $stat:expr) => {{
    let (im, rate, seed, stat) = (&$im, $rate, $seed, $stat);
    $r.run(ev("salt").a("im", im).a("rate", &rate).a("seed", &seed).a("stat", &stat), || {
        let p = rate as f64 / 1000.0;
        let a = salt_and_pepper_noise(im, p, seed);
        let mut b = im.clone();
        salt_and_pepper_noise_mut(&mut b, p, seed);
        vec![a, b, salt_and_pepper_noise(im, p, seed)]
    });
}} }
macro_rules! noise { ($r:ident, $ty:ty, $w:expr, $h:expr, $base:expr, $mean:expr, $sd:expr) => {{
    let (w, h, base, mean, sd): (u32, u32, i64, i64, i64) = ($w, $h, $base, $mean, $sd);
    let c = <$ty as Pixel>::CHANNEL_COUNT;
    let im: Image<$ty> = Image::from_raw(w, h, vec![base as u16; (w * h) as usize * c as usize]).unwrap();
    let seed = $r.range(0, 1000000) as u64;
    $r.run(ev("noise").a("w", &w).a("h", &h).a("c", &c).a("base", &base).a("mean", &mean).a("sd", &sd).a("seed", &seed), || {
        let a = gaussian_noise(&im, mean as f64, sd as f64, seed);
        let mut b = im.clone();
        gaussian_noise_mut(&mut b, mean as f64, sd as f64, seed);
        vec![a, b, gaussian_noise(&im, mean as f64, sd as f64, seed)]
    });
}} }
fn noise0<P: Pixel>(r: &mut Rec, im: &Image<P>, mean4: i64, hi: i64, seed: u64)
where P::Subpixel: J + Into<f64> + imageproc::definitions::Clamp<f64> {
    r.run(ev("noise0").a("im", im).a("mean4", &mean4).a("hi", &hi), || {
        let a = gaussian_noise(im, mean4 as f64 / 4.0, 0.0, seed);
        let mut b = im.clone();
        gaussian_noise_mut(&mut b, mean4 as f64 / 4.0, 0.0, seed);
        vec![a, b]
    });
}
fn c45(r: &mut Rec) {
    // the last rows of a large image
    for rate in [-5i64, 30, 500, 1000] {
        let (im, seed) = (RgbImage::from_pixel(1200, 900, Rgb([9, 0, 255])), r.range(0, 100000) as u64);
        let tail = |o: &RgbImage| cut(o, 1150, 860, 50, 40);
        r.run(ev("salt").a("im", &tail(&im)).a("rate", &rate).a("seed", &seed).a("stat", &true), || {
            let p = rate as f64 / 1000.0;
            let mut b = im.clone();
            salt_and_pepper_noise_mut(&mut b, p, seed);
            vec![tail(&salt_and_pepper_noise(&im, p, seed)), tail(&b)]
        });
        let (sd, mean) = (r.range(60, 260), r.range(-2000, 2000));
        let im: Image<Rgb<u16>> = Image::from_pixel(600, 240, Rgb([20000; 3]));
        let tail = |o: &Image<Rgb<u16>>| cut(o, 570, 210, 30, 30);
        r.run(ev("noise").a("w", &30).a("h", &30).a("c", &3).a("base", &20000).a("mean", &mean).a("sd", &sd).a("seed", &seed), || {
            let mut b = im.clone();
            gaussian_noise_mut(&mut b, mean as f64, sd as f64, seed);
            vec![tail(&gaussian_noise(&im, mean as f64, sd as f64, seed)), tail(&b)]
        });
    }
    // the tails of the normal distribution: how often each difference from the mean occurs
    for _ in 0..r.t(6, 40) {
        let (sd, mean, seed) = (2 * r.range(20, 100), r.range(-2000, 2000), r.range(0, 100000) as u64);
        let im: Image<Luma<u16>> = Image::from_pixel(300, 240, Luma([20000]));
        r.run(ev("tails").a("n", &(300 * 240)).a("sd", &sd).a("off", &(6 * sd)), || {
            let mut c = vec![0u32; 12 * sd as usize + 1];
            for v in gaussian_noise(&im, mean as f64, sd as f64, seed).as_raw() { c[(*v as i64 - 20000 - mean + 6 * sd).clamp(0, 12 * sd) as usize] += 1 }
            c
        });
    }
    // seeds that differ only in their high bits
    for b in [1u64 << 32, 1 << 63, 1 << 16, 0xffff_ffff_0000_0000] {
        let a = r.range(0, 1 << 40) as u64;
        let im = GrayImage::from_pixel(20, 20, Luma([100]));
        r.run(ev("seeds").a("s", &(a % 10007)), || {
            let n = |s| gaussian_noise(&im, 0.0, 20.0, s);
            let p = |s| salt_and_pepper_noise(&im, 0.5, s);
            (n(a) == n(a) && p(a) == p(a), n(a) != n(a ^ b) && p(a) != p(a ^ b))
        });
    }
    for _ in 0..r.t(200, 3000) {
        let (w, h) = (r.dim(0, 9), r.dim(0, 9));
        let rate = r.pick(&[-5i64, 0, 1, 50, 250, 500, 900, 1000, 1200]);
        let seed = r.range(0, 100000) as u64;
        match r.range(0, 3) {
            0 => { let im: RgbImage = r.img(w, h); salt!(r, im, rate, seed, false) }
            1 => { let im: RgbaImage = r.img(w, h); salt!(r, im, rate, seed, false) }
            2 => { let im: Image<LumaA<u8>> = r.img(w, h); salt!(r, im, rate, seed, false) }
            _ => { let im: GrayImage = r.img(w, h); salt!(r, im, rate, seed, false) }
        }
    }
    for _ in 0..r.t(40, 500) {
        let (w, h) = (r.dim(20, 45), r.dim(20, 45));
        let rate = r.range(0, 1000);
        let seed = r.range(0, 100000) as u64;
        let v = r.range(1, 254) as u8;
        match r.range(0, 3) {
            0 => { let im = RgbaImage::from_pixel(w, h, Rgba([v, 0, 255, 0])); salt!(r, im, rate, seed, true) }
            1 => { let im = RgbImage::from_pixel(w, h, Rgb([v, 0, 255])); salt!(r, im, rate, seed, true) }
            _ => { let im = GrayImage::from_pixel(w, h, Luma([v])); salt!(r, im, rate, seed, true) }
        }
    }
    for _ in 0..r.t(60, 1000) {
        let (w, h) = (r.dim(0, 6), r.dim(0, 6));
        let m = r.range(-1200, 1200);
        let seed = r.range(0, 100000) as u64;
        match r.range(0, 2) {
            0 => { let im: RgbImage = r.img(w, h); noise0(r, &im, m, 255, seed) }
            1 => { let v = r.samples((w * h) as usize, 65535).into_iter().map(|x| x as u16).collect(); let im: Image<Luma<u16>> = Image::from_raw(w, h, v).unwrap(); noise0(r, &im, m * 50, 65535, seed) }
            _ => { let im: GrayImage = r.img(w, h); noise0(r, &im, m, 255, seed) }
        }
    }
    for _ in 0..r.t(24, 300) {
        let sd = r.range(60, 260);
        let mean = r.range(-2000, 2000);
        match r.range(0, 3) {
            3 => { let (w, h) = (r.dim(22, 34), r.dim(20, 28)); noise!(r, Rgba<u16>, w, h, 20000, mean, sd) }
            0 => { let (w, h) = (r.dim(22, 40), r.dim(20, 30)); noise!(r, Rgb<u16>, w, h, 20000, mean, sd) }
            1 => { let (w, h) = (r.dim(22, 40), r.dim(20, 30)); noise!(r, LumaA<u16>, w, h, 20000, mean, sd) }
            _ => { let (w, h) = (r.dim(40, 60), r.dim(35, 50)); noise!(r, Luma<u16>, w, h, 20000, mean, sd) }
        }
    }
    for _ in 0..r.t(20, 200) {
        let (a, b) = (r.range(0, 1 << 40) as u64, r.range(0, 1 << 40) as u64);
        let im = GrayImage::from_pixel(20, 20, Luma([100]));
        r.run(ev("seeds").a("s", &(a % 10007)), || {
            let n = |s| gaussian_noise(&im, 0.0, 20.0, s);
            let p = |s| salt_and_pepper_noise(&im, 0.5, s);
            (n(a) == n(a) && p(a) == p(a), a == b || (n(a) != n(b) && p(a) != p(b)))
        });
    }
}
// Middling images and widths.
fn mid(r: &mut Rec) {
    for i in 0..r.t(12, 120) {
        let (w, h) = (r.dim(13, 70), r.dim(13, 70));
        let im = r.mid(w, h);
        match r.prop.as_str() {
            "C41" => {
                let s = r.range(4, 60);
                r.run(ev("blur").a("im", &im).a("s", &s), || gaussian_blur_f32(&im, sg(s)));
                let im = r.scene(w / 2, h / 2);
                let (s, a) = (r.range(4, 40), r.range(-8, 16));
                blur_f(r, &im, s);
                r.run(ev("sharp").a("im", &im).a("s", &s).a("a", &a), || sharpen_gaussian(&im, sg(s), a as f32 / 4.0));
                let c: RgbImage = Image::from_fn(w / 2, h / 3, |x, y| { let p = im.get_pixel(x, y.min(h / 2 - 1))[0]; Rgb([p, 255 - p, p / 2 + 40]) });
                r.run(ev("blur").a("im", &c).a("s", &s), || gaussian_blur_f32(&c, sg(s)));
                let (rad, s, sc) = (r.range(3, 7), r.range(10, 60), r.pick(&[50i64, 150, 400]));
                let cd = ["gauss", "gauss", "one", "same"][i % 4];
                let g = r.scene(w / 4, h / 4);
                bil!(r, g, rad, s, sc, cd);
                let c: RgbImage = r.img(w / 8, h / 8);
                bil!(r, c, rad, s, sc, cd);
            }
            "C44" => { r.run(ev("kapur").a("im", &im), || kapur_level(&im)); let im = r.scene(h, w); r.run(ev("kapur").a("im", &im), || kapur_level(&im)); }
            _ => {
                let (rate, seed) = (r.range(0, 1000), r.range(0, 100000) as u64);
                salt!(r, im, rate, seed, false);
                let m = r.range(-800, 800);
                noise0(r, &im, m, 255, seed);
                let c: RgbaImage = r.img(w / 2, h / 2);
                salt!(r, c, rate, seed, false);
                noise0(r, &c, m, 255, seed);
            }
        }
    }
}
fn main() {
    let mut r = Rec::start();
    match r.prop.as_str() { "C41" => c41(&mut r), "C44" => c44(&mut r), _ => c45(&mut r) }
    mid(&mut r);
    r.finish();
}
