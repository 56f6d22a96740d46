use image::{GrayImage, Luma, Pixel, Rgb, Rgba};
use imageproc::definitions::{Clamp, Image};
use imageproc::filter::*;
use imageproc::gradients::*;
use imageproc::kernel::{self, Kernel};
use vh::*;

struct K { w: u32, h: u32, d: Vec<i32> }
impl J for K {
    fn j(&self, s: &mut String) { s.push_str(&format!("{{\"w\":{},\"h\":{},\"d\":{}}}", self.w, self.h, js(&self.d))) }
}
fn kern(r: &mut Rec, w: u32, h: u32, mag: i64) -> K {
    let n = (w * h) as usize;
    let d = match r.range(0, 3) {
        0 => { let mut d = vec![0; n]; let i = r.range(0, n as i64 - 1) as usize; d[i] = 1; d }  // a single tap
        1 => (0..n).map(|i| i as i32 + 1).collect(),
        _ => (0..n).map(|_| r.range(-mag, mag) as i32).collect(),
    };
    K { w, h, d }
}

fn filter_all(r: &mut Rec, w: u32, h: u32, k: K) {
    let g: GrayImage = r.img(w, h);
    let kd = k.d.clone();
    let kf: Vec<f32> = kd.iter().map(|&v| v as f32).collect();
    let ks: Vec<i16> = kd.iter().map(|&v| v as i16).collect();
    let ki = || Kernel::new(&kd, k.w, k.h);
    match r.range(0, 5) {
        0 => { r.run(ev("filter").a("im", &g).a("k", &k).a("lo", &0).a("hi", &255), || {
            let mut v: Vec<GrayImage> = vec![filter_clamped::<_, i32, u8>(&g, ki()), filter(&g, ki(), |a: i32| <u8 as Clamp<i32>>::clamp(a))];
            v.extend(pools(|| filter_clamped_parallel::<_, i32, u8>(&g, ki())));
            v.push(filter_parallel(&g, ki(), |a: i32| <u8 as Clamp<i32>>::clamp(a)));
            v.push(filter_clamped::<_, f32, u8>(&g, Kernel::new(&kf, k.w, k.h)));
            v
        }); }
        1 => { r.run(ev("filter").a("im", &g).a("k", &k).a("lo", &-32768).a("hi", &32767), || {
            let mut v: Vec<Image<Luma<i16>>> = vec![filter_clamped::<_, i32, i16>(&g, ki())];
            v.extend(pools(|| filter_clamped_parallel::<_, i32, i16>(&g, ki())));
            if kd.iter().map(|v| v.abs()).sum::<i32>() < 128 { v.push(filter_clamped::<_, i16, i16>(&g, Kernel::new(&ks, k.w, k.h))); }
            v
        }); }
        2 => { r.run(ev("filter").a("im", &g).a("k", &k).a("lo", &0).a("hi", &65535), || {
            vec![filter_clamped::<_, i32, u16>(&g, ki()), filter_clamped_parallel::<_, i32, u16>(&g, ki())]
        }); }
        3 => {
            let c: Image<Rgb<u8>> = r.img(w, h);
            r.run(ev("filter").a("im", &c).a("k", &k).a("lo", &0).a("hi", &255), || {
                let mut v: Vec<Image<Rgb<u8>>> = vec![filter_clamped::<_, i32, u8>(&c, ki())];
                v.extend(pools(|| filter_clamped_parallel::<_, i32, u8>(&c, ki())));
                v
            });
        }
        4 => {
            let c: Image<Rgba<u8>> = r.img(w, h);
            r.run(ev("filter").a("im", &c).a("k", &k).a("lo", &-32768).a("hi", &32767), || {
                vec![filter_clamped::<_, i32, i16>(&c, ki()), filter_clamped_parallel::<_, i32, i16>(&c, ki())]
            });
        }
        _ => {
            let q = r.pick(&[1i32, 2, 9, 16]);
            r.run(ev("filter_div").a("im", &g).a("k", &k).a("q", &q), || {
                let mut v: Vec<GrayImage> = vec![filter(&g, ki(), |a: i32| <u8 as Clamp<i32>>::clamp(a / q))];
                v.extend(pools(|| filter_parallel(&g, ki(), |a: i32| <u8 as Clamp<i32>>::clamp(a / q))));
                v
            });
        }
    }
}
fn one_d<P>(r: &mut Rec, im: &Image<P>, hk: &[i32], vk: &[i32], hi: i64)
where P: Pixel, P::Subpixel: Into<i32> + Clamp<i32> + Into<f32> + Clamp<f32> + J {
    let f: Vec<f32> = hk.iter().map(|&v| v as f32).collect();
    r.run(ev("hfilter").a("im", im).a("k", hk).a("hi", &hi), || vec![horizontal_filter(im, hk), horizontal_filter(im, &f)]);
    let f: Vec<f32> = vk.iter().map(|&v| v as f32).collect();
    r.run(ev("vfilter").a("im", im).a("k", vk).a("hi", &hi), || vec![vertical_filter(im, vk), vertical_filter(im, &f)]);
    r.run(ev("separable").a("im", im).a("hk", hk).a("vk", vk).a("hi", &hi), || vec![separable_filter(im, hk, vk)]);
    r.run(ev("separable").a("im", im).a("hk", hk).a("vk", hk).a("hi", &hi), || vec![separable_filter_equal(im, hk)]);
}
fn c04(r: &mut Rec) {
    for w in 0..=4u32 { for h in 0..=4u32 { for kw in 1..=5u32 { for kh in 1..=5u32 {
        if !r.thorough && (w + 3 * h + 2 * kw + kh) % 3 != 0 && kw.max(kh) > 2 { continue }
        let k = kern(r, kw, kh, 4);
        filter_all(r, w, h, k);
    } } } }
    for _ in 0..r.t(500, 10000) {
        let (w, h, kw, kh) = (r.dim(1, 7), r.dim(1, 7), r.dim(1, 4), r.dim(1, 4));
        let mag = r.pick(&[1i64, 3, 40, 300]);
        let k = kern(r, kw, kh, mag);
        filter_all(r, w, h, k);
    }
    for (w, h) in [(40u32, 9u32), (7, 33), (1, 50), (50, 1)] {
        for (kw, kh) in [(3u32, 3u32), (5, 2), (7, 1), (1, 9)] { let k = kern(r, kw, kh, 5); filter_all(r, w, h, k) }
    }
    for w in 0..=7u32 { for k in 0..=9usize {
        for h in [1u32, 2, 3, 0] {
            let mag = r.pick(&[1i64, 3, 30]);
            let hk: Vec<i32> = if r.range(0, 2) == 0 { (1..=k as i32).collect() } else { (0..k).map(|_| r.range(-mag, mag) as i32).collect() };
            let vk: Vec<i32> = (0..k).map(|_| r.range(-mag, mag) as i32).collect();
            let a: GrayImage = r.img(w, h);
            one_d(r, &a, &hk, &vk, 255);
            let b: GrayImage = r.img(h, w);
            one_d(r, &b, &vk, &hk, 255);
            let n = (w * h) as usize;
            let v: Vec<u16> = r.samples(n, 65535).into_iter().map(|v| v as u16).collect();
            let c: Image<Luma<u16>> = Image::from_raw(w, h, v).unwrap();
            // f32 accumulators stay exact only for small weights
            if mag <= 3 { one_d(r, &c, &hk, &vk, 65535); }
        }
    } }
    for _ in 0..r.t(150, 4000) {
        let (w, h, k) = (r.dim(1, 12), r.dim(1, 6), r.dim(1, 6) as usize);
        let hk: Vec<i32> = (0..k).map(|_| r.range(-2, 3) as i32).collect();
        let vk: Vec<i32> = (0..k).map(|_| r.range(-2, 3) as i32).collect();
        let a: Image<Rgb<u8>> = r.img(w, h);
        one_d(r, &a, &hk, &vk, 255);
        let a: GrayImage = r.img(h, w);
        one_d(r, &a, &hk, &vk, 255);
        r.run(ev("separable").a("im", &a).a("hk", &hk).a("vk", &[1, 2]).a("hi", &255), || vec![separable_filter(&a, &hk, &[1, 2])]);
    }
    for _ in 0..r.t(120, 3000) {
        let (w, h) = (r.dim(0, 8), r.dim(0, 8));
        let a: GrayImage = r.img(w, h);
        r.run(ev("named").a("im", &a).a("n", "lap4").a("lo", &-32768).a("hi", &32767), || { let mut v = vec![laplacian_filter(&a)]; v.extend(pools(|| laplacian_filter_parallel(&a))); v });
        r.run(ev("named").a("im", &a).a("n", "lap8").a("lo", &-32768).a("hi", &32767), || vec![filter_clamped::<_, _, i16>(&a, kernel::EIGHT_LAPLACIAN_3X3)]);
        r.run(ev("named").a("im", &a).a("n", "sharpen").a("lo", &0).a("hi", &255), || { let mut v = vec![sharpen3x3(&a)]; v.extend(pools(|| sharpen3x3_parallel(&a))); v });
    }
    for (w, h) in [(1100u32, 1u32), (1, 1100), (530, 2), (2, 530), (70, 60)] {
        for (kw, kh) in [(3u32, 3u32), (2, 2)] { for _ in 0..2 { let k = kern(r, kw, kh, 5); filter_all(r, w, h, k) } }
        let a: GrayImage = r.img(w, h);
        one_d(r, &a, &[1, -2, 3], &[2, 1, 1, -1], 255);
        one_d(r, &a, &[1, 0, -1, 2], &[3, -1], 255);
        r.run(ev("named").a("im", &a).a("n", "lap4").a("lo", &-32768).a("hi", &32767), || { let mut v = vec![laplacian_filter(&a)]; v.extend(pools(|| laplacian_filter_parallel(&a))); v });
        r.run(ev("named").a("im", &a).a("n", "sharpen").a("lo", &0).a("hi", &255), || { let mut v = vec![sharpen3x3(&a)]; v.extend(pools(|| sharpen3x3_parallel(&a))); v });
    }
    for n in [17usize, 40, 300] {
        let k: Vec<i32> = (0..n).map(|_| r.range(-1, 2) as i32).collect();
        let a: GrayImage = r.img(9, 7);
        one_d(r, &a, &k, &k[..n - 1], 255);
        let a: GrayImage = r.img(n as u32 + 3, 2);
        one_d(r, &a, &k, &[1, 2, -1], 255);
        let a: GrayImage = r.img(2, n as u32 + 3);
        one_d(r, &a, &[1, 2, -1], &k, 255);
        // small samples in a wide type, so that no output saturates
        for (w, h) in [(n as u32 + 3, 2u32), (2, n as u32 + 3)] {
            let m = (w * h) as usize;
            let v: Vec<u16> = r.samples(m, 20).into_iter().map(|v| v as u16).collect();
            let c: Image<Luma<u16>> = Image::from_raw(w, h, v).unwrap();
            let q: Vec<i32> = (0..n).map(|_| r.range(0, 9) as i32).collect();
            one_d(r, &c, &q, &[1, 2], 65535);
            one_d(r, &c, &[1, 2], &q, 65535);
            let g: GrayImage = Image::from_raw(w, h, c.as_raw().iter().map(|&v| v as u8).collect()).unwrap();
            for (kw, kh) in [(n as u32, 1u32), (1, n as u32)] {
                let k = K { w: kw, h: kh, d: q.clone() };
                r.run(ev("filter").a("im", &g).a("k", &k).a("lo", &0).a("hi", &65535), || {
                    vec![filter_clamped::<_, i32, u16>(&g, Kernel::new(&k.d, kw, kh)), filter_clamped_parallel::<_, i32, u16>(&g, Kernel::new(&k.d, kw, kh))]
                });
            }
        }
        let k = K { w: n as u32, h: 1, d: k };
        filter_all(r, 8, 5, k);
        let d: Vec<i32> = (0..n).map(|_| r.range(-1, 2) as i32).collect();
        filter_all(r, 5, 8, K { w: 1, h: n as u32, d });
    }
    // across the end of the 16-bit coordinate range
    for (dx, dy) in FAR {
        let mut a: GrayImage = r.img(13, 12);
        margin(&mut a, Luma([7]), 1);
        let big = far(&a, Luma([7]), dx, dy);
        let k = kern(r, 3, 4, 3);
        r.run(ev("filter").a("im", &a).a("k", &k).a("lo", &-32768).a("hi", &32767), || {
            let ki = || Kernel::new(&k.d, 3, 4);
            vec![corner(&filter_clamped::<_, i32, i16>(&big, ki()), 13, 12), corner(&filter_clamped_parallel::<_, i32, i16>(&big, ki()), 13, 12)]
        });
        let (p, q) = ([1, -2, 3], [2, 1, 1, -1]);
        r.run(ev("hfilter").a("im", &a).a("k", &p).a("hi", &255), || vec![corner(&horizontal_filter(&big, &p), 13, 12)]);
        r.run(ev("vfilter").a("im", &a).a("k", &q).a("hi", &255), || vec![corner(&vertical_filter(&big, &q), 13, 12)]);
        r.run(ev("separable").a("im", &a).a("hk", &p).a("vk", &q).a("hi", &255), || vec![corner(&separable_filter(&big, &p, &q), 13, 12)]);
        r.run(ev("named").a("im", &a).a("n", "lap4").a("lo", &-32768).a("hi", &32767), || vec![corner(&laplacian_filter(&big), 13, 12), corner(&laplacian_filter_parallel(&big), 13, 12)]);
        r.run(ev("named").a("im", &a).a("n", "sharpen").a("lo", &0).a("hi", &255), || vec![corner(&sharpen3x3(&big), 13, 12), corner(&sharpen3x3_parallel(&big), 13, 12)]);
    }
    for w in 0..=3u32 { for h in 0..=3u32 { for n in 0..=9usize {
        let d: Vec<i32> = (1..=n as i32).collect();
        r.run(ev("kernel_new").a("w", &w).a("h", &h).a("d", &d), || { let k = Kernel::new(&d, w, h); let mut v = vec![]; for y in 0..h { for x in 0..w { v.push(k.get(x, y)) } } v });
    } } }
}
fn c05(r: &mut Rec) {
    for w in 0..=5u32 { for h in 0..=5u32 { for rx in 0..=4u32 { for ry in 0..=4u32 {
        let a: GrayImage = r.img(w, h);
        r.run(ev("box").a("im", &a).a("rx", &rx).a("ry", &ry), || box_filter(&a, rx, ry));
    } } } }
    for _ in 0..r.t(600, 12000) {
        let (w, h, rx, ry) = (r.dim(1, 12), r.dim(1, 12), r.dim(0, 6), r.dim(0, 6));
        let a: GrayImage = r.img(w, h);
        r.run(ev("box").a("im", &a).a("rx", &rx).a("ry", &ry), || box_filter(&a, rx, ry));
    }
    for (w, h, rx, ry) in [(60u32, 4u32, 20u32, 1u32), (3, 50, 2, 30), (200, 1, 7, 0), (1, 200, 0, 99), (5, 5, 130, 127), (40, 30, 3, 3), (300, 2, 1, 1), (2, 300, 1, 1), (600, 1, 2, 1), (1, 600, 2, 3), (600, 2, 299, 1), (2, 600, 0, 300), (80, 70, 9, 8), (2, 1, 33000, 1), (1, 2, 1, 33000)] {
        let a: GrayImage = r.img(w, h);
        r.run(ev("box").a("im", &a).a("rx", &rx).a("ry", &ry), || box_filter(&a, rx, ry));
        let a = GrayImage::from_pixel(w, h, Luma([255]));
        r.run(ev("box").a("im", &a).a("rx", &rx).a("ry", &ry), || box_filter(&a, rx, ry));
    }
}
fn c05_far(r: &mut Rec) {
    // quotients that fall just short of a whole number
    for k in [1000u32, 200000, 4_000_000] { for (p, q) in [(199u8, 201u8), (201, 199), (0, 2), (253, 255)] {
        for (w, h) in [(1u32, 2u32), (2, 1)] {
            let a = GrayImage::from_raw(w, h, vec![p, q]).unwrap();
            let (rx, ry) = if w == 1 { (0, k) } else { (k, 0) };
            r.run(ev("box").a("im", &a).a("rx", &rx).a("ry", &ry), || box_filter(&a, rx, ry));
        }
    } }
    for (dx, dy) in FAR { for (rx, ry) in [(1u32, 2u32), (4, 3), (0, 1)] {
        let mut a: GrayImage = r.img(13, 12);
        margin(&mut a, Luma([90]), 1);
        let big = far(&a, Luma([90]), dx, dy);
        r.run(ev("box").a("im", &a).a("rx", &rx).a("ry", &ry), || corner(&box_filter(&big, rx, ry), 13, 12));
    } }
}
fn c06_far(r: &mut Rec) {
    for (dx, dy) in FAR { for (rx, ry) in [(1u32, 2u32), (4, 3), (0, 1)] {
        let mut a: GrayImage = r.img(13, 12);
        margin(&mut a, Luma([90]), 1);
        let big = far(&a, Luma([90]), dx, dy);
        r.run(ev("median").a("im", &a).a("rx", &rx).a("ry", &ry), || corner(&median_filter(&big, rx, ry), 13, 12));
    } }
}
fn c07_far(r: &mut Rec) {
    for (dx, dy) in FAR {
        let mut a: GrayImage = r.img(13, 12);
        margin(&mut a, Luma([90]), 1);
        let big = far(&a, Luma([90]), dx, dy);
        r.run(ev("named").a("im", &a).a("n", "sobel_h").a("lo", &-32768).a("hi", &32767), || vec![corner(&horizontal_sobel(&big), 13, 12)]);
        r.run(ev("named").a("im", &a).a("n", "scharr_v").a("lo", &-32768).a("hi", &32767), || vec![corner(&vertical_scharr(&big), 13, 12)]);
        r.run(ev("grad").a("im", &a).a("kh", "sobel_h").a("kv", "sobel_v").a("f", "id"), || vec![corner(&sobel_gradients(&big), 13, 12), corner(&sobel_gradient_map(&big, |p| p), 13, 12)]);
        r.run(ev("grad").a("im", &a).a("kh", "prewitt_h").a("kv", "prewitt_v").a("f", "id"), || vec![corner(&prewitt_gradients(&big), 13, 12)]);
    }
}
fn c06(r: &mut Rec) {
    for w in 0..=5u32 { for h in 0..=5u32 { for rx in 0..=3u32 { for ry in 0..=3u32 {
        let a: GrayImage = r.img(w, h);
        r.run(ev("median").a("im", &a).a("rx", &rx).a("ry", &ry), || median_filter(&a, rx, ry));
    } } } }
    for w in 1..=3u32 { for h in 1..=3u32 { if w * h <= 6 { for im in all_images(w, h, &[0, 9, 255]).collect::<Vec<_>>() {
        if !r.thorough && w * h > 4 && r.range(0, 5) != 0 { continue }
        let (rx, ry) = (r.dim(0, 2), r.dim(0, 2));
        r.run(ev("median").a("im", &im).a("rx", &rx).a("ry", &ry), || median_filter(&im, rx, ry));
    } } } }
    for _ in 0..r.t(500, 8000) {
        let (w, h, rx, ry) = (r.dim(1, 9), r.dim(1, 9), r.dim(0, 3), r.dim(0, 3));
        let a: GrayImage = r.img(w, h);
        r.run(ev("median").a("im", &a).a("rx", &rx).a("ry", &ry), || median_filter(&a, rx, ry));
        let a: Image<Rgb<u8>> = r.img(w.min(6), h.min(6));
        r.run(ev("median").a("im", &a).a("rx", &rx).a("ry", &ry), || median_filter(&a, rx, ry));
        let a: Image<Rgba<u8>> = r.img(w.min(4), h.min(4));
        r.run(ev("median").a("im", &a).a("rx", &rx).a("ry", &ry), || median_filter(&a, rx, ry));
    }
    for (w, h, rx, ry) in [(20u32, 3u32, 8u32, 1u32), (2, 24, 1, 10), (30, 1, 3, 0), (1, 40, 0, 9), (4, 4, 9, 8), (16, 12, 2, 3), (9, 9, 8, 0), (9, 9, 0, 8), (270, 2, 1, 1), (1, 300, 1, 2), (600, 1, 2, 0), (2, 530, 1, 2), (530, 2, 3, 1), (60, 50, 2, 3), (300, 1, 140, 0), (1, 300, 0, 140),
        // windows of more than 255, more than 65535 samples
        (3, 2, 20, 9), (2, 2, 128, 128), (3, 1, 0, 33000), (1, 2, 33000, 0)] {
        let a: GrayImage = r.img(w, h);
        r.run(ev("median").a("im", &a).a("rx", &rx).a("ry", &ry), || median_filter(&a, rx, ry));
        let v = r.pick(&[0u8, 9, 255]);
        let a = GrayImage::from_pixel(w, h, Luma([v]));
        r.run(ev("median").a("im", &a).a("rx", &rx).a("ry", &ry), || median_filter(&a, rx, ry));
    }
}
fn c07(r: &mut Rec) {
    let hk: [(&str, fn(&GrayImage) -> Image<Luma<i16>>); 6] = [("sobel_h", horizontal_sobel), ("sobel_v", vertical_sobel), ("scharr_h", horizontal_scharr),
        ("scharr_v", vertical_scharr), ("prewitt_h", horizontal_prewitt), ("prewitt_v", vertical_prewitt)];
    let max = |p: Rgb<u16>| Luma([p[0].max(p[1]).max(p[2])]);
    for i in 0..r.t(260, 5000) {
        let (w, h) = if i < 49 { (i as u32 % 7, i as u32 / 7) } else { (r.dim(1, 7), r.dim(1, 7)) };
        let a: GrayImage = r.img(w, h);
        for (n, f) in hk { r.run(ev("named").a("im", &a).a("n", n).a("lo", &-32768).a("hi", &32767), || vec![f(&a)]); }
        r.run(ev("grad").a("im", &a).a("kh", "sobel_h").a("kv", "sobel_v").a("f", "id"), || vec![sobel_gradients(&a), sobel_gradient_map(&a, |p| p), gradients_grayscale(&a, kernel::SOBEL_HORIZONTAL_3X3, kernel::SOBEL_VERTICAL_3X3)]);
        r.run(ev("grad").a("im", &a).a("kh", "prewitt_h").a("kv", "prewitt_v").a("f", "id"), || vec![prewitt_gradients(&a)]);
        r.run(ev("grad").a("im", &a).a("kh", "scharr_h").a("kv", "scharr_v").a("f", "id"), || vec![gradients_grayscale(&a, kernel::SCHARR_HORIZONTAL_3X3, kernel::SCHARR_VERTICAL_3X3)]);
        r.run(ev("grad").a("im", &a).a("kh", "roberts_h").a("kv", "roberts_v").a("f", "id"), || vec![gradients_grayscale(&a, kernel::ROBERTS_HORIZONTAL_2X2, kernel::ROBERTS_VERTICAL_2X2)]);
        let c: Image<Rgb<u8>> = r.img(w.min(5), h.min(5));
        r.run(ev("grad").a("im", &c).a("kh", "sobel_h").a("kv", "sobel_v").a("f", "id"), || vec![sobel_gradient_map(&c, |p| p)]);
        r.run(ev("grad").a("im", &c).a("kh", "sobel_h").a("kv", "sobel_v").a("f", "max"), || vec![sobel_gradient_map(&c, max)]);
        r.run(ev("grad").a("im", &c).a("kh", "prewitt_h").a("kv", "prewitt_v").a("f", "max"), || vec![gradients(&c, kernel::PREWITT_HORIZONTAL_3X3, kernel::PREWITT_VERTICAL_3X3, max)]);
        let c: Image<Rgba<u8>> = r.img(w.min(4), h.min(4));
        r.run(ev("grad").a("im", &c).a("kh", "sobel_h").a("kv", "sobel_v").a("f", "id"), || vec![sobel_gradient_map(&c, |p| p)]);
        r.run(ev("grad").a("im", &c).a("kh", "scharr_h").a("kv", "roberts_v").a("f", "id"), || vec![gradients(&c, kernel::SCHARR_HORIZONTAL_3X3, kernel::ROBERTS_VERTICAL_2X2, |p| p)]);
        let (kw, kh) = (r.dim(1, 4), r.dim(1, 3));
        let k1 = kern(r, kw, kh, 3);
        let k2 = kern(r, kh, kw, 3);
        r.run(ev("gradk").a("im", &a).a("kh", &k1).a("kv", &k2).a("f", "id"), || vec![gradients_grayscale(&a, Kernel::new(&k1.d, k1.w, k1.h), Kernel::new(&k2.d, k2.w, k2.h))]);
    }
    for (w, h) in [(30u32, 4u32), (4, 30), (16, 16), (1, 30), (1100, 1), (1, 1100), (530, 2), (2, 530), (60, 50)] {
        let a: GrayImage = r.img(w, h);
        for (n, f) in hk { r.run(ev("named").a("im", &a).a("n", n).a("lo", &-32768).a("hi", &32767), || vec![f(&a)]); }
        r.run(ev("grad").a("im", &a).a("kh", "sobel_h").a("kv", "sobel_v").a("f", "id"), || vec![sobel_gradients(&a)]);
    }
}
// Middling images with middling kernels and radii.
fn mid(r: &mut Rec) {
    match r.prop.clone().as_str() {
        "C04" => for _ in 0..r.t(14, 120) {
            let (w, h, kw, kh) = (r.dim(17, 40), r.dim(17, 40), r.dim(4, 11), r.dim(4, 11));
            let mag = r.pick(&[1i64, 2, 9]);
            let k = kern(r, kw, kh, mag);
            let a = r.mid(w, h);
            r.run(ev("filter").a("im", &a).a("k", &k).a("lo", &-32768).a("hi", &32767), || {
                let ki = || Kernel::new(&k.d, kw, kh);
                let mut v = vec![filter_clamped::<_, i32, i16>(&a, ki())];
                v.extend(pools(|| filter_clamped_parallel::<_, i32, i16>(&a, ki())));
                v
            });
            let n = r.dim(7, 24) as usize;
            let hk: Vec<i32> = (0..n).map(|_| r.range(-1, 2) as i32).collect();
            let vk: Vec<i32> = (0..n).map(|_| r.range(-1, 2) as i32).collect();
            let (w, h) = (r.dim(17, 90), r.dim(17, 90));
            let a = r.mid(w, h);
            one_d(r, &a, &hk, &vk, 255);
            let c: Image<Rgb<u8>> = r.img(w / 3, h / 3);
            one_d(r, &c, &hk, &vk, 255);
            r.run(ev("named").a("im", &a).a("n", "lap4").a("lo", &-32768).a("hi", &32767), || { let mut v = vec![laplacian_filter(&a)]; v.extend(pools(|| laplacian_filter_parallel(&a))); v });
            r.run(ev("named").a("im", &a).a("n", "sharpen").a("lo", &0).a("hi", &255), || { let mut v = vec![sharpen3x3(&a)]; v.extend(pools(|| sharpen3x3_parallel(&a))); v });
        },
        "C05" => for i in 0..r.t(60, 600) {
            let (w, h) = (r.dim(13, 110), r.dim(13, 110));
            let m = if i % 2 == 0 { 24 } else { 64 };
            let (rx, ry) = (r.dim(0, m), r.dim(0, m));
            let a = r.mid(w, h);
            r.run(ev("box").a("im", &a).a("rx", &rx).a("ry", &ry), || box_filter(&a, rx, ry));
        },
        "C06" => for i in 0..r.t(30, 250) {
            let (w, h) = (r.dim(10, 40), r.dim(10, 40));
            // window areas up to about 700 samples
            let (rx, ry) = match i % 3 { 0 => (r.dim(4, 12), r.dim(4, 12)), 1 => (r.dim(12, 40), r.dim(0, 3)), _ => (r.dim(0, 3), r.dim(12, 40)) };
            let a = r.mid(w, h);
            r.run(ev("median").a("im", &a).a("rx", &rx).a("ry", &ry), || median_filter(&a, rx, ry));
            let (w, h, rx, ry) = (r.dim(40, 110), r.dim(40, 110), r.dim(0, 2), r.dim(0, 2));
            let a = r.mid(w, h);
            r.run(ev("median").a("im", &a).a("rx", &rx).a("ry", &ry), || median_filter(&a, rx, ry));
            let c: Image<Rgba<u8>> = r.img(w / 6, h / 6);
            let (rx, ry) = (r.dim(2, 5), r.dim(2, 5));
            r.run(ev("median").a("im", &c).a("rx", &rx).a("ry", &ry), || median_filter(&c, rx, ry));
        },
        _ => for _ in 0..r.t(12, 120) {
            let (w, h) = (r.dim(17, 90), r.dim(17, 90));
            let a = r.mid(w, h);
            r.run(ev("named").a("im", &a).a("n", "sobel_v").a("lo", &-32768).a("hi", &32767), || vec![vertical_sobel(&a)]);
            r.run(ev("named").a("im", &a).a("n", "scharr_h").a("lo", &-32768).a("hi", &32767), || vec![horizontal_scharr(&a)]);
            r.run(ev("named").a("im", &a).a("n", "prewitt_v").a("lo", &-32768).a("hi", &32767), || vec![vertical_prewitt(&a)]);
            r.run(ev("grad").a("im", &a).a("kh", "sobel_h").a("kv", "sobel_v").a("f", "id"), || vec![sobel_gradients(&a)]);
            r.run(ev("grad").a("im", &a).a("kh", "prewitt_h").a("kv", "prewitt_v").a("f", "id"), || vec![prewitt_gradients(&a)]);
            let c: Image<Rgb<u8>> = r.img(w / 2, h / 2);
            r.run(ev("grad").a("im", &c).a("kh", "sobel_h").a("kv", "sobel_v").a("f", "max"), || vec![sobel_gradient_map(&c, |p| Luma([p[0].max(p[1]).max(p[2])]))]);
            let (kw, kh) = (r.dim(4, 8), r.dim(4, 8));
            let (k1, k2) = (kern(r, kw, kh, 2), kern(r, kh, kw, 2));
            let a = r.mid(w / 2, h / 2);
            r.run(ev("gradk").a("im", &a).a("kh", &k1).a("kv", &k2).a("f", "id"), || vec![gradients_grayscale(&a, Kernel::new(&k1.d, k1.w, k1.h), Kernel::new(&k2.d, k2.w, k2.h))]);
        },
    }
}
fn main() {
    let mut r = Rec::start();
    match r.prop.as_str() { "C04" => c04(&mut r), "C05" => { c05(&mut r); c05_far(&mut r) } "C06" => { c06(&mut r); c06_far(&mut r) } _ => { c07(&mut r); c07_far(&mut r) } }
    mid(&mut r);
    r.finish();
}
