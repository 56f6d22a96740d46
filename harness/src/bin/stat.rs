use image::{GrayImage, Luma, LumaA, Pixel, Rgb, Rgba};
use imageproc::contrast::*;
use imageproc::definitions::Image;
use imageproc::integral_image::*;
use imageproc::stats::*;
use imageproc::template_matching::find_extremes;
use vh::*;

fn sums<P>(r: &mut Rec, im: &Image<P>)
where P: Pixel<Subpixel = u8> + imageproc::map::WithChannel<u32>, imageproc::map::ChannelMap<P, u32>: ArrayData + Copy,
      <imageproc::map::ChannelMap<P, u32> as ArrayData>::DataType: J {
    let (w, h) = im.dimensions();
    r.run(ev("integral").a("im", im), || vec![integral_image::<_, u32>(im)]);
    r.run(ev("integral_sq").a("im", im), || vec![integral_squared_image::<_, u32>(im)]);
    if w > 0 && h > 0 {
        let mut rs = vec![(0, 0, w - 1, h - 1)];
        for _ in 0..8 {
            let (a, b) = (r.dim(0, w as i64 - 1), r.dim(0, w as i64 - 1));
            let (c, d) = (r.dim(0, h as i64 - 1), r.dim(0, h as i64 - 1));
            rs.push((a.min(b), c.min(d), a.max(b), c.max(d)));
        }
        r.run(ev("sums").a("im", im).a("rs", &rs), || {
            let t = integral_image::<_, u32>(im);
            rs.iter().map(|q| sum_image_pixels(&t, q.0, q.1, q.2, q.3)).collect::<Vec<_>>()
        });
    }
}
fn c08(r: &mut Rec) {
    for i in 0..r.t(330, 6000) {
        let (w, h) = if i < 49 { (i as u32 % 7, i as u32 / 7) } else { (r.dim(1, 8), r.dim(1, 8)) };
        let a: GrayImage = r.img(w, h);
        sums(r, &a);
        r.run(ev("integral").a("im", &a), || vec![integral_image::<_, i32>(&a)]);
        r.run(ev("integral").a("im", &a), || vec![integral_image::<_, i64>(&a)]);
        if w * h <= 16 { r.run(ev("integral").a("im", &a), || vec![integral_image::<_, u16>(&a)]); }
        let c: Image<Rgb<u8>> = r.img(w.min(5), h.min(5));
        sums(r, &c);
        let c: Image<Rgba<u8>> = r.img(w.min(4), h.min(4));
        sums(r, &c);
        if w > 0 && h > 0 && w * h <= 16 {
            // exact while n * sum of squares stays small
            let mut rs = vec![];
            for x0 in 0..w { for y0 in 0..h { rs.push((x0, y0, r.dim(x0 as i64, w as i64 - 1), r.dim(y0 as i64, h as i64 - 1))) } }
            r.run(ev("variance").a("im", &a).a("rs", &rs), || {
                let (t, q) = (integral_image::<_, u32>(&a), integral_squared_image::<_, u32>(&a));
                rs.iter().map(|s| { let n = ((s.2 - s.0 + 1) * (s.3 - s.1 + 1)) as f64; limbs(variance(&t, &q, s.0, s.1, s.2, s.3) * n * n) }).collect::<Vec<_>>()
            });
        }
        for _ in 0..2 {
            let (pad, extra, i) = (r.dim(0, 5), r.range(-1, 3), r.dim(0, 7));
            let n = (w as i64 + 2 * pad as i64 + extra).max(0) as usize;
            r.run(ev("row_sum").a("im", &a).a("i", &i).a("pad", &pad).a("n", &n), || { let mut b = vec![77u32; n]; row_running_sum(&a, i, &mut b, pad); b });
            let n = (h as i64 + 2 * pad as i64 + extra).max(0) as usize;
            r.run(ev("col_sum").a("im", &a).a("i", &i).a("pad", &pad).a("n", &n), || { let mut b = vec![77u32; n]; column_running_sum(&a, i, &mut b, pad); b });
        }
    }
    for (w, h) in [(60u32, 3u32), (3, 60), (25, 20), (300, 2), (2, 300), (1100, 2), (2, 1100), (90, 80)] {
        let mut a: GrayImage = r.img(w, h);
        if w >= 90 { for p in a.pixels_mut() { p.0[0] |= 0xe0 } }
        sums(r, &a);
        let mut rs = vec![(0, 0, w - 1, h - 1), (w - 1, h - 1, w - 1, h - 1), (0, 0, w - 1, 0), (w / 3, h / 3, w - 1, h - 1)];
        for _ in 0..4 { let (x, y) = (r.dim(0, w as i64 - 1), r.dim(0, h as i64 - 1)); rs.push((x, y, r.dim(x as i64, w as i64 - 1), r.dim(y as i64, h as i64 - 1))) }
        r.run(ev("variance").a("im", &a).a("rs", &rs), || {
            let (t, q) = (integral_image::<_, u32>(&a), integral_squared_image::<_, u32>(&a));
            rs.iter().map(|s| { let n = ((s.2 - s.0 + 1) * (s.3 - s.1 + 1)) as f64; limbs(variance(&t, &q, s.0, s.1, s.2, s.3) * n * n) }).collect::<Vec<_>>()
        });
        for pad in [0u32, 1, 50, 200] {
            let n = (w + 2 * pad) as usize;
            r.run(ev("row_sum").a("im", &a).a("i", &(h - 1)).a("pad", &pad).a("n", &n), || { let mut b = vec![0; n]; row_running_sum(&a, h - 1, &mut b, pad); b });
            let n = (h + 2 * pad) as usize;
            r.run(ev("col_sum").a("im", &a).a("i", &(w - 1)).a("pad", &pad).a("n", &n), || { let mut b = vec![0; n]; column_running_sum(&a, w - 1, &mut b, pad); b });
        }
    }
}
fn hist<P: Pixel<Subpixel = u8>>(r: &mut Rec, im: &Image<P>) {
    r.run(ev("hist").a("im", im), || {
        let f = |v: Vec<[u32; 256]>| v.iter().map(|c| c.to_vec()).collect::<Vec<_>>();
        vec![f(histogram(im).channels), f(cumulative_histogram(im).channels)]
    });
    r.run(ev("min_max").a("im", im), || min_max(im).iter().map(|m| (m.min, m.max)).collect::<Vec<_>>());
}
fn c09(r: &mut Rec) {
    for i in 0..r.t(300, 5000) {
        let (w, h) = if i < 25 { (i as u32 % 5, i as u32 / 5) } else { (r.dim(1, 9), r.dim(1, 9)) };
        let a: GrayImage = r.img(w, h);
        hist(r, &a);
        let c: Image<Rgb<u8>> = r.img(w.min(5), h.min(4));
        hist(r, &c);
        let c: Image<LumaA<u8>> = r.img(w.min(4), h.min(4));
        hist(r, &c);
        let c: Image<Rgba<u8>> = r.img(w.min(4), h.min(3));
        hist(r, &c);
        if w * h > 0 {
            let ps: Vec<u8> = if i % 10 == 0 { (0..=100).collect() } else { vec![0, 1, 25, 49, 50, 51, 75, 99, 100, r.dim(0, 100) as u8] };
            r.run(ev("percentile").a("im", &a).a("ps", &ps), || ps.iter().map(|&p| percentile(&a, p)).collect::<Vec<_>>());
            let p = r.dim(101, 255) as u8;
            r.run(ev("percentile_bad").a("im", &a).a("p", &p), || percentile(&a, p));
        }
        let s = |v: Vec<i64>| -> Vec<i16> { v.into_iter().map(|x| (x - 30000) as i16).collect() };
        let v = s(r.samples((w * h) as usize, 60000));
        let d: Image<Luma<i16>> = Image::from_raw(w, h, v).unwrap();
        r.run(ev("min_max").a("im", &d), || min_max(&d).iter().map(|m| (m.min, m.max)).collect::<Vec<_>>());
        r.run(ev("extremes").a("im", &a), || { let e = find_extremes(&a); (e.max_value, e.min_value, e.max_value_location, e.min_value_location) });
        r.run(ev("extremes").a("im", &d), || { let e = find_extremes(&d); (e.max_value, e.min_value, e.max_value_location, e.min_value_location) });
        if w > 0 && h > 0 {
            let (w, h) = (w.min(4), h.min(4));
            let lim = |im: Image<Rgb<u8>>| -> Image<Rgb<u8>> { Image::from_fn(w, h, |x, y| im.get_pixel(x, y).map(|v| v % 100)) };
            let (mut a, mut b): (Image<Rgb<u8>>, Image<Rgb<u8>>) = (lim(r.img(w, h)), lim(r.img(w, h)));
            if w * h <= 4 { a = r.img(w, h); b = r.img(w, h); }
            match i % 6 { 0 => b = a.clone(), 1 => { let d = r.pick(&[1u8, 10, 100]); b = a.clone(); for p in b.pixels_mut() { *p = p.map(|v| if v >= 128 { v - d } else { v + d }) } }
                2 => { b = a.clone(); let k = r.range(0, (w * h * 3) as i64 - 1) as usize; b[(0, 0)].0[k % 3] ^= 1 } _ => {} }
            r.run(ev("rmse").a("a", &a).a("b", &b), || (fr(root_mean_squared_error(&a, &b), 16.0), fr(peak_signal_to_noise_ratio(&a, &b), 1000.0)));
            if i % 3 == 0 {
                let (w, h) = (w.min(2), h.min(2));
                let (a, b): (Image<Rgba<u8>>, Image<Rgba<u8>>) = (r.img(w, h), r.img(w, h));
                r.run(ev("rmse").a("a", &a).a("b", &b), || (fr(root_mean_squared_error(&a, &b), 16.0), fr(peak_signal_to_noise_ratio(&a, &b), 1000.0)));
                let (a, mut b): (Image<LumaA<u8>>, Image<LumaA<u8>>) = (r.img(w, h), r.img(w, h));
                if i % 2 == 0 { for (p, q) in b.pixels_mut().zip(a.pixels()) { p.0[0] = q.0[0] } }
                r.run(ev("rmse").a("a", &a).a("b", &b), || (fr(root_mean_squared_error(&a, &b), 16.0), fr(peak_signal_to_noise_ratio(&a, &b), 1000.0)));
            }
            let b2: Image<Rgb<u8>> = r.img(w + (i % 2) as u32, h + 1 - (i % 2) as u32);
            r.run(ev("rmse").a("a", &a).a("b", &b2), || (fr(root_mean_squared_error(&a, &b2), 16.0), fr(peak_signal_to_noise_ratio(&a, &b2), 1000.0)));
        }
    }
    for (w, h) in [(24u32, 20u32), (300, 1), (1, 290), (1100, 2), (2, 1100), (17, 31)] {
        let a: GrayImage = r.img(w, h);
        let b = GrayImage::from_pixel(w, h, Luma([255]));
        let c: GrayImage = Image::from_fn(w, h, |x, y| Luma([if x == w - 1 && y == h - 1 { 3 } else { 200 }]));
        for a in [a, b, c] {
            hist(r, &a);
            let ps: Vec<u8> = (0..=100).step_by(3).chain([99, 100]).collect();
            r.run(ev("percentile").a("im", &a).a("ps", &ps), || ps.iter().map(|&p| percentile(&a, p)).collect::<Vec<_>>());
            r.run(ev("extremes").a("im", &a), || { let e = find_extremes(&a); (e.max_value, e.min_value, e.max_value_location, e.min_value_location) });
        }
        let c: Image<Rgb<u8>> = r.img(w, h);
        hist(r, &c);
        let a: Image<Rgb<u8>> = r.img(w, h);
        let b: Image<Rgb<u8>> = Image::from_fn(w, h, |x, y| a.get_pixel(x, y).map(|v| if v > 200 { v - (x % 31) as u8 } else { v + (y % 23) as u8 }));
        r.run(ev("rmse").a("a", &a).a("b", &b), || (fr(root_mean_squared_error(&a, &b), 16.0), fr(peak_signal_to_noise_ratio(&a, &b), 1000.0)));
    }
    // pixel counts that hundredths divide exactly, and counts past 16 bits
    for (w, h) in [(10u32, 10u32), (100, 1), (1, 50), (5, 5), (25, 8), (20, 1), (20, 20)] {
        for k in 0..r.t(4, 40) {
            let a: GrayImage = if k == 0 { Image::from_fn(w, h, |x, y| Luma([((y * w + x) * 7 % 256) as u8])) } else { r.img(w, h) };
            let ps: Vec<u8> = (0..=100).collect();
            r.run(ev("percentile").a("im", &a).a("ps", &ps), || ps.iter().map(|&p| percentile(&a, p)).collect::<Vec<_>>());
        }
    }
    for k in 0..2u32 {
        let a: GrayImage = Image::from_fn(262, 260, |x, y| Luma([if (x * x + y) % 97 == k { 9 } else { 251 }]));
        hist(r, &a);
        let ps = vec![1u8, 2, 50, 98, 99, 100];
        r.run(ev("percentile").a("im", &a).a("ps", &ps), || ps.iter().map(|&p| percentile(&a, p)).collect::<Vec<_>>());
        r.run(ev("extremes").a("im", &a), || { let e = find_extremes(&a); (e.max_value, e.min_value, e.max_value_location, e.min_value_location) });
    }
    let a: GrayImage = Image::from_fn(16, 16, |x, y| Luma([(y * 16 + x) as u8]));
    hist(r, &a);
    let ps: Vec<u8> = (0..=100).collect();
    r.run(ev("percentile").a("im", &a).a("ps", &ps), || ps.iter().map(|&p| percentile(&a, p)).collect::<Vec<_>>());
    let f: Image<Luma<f32>> = Image::from_fn(7, 5, |x, y| Luma([((x * 3 + y * 5) % 11) as f32 - 4.0]));
    r.run(ev("extremes").a("im", &Raw(format!("{{\"w\":7,\"h\":5,\"c\":1,\"px\":{}}}", js(&f.as_raw().iter().map(|v| *v as i64).collect::<Vec<_>>())))),
        || { let e = find_extremes(&f); (e.max_value as i64, e.min_value as i64, e.max_value_location, e.min_value_location) });
}
fn stretch<P: Pixel<Subpixel = u8>>(r: &mut Rec, im: &Image<P>, il: u8, iu: u8, ol: u8, ou: u8) {
    r.run(ev("stretch").a("im", im).a("il", &il).a("iu", &iu).a("ol", &ol).a("ou", &ou), || {
        let mut m = im.clone();
        stretch_contrast_mut(&mut m, il, iu, ol, ou);
        vec![stretch_contrast(im, il, iu, ol, ou), m]
    });
}
fn c10(r: &mut Rec) {
    let ty = |s: &str| match s { "b" => ThresholdType::Binary, "bi" => ThresholdType::BinaryInverted, "tr" => ThresholdType::Truncate, "z" => ThresholdType::ToZero, _ => ThresholdType::ToZeroInverted };
    let all: GrayImage = Image::from_fn(16, 16, |x, y| Luma([(y * 16 + x) as u8]));
    let th = |r: &mut Rec, im: &GrayImage, t: u8| for s in ["b", "bi", "tr", "z", "zi"] {
        r.run(ev("threshold").a("im", im).a("t", &t).a("ty", s), || { let mut m = im.clone(); threshold_mut(&mut m, t, ty(s)); vec![threshold(im, t, ty(s)), m] });
    };
    for t in 0..=255u8 { th(r, &all, t) }
    for _ in 0..r.t(100, 2000) { let (w, h) = (r.dim(0, 6), r.dim(0, 6)); let a: GrayImage = r.img(w, h); let t = r.pick(&[0u8, 1, 127, 128, 254, 255]); th(r, &a, t) }
    for il in [0u8, 1, 20, 100, 127, 254, 255] { for iu in [0u8, 1, 2, 21, 100, 128, 254, 255] { for ol in [0u8, 1, 60, 255] { for ou in [0u8, 1, 59, 60, 200, 255] { stretch(r, &all, il, iu, ol, ou) } } } }
    for _ in 0..r.t(300, 6000) {
        let (il, iu, ol, ou) = (r.dim(0, 255) as u8, r.dim(0, 255) as u8, r.dim(0, 255) as u8, r.dim(0, 255) as u8);
        stretch(r, &all, il.min(iu), il.max(iu), ol.min(ou), ol.max(ou));
        let (w, h) = (r.dim(0, 5), r.dim(0, 5));
        let a: Image<Rgba<u8>> = r.img(w, h);
        stretch(r, &a, il, iu, ol, ou);
        stretch(r, &a, il.min(iu), il.max(iu), ol.min(ou), ol.max(ou));
        let a: Image<LumaA<u8>> = r.img(w, h);
        stretch(r, &a, il.min(iu), il.max(iu), ol.min(ou), ol.max(ou));
        let a: Image<Rgb<u8>> = r.img(w, h);
        stretch(r, &a, il.min(iu), il.max(iu), ol.min(ou), ol.max(ou));
    }
}
fn c11(r: &mut Rec) {
    for i in 0..r.t(700, 12000) {
        let (w, h) = if i < 25 { (i as u32 % 5 + 1, i as u32 / 5 + 1) } else { (r.dim(1, 7), r.dim(1, 7)) };
        let a: GrayImage = r.img(w, h);
        r.run(ev("equalize").a("im", &a), || { let mut v = pools(|| { let mut m = a.clone(); equalize_histogram_mut(&mut m); m }); v.push(equalize_histogram(&a)); v });
        let (tw, th) = if r.range(0, 1) == 0 { (w, h) } else { (r.dim(1, 7), r.dim(1, 7)) };
        let t: GrayImage = if i % 9 == 0 { a.clone() } else { r.img(tw, th) };
        r.run(ev("match").a("im", &a).a("target", &t), || { let mut m = a.clone(); match_histogram_mut(&mut m, &t); vec![match_histogram(&a, &t), m] });
    }
    // many pixels, the scaled share of the darker level just below, just above or at a whole number
    for n in [9973u32, 12289, 15013] { for rest in [n - 1, 0, 1, 2] { for _ in 0..2 {
        let k0 = r.dim(0, n as i64 - 1);
        let h = (0..n).map(|j| (j + k0) % n).find(|h| (255 * h) % n == rest).unwrap();
        let a: GrayImage = Image::from_fn(n, 1, |x, _| Luma([if x < h { 7 } else { 200 }]));
        r.run(ev("equalize").a("im", &a), || vec![equalize_histogram(&a)]);
    } } }
    let e = GrayImage::new(0, 3);
    r.run(ev("equalize").a("im", &e), || vec![equalize_histogram(&e)]);
    let all: GrayImage = Image::from_fn(16, 16, |x, y| Luma([(y * 16 + x) as u8]));
    r.run(ev("equalize").a("im", &all), || vec![equalize_histogram(&all)]);
    for (w, h) in [(20u32, 12u32), (1, 100), (100, 1), (300, 2), (1100, 2), (2, 1100), (60, 50)] {
        let (a, t): (GrayImage, GrayImage) = (r.img(w, h), r.img(h, w));
        r.run(ev("equalize").a("im", &a), || { let mut v = pools(|| { let mut m = a.clone(); equalize_histogram_mut(&mut m); m }); v.push(equalize_histogram(&a)); v });
        r.run(ev("match").a("im", &a).a("target", &t), || vec![match_histogram(&a, &t)]);
    }
}
fn c12(r: &mut Rec) {
    for w in 0..=5u32 { for h in 0..=5u32 { for br in 0..=4u32 { for delta in [-20, -1, 0, 1, 15] {
        let a: GrayImage = r.img(w, h);
        r.run(ev("adaptive").a("im", &a).a("r", &br).a("delta", &delta), || adaptive_threshold(&a, br, delta));
    } } } }
    for _ in 0..r.t(500, 10000) {
        let (w, h, br, delta) = (r.dim(1, 10), r.dim(1, 10), r.dim(1, 6), r.pick(&[0, 0, 1, -1, 7, -30, 255, -255, 300, -300]));
        let a: GrayImage = r.img(w, h);
        r.run(ev("adaptive").a("im", &a).a("r", &br).a("delta", &delta), || adaptive_threshold(&a, br, delta));
        let m = r.pick(&[255u8, 3, 20]);
        let a: GrayImage = Image::from_fn(w, h, |x, y| Luma([a.get_pixel(x, y)[0] % m]));
        r.run(ev("adaptive").a("im", &a).a("r", &br).a("delta", &0), || adaptive_threshold(&a, br, 0));
    }
    for (w, h, br) in [(40u32, 3u32, 10u32), (3, 40, 100), (20, 20, 2), (1, 30, 3), (5, 6, 32767), (6, 5, 32768), (4, 7, 65536), (7, 4, 40000), (3, 3, 1 << 30), (300, 2, 7), (1100, 1, 5), (1, 1100, 5), (2, 300, 9), (300, 1, 300), (17, 24, 30)] {
        let a: GrayImage = r.img(w, h);
        r.run(ev("adaptive").a("im", &a).a("r", &br).a("delta", &0), || adaptive_threshold(&a, br, 0));
    }
    // Otsu: (value range, pixel count) pairs for which the criterion is exact in 32-bit integers
    for _ in 0..r.t(1500, 30000) {
        let (m, w, h) = r.pick(&[(256i64, 1i64, 2i64), (256, 2, 2), (256, 1, 5), (256, 2, 3), (61, 4, 3), (61, 1, 11), (16, 5, 5), (6, 6, 6), (40, 4, 4)]);
        let off = r.range(0, 256 - m);
        let v = r.samples((w * h) as usize, m - 1).into_iter().map(|x| (x + if m < 61 { 0 } else { off.min(255 - x) * 0 }) as u8).collect();
        let a: GrayImage = Image::from_raw(w as u32, h as u32, v).unwrap();
        r.run(ev("otsu").a("im", &a), || otsu_level(&a));
    }
    for _ in 0..r.t(120, 2500) {
        let (w, h) = r.pick(&[(9u32, 9u32), (12, 12), (30, 3), (4, 40), (20, 20)]);
        let m = r.pick(&[2i64, 5, 60, 255]);
        let base = r.range(0, 255 - m);
        let v = r.samples((w * h) as usize, m).into_iter().map(|x| (base + x) as u8).collect();
        let a: GrayImage = Image::from_raw(w, h, v).unwrap();
        r.run(ev("otsu").a("im", &a), || otsu_level(&a));
    }
    // photo finishes: of many small images, those whose two best levels are all but tied
    for (n, m) in [(40usize, 12i64), (90, 30), (60, 255)] {
        let mut best: Vec<(f64, Vec<u8>)> = vec![];
        let mut z = r.range(1, 1 << 30) as u64;
        for _ in 0..r.t(60_000, 1_000_000) {
            let v: Vec<u8> = (0..n).map(|_| { z = z.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); ((z >> 33) % (m as u64 + 1)) as u8 }).collect();
            let mut h = [0i64; 256];
            for &x in &v { h[x as usize] += 1 }
            let total: i64 = v.iter().map(|&x| x as i64).sum();
            let (mut wb, mut sb, mut top) = (0i64, 0i64, [0f64; 2]);
            for (x, &c) in h.iter().enumerate().take(m as usize + 1) {
                if c == 0 { continue }
                wb += c;
                sb += x as i64 * c;
                let wf = n as i64 - wb;
                if wf == 0 { break }
                let d = (sb * wf - (total - sb) * wb) as f64;
                let f = d * d / (wb * wf) as f64;
                if f > top[0] { top = [f, top[0]] } else if f > top[1] { top[1] = f }
            }
            let gap = 1.0 - top[1] / top[0];
            if gap > 1e-12 && (best.len() < 6 || gap < best[5].0) {
                best.push((gap, v));
                best.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
                best.truncate(6);
            }
        }
        for (_, v) in best {
            let a: GrayImage = Image::from_raw(n as u32 / 10, 10, v).unwrap();
            r.run(ev("otsu").a("im", &a), || otsu_level(&a));
        }
    }
    for (lo, hi) in [(250u8, 252u8), (0, 255), (3, 4), (100, 180)] {
        let a: GrayImage = Image::from_fn(262, 260, |x, y| Luma([if (x * x + y) % 97 == 5 { lo } else if x % 250 == 7 { hi - 1 } else { hi }]));
        r.run(ev("otsu").a("im", &a), || otsu_level(&a));
    }
    // shifted small ranges: the criterion is translation invariant, so high intensities are covered too
    for _ in 0..r.t(300, 6000) {
        let (w, h) = (r.dim(1, 3), r.dim(1, 2));
        let base = r.range(0, 200);
        let v = (0..w * h).map(|_| (base + r.range(0, 55)) as u8).collect();
        let a: GrayImage = Image::from_raw(w, h, v).unwrap();
        r.run(ev("otsu").a("im", &a), || otsu_level(&a));
    }
}
fn c08_far(r: &mut Rec) {
    for (dx, dy) in FAR {
        let (w, h) = (10u32, 9u32);
        let a: GrayImage = r.img(w, h);
        let big = far(&a, Luma([0]), dx, dy);
        r.run(ev("integral").a("im", &a), || vec![corner(&integral_image::<_, u32>(&big), w + 1, h + 1)]);
        r.run(ev("integral_sq").a("im", &a), || vec![corner(&integral_squared_image::<_, u32>(&big), w + 1, h + 1)]);
        let rs = vec![(0, 0, w - 1, h - 1), (2, 1, 7, 3), (8, 6, 9, 8), (0, 4, 5, 4)];
        r.run(ev("sums").a("im", &a).a("rs", &rs), || {
            let t = integral_image::<_, u32>(&big);
            rs.iter().map(|q| sum_image_pixels(&t, q.0 + dx, q.1 + dy, q.2 + dx, q.3 + dy)).collect::<Vec<_>>()
        });
        r.run(ev("variance").a("im", &a).a("rs", &rs), || {
            let (t, q) = (integral_image::<_, u32>(&big), integral_squared_image::<_, u32>(&big));
            rs.iter().map(|s| { let n = ((s.2 - s.0 + 1) * (s.3 - s.1 + 1)) as f64; limbs(variance(&t, &q, s.0 + dx, s.1 + dy, s.2 + dx, s.3 + dy) * n * n) }).collect::<Vec<_>>()
        });
    }
    // rows and columns far into a large image, recorded as the line alone
    let big: GrayImage = Image::from_fn(300, 300, |x, y| Luma([(x * 7 + y * 13 + x * y % 11) as u8]));
    for i in [0u32, 127, 128, 218, 219, 255, 256, 299] { for pad in [0u32, 3] {
        let n = (300 + 2 * pad) as usize;
        let line: GrayImage = Image::from_fn(300, 1, |x, _| *big.get_pixel(x, i));
        r.run(ev("row_sum").a("im", &line).a("i", &0).a("pad", &pad).a("n", &n), || { let mut b = vec![0; n]; row_running_sum(&big, i, &mut b, pad); b });
        let line: GrayImage = Image::from_fn(1, 300, |_, y| *big.get_pixel(i, y));
        r.run(ev("col_sum").a("im", &line).a("i", &0).a("pad", &pad).a("n", &n), || { let mut b = vec![0; n]; column_running_sum(&big, i, &mut b, pad); b });
    } }
    for (w, h) in [(66000u32, 2u32), (2, 66000)] {
        let big: GrayImage = Image::from_fn(w, h, |x, y| Luma([if x + y > 65530 { (x * 3 + y) as u8 } else { 1 }]));
        if w > h {
            let line: GrayImage = Image::from_fn(w, 1, |x, _| *big.get_pixel(x, 1));
            r.run(ev("row_sum").a("im", &line).a("i", &0).a("pad", &2).a("n", &(w + 4)), || { let mut b = vec![0; w as usize + 4]; row_running_sum(&big, 1, &mut b, 2); b });
        } else {
            let line: GrayImage = Image::from_fn(1, h, |_, y| *big.get_pixel(1, y));
            r.run(ev("col_sum").a("im", &line).a("i", &0).a("pad", &2).a("n", &(h + 4)), || { let mut b = vec![0; h as usize + 4]; column_running_sum(&big, 1, &mut b, 2); b });
        }
    }
}
/// Counts of an image of s by s blocks, back to counts of blocks.
fn per_block(v: Vec<[u32; 256]>, s: u32) -> Vec<Vec<i64>> {
    v.iter().map(|c| c.iter().map(|&n| if n % (s * s) == 0 { (n / (s * s)) as i64 } else { -1 }).collect()).collect()
}
fn c09_large(r: &mut Rec) {
    // 43 million and 17 million pixels: images of uniform blocks have the statistics of the image of blocks
    let a: GrayImage = r.img(6, 6);
    let big = blow(&a, 1100);
    let ps = vec![0u8, 1, 33, 50, 100];
    r.run(ev("percentile").a("im", &a).a("ps", &ps), || ps.iter().map(|&p| percentile(&big, p)).collect::<Vec<_>>());
    let (a, s): (GrayImage, u32) = (r.img(4, 4), 300);
    let big = blow(&a, s);
    r.run(ev("hist").a("im", &a), || vec![per_block(histogram(&big).channels, s), per_block(cumulative_histogram(&big).channels, s)]);
    let ps = vec![0u8, 1, 24, 25, 50, 51, 75, 99, 100];
    r.run(ev("percentile").a("im", &a).a("ps", &ps), || ps.iter().map(|&p| percentile(&big, p)).collect::<Vec<_>>());
    r.run(ev("extremes").a("im", &a), || { let e = find_extremes(&big); let f = |(x, y): (u32, u32)| if x % s == 0 && y % s == 0 { (x / s, y / s) } else { (77, 77) }; (e.max_value, e.min_value, f(e.max_value_location), f(e.min_value_location)) });
    r.run(ev("min_max").a("im", &a), || min_max(&big).iter().map(|m| (m.min, m.max)).collect::<Vec<_>>());
    // 16-bit samples: the peak is 65535
    for d in [0u16, 1, 10, 100, 7] { for (w, h) in [(1u32, 1u32), (3, 4), (20, 2)] {
        let v: Vec<u16> = r.samples((w * h) as usize, 65000).into_iter().map(|x| x as u16 + 200).collect();
        let a: Image<Luma<u16>> = Image::from_raw(w, h, v).unwrap();
        let b: Image<Luma<u16>> = Image::from_fn(w, h, |x, y| a.get_pixel(x, y).map(|v| if (x + y) % 2 == 0 { v + d } else { v - d }));
        r.run(ev("rmse16").a("a", &a).a("b", &b), || (fr(root_mean_squared_error(&a, &b), 16.0), fr(peak_signal_to_noise_ratio(&a, &b), 1000.0)));
    } }
    let (a, b): (GrayImage, GrayImage) = (r.img(3, 3), r.img(3, 3));
    for (a, b) in [(a, b.clone()), (GrayImage::new(3, 3), GrayImage::from_pixel(3, 3, Luma([255]))), (b.clone(), b)] {
        let (p, q) = (blow(&a, 200), blow(&b, 200));
        r.run(ev("rmse").a("a", &a).a("b", &b), || (fr(root_mean_squared_error(&p, &q), 16.0), fr(peak_signal_to_noise_ratio(&p, &q), 1000.0)));
    }
}
fn c11_large(r: &mut Rec) {
    for s in [700u32, 90] {
        let (a, t): (GrayImage, GrayImage) = (r.img(6, 6), r.img(5, 7));
        let (p, q) = (blow(&a, s), blow(&t, s));
        r.run(ev("equalize").a("im", &a), || { let mut m = p.clone(); equalize_histogram_mut(&mut m); vec![shrink(&equalize_histogram(&p), s), shrink(&m, s)] });
        r.run(ev("match").a("im", &a).a("target", &t), || vec![shrink(&match_histogram(&p, &q), s)]);
        r.run(ev("match").a("im", &a).a("target", &t), || vec![shrink(&match_histogram(&p, &t), s), match_histogram(&a, &q)]);
    }
    let (a, t) = (GrayImage::from_pixel(1, 1, Luma([3])), GrayImage::from_pixel(1, 1, Luma([9])));
    let (p, q) = (blow(&a, 4200), blow(&t, 4200));
    r.run(ev("equalize").a("im", &a), || vec![shrink(&equalize_histogram(&p), 4200)]);
    r.run(ev("match").a("im", &a).a("target", &t), || vec![shrink(&match_histogram(&p, &q), 4200)]);
}
fn c12_large(r: &mut Rec) {
    for (a, s) in [(r.img::<Luma<u8>>(6, 6), 700u32), (Image::from_fn(6, 6, |x, y| Luma([if x > y { 250 } else { 240 + x as u8 }])), 1000), (Image::from_fn(2, 1, |x, _| Luma([254 + x as u8])), 3000)] {
        let big = blow(&a, s);
        r.run(ev("otsu").a("im", &a), || otsu_level(&big));
    }
    // one pixel u in an image of v, the block covering everything
    for (w, h, v, u, delta) in [(66000u32, 256u32, 255u8, 254u8, 0i32), (256, 66000, 255, 0, 1), (600, 600, 200, 199, 0), (600, 600, 200, 201, 0), (700, 500, 3, 0, 0), (1000, 3, 255, 254, 0), (700, 500, 200, 199, 1), (3, 3, 9, 8, i32::MIN), (3, 3, 9, 8, i32::MAX), (2, 5, 0, 255, i32::MIN + 1)] {
        let mut big = GrayImage::from_pixel(w, h, Luma([v]));
        big.put_pixel(w / 2, h - 1, Luma([u]));
        let br = if w * h < 100 { u32::MAX } else { w.max(h) };
        r.run(ev("adapt_one").a("w", &w).a("h", &h).a("v", &v).a("u", &u).a("delta", &delta), || {
            let o = adaptive_threshold(&big, br, delta);
            let m = o.get_pixel(w / 2, h - 1)[0];
            let white = o.as_raw().iter().filter(|&&p| p == 255).count() as i64 - (m == 255) as i64;
            let black = o.as_raw().iter().filter(|&&p| p == 0).count() as i64 - (m == 0) as i64;
            (white, black, m)
        });
    }
    for (w, h, br) in [(5u32, 6u32, u32::MAX), (6, 5, u32::MAX - 1), (4, 7, 1 << 31), (7, 4, (1 << 31) - 1), (3, 3, u32::MAX - 2)] { for delta in [0, i32::MIN, i32::MAX, 1 - i32::MAX, 20] {
        let a: GrayImage = r.img(w, h);
        r.run(ev("adaptive").a("im", &a).a("r", &br).a("delta", &delta), || adaptive_threshold(&a, br, delta));
    } }
    for (dx, dy) in FAR { for (br, delta) in [(1u32, 0i32), (3, 5), (2, -4)] {
        let mut a: GrayImage = r.img(14, 13);
        margin(&mut a, Luma([100]), 1);
        // the columns and rows whose block reaches past the margin see other block sizes: left out
        let big = far(&a, Luma([100]), dx, dy);
        r.run(ev("adapt_part").a("im", &a).a("r", &br).a("delta", &delta).a("x0", &(if dx > 0 { br } else { 0 })).a("y0", &(if dy > 0 { br } else { 0 })), || corner(&adaptive_threshold(&big, br, delta), 14, 13));
    } }
}
// Middling, picture-like images.
fn mid(r: &mut Rec) {
    for i in 0..r.t(24, 250) {
        let (w, h) = (r.dim(13, 90), r.dim(13, 90));
        let a = r.mid(w, h);
        let c: Image<Rgb<u8>> = if i % 2 == 0 { r.img(w / 2, h / 2) } else { let (p, q) = (r.scene(w, h), r.scene(w, h)); Image::from_fn(w / 2, h / 2, |x, y| Rgb([p.get_pixel(x, y)[0], q.get_pixel(x, y)[0], 255 - p.get_pixel(x, y)[0]])) };
        match r.prop.as_str() {
            "C08" => {
                sums(r, &a);
                sums(r, &c);
                for _ in 0..3 {
                    let (y, x, pad) = (r.dim(0, h as i64 - 1), r.dim(0, w as i64 - 1), r.dim(0, 60));
                    let extra = r.dim(0, 9);
                    let n = (w + 2 * pad + extra) as usize;
                    r.run(ev("row_sum").a("im", &a).a("i", &y).a("pad", &pad).a("n", &n), || { let mut b = vec![5; n]; row_running_sum(&a, y, &mut b, pad); b });
                    let n = (h + 2 * pad + extra) as usize;
                    r.run(ev("col_sum").a("im", &a).a("i", &x).a("pad", &pad).a("n", &n), || { let mut b = vec![5; n]; column_running_sum(&a, x, &mut b, pad); b });
                }
            }
            "C09" => {
                hist(r, &a);
                hist(r, &c);
                let ps: Vec<u8> = (0..=100).step_by(7).chain([r.dim(0, 100) as u8, 100]).collect();
                r.run(ev("percentile").a("im", &a).a("ps", &ps), || ps.iter().map(|&p| percentile(&a, p)).collect::<Vec<_>>());
                r.run(ev("extremes").a("im", &a), || { let e = find_extremes(&a); (e.max_value, e.min_value, e.max_value_location, e.min_value_location) });
                let d = r.dim(0, 9) as u8;
                let b: Image<Rgb<u8>> = Image::from_fn(c.width(), c.height(), |x, y| c.get_pixel(x, y).map(|v| if v > 99 { v.saturating_sub((x % 13) as u8 * d) } else { v + (y % 11) as u8 * d }));
                r.run(ev("rmse").a("a", &c).a("b", &b), || (fr(root_mean_squared_error(&c, &b), 16.0), fr(peak_signal_to_noise_ratio(&c, &b), 1000.0)));
            }
            "C10" => {
                let t = r.dim(0, 255) as u8;
                let ty = |s: &str| match s { "b" => ThresholdType::Binary, "bi" => ThresholdType::BinaryInverted, "tr" => ThresholdType::Truncate, "z" => ThresholdType::ToZero, _ => ThresholdType::ToZeroInverted };
                for s in ["b", "bi", "tr", "z", "zi"] {
                    r.run(ev("threshold").a("im", &a).a("t", &t).a("ty", s), || { let mut m = a.clone(); threshold_mut(&mut m, t, ty(s)); vec![threshold(&a, t, ty(s)), m] });
                }
                let (il, iu, ol, ou) = (r.dim(0, 120) as u8, r.dim(121, 255) as u8, r.dim(0, 100) as u8, r.dim(101, 255) as u8);
                stretch(r, &a, il, iu, ol, ou);
                stretch(r, &c, il, iu, ol, ou);
                let c: Image<Rgba<u8>> = r.img(w, h / 4);
                stretch(r, &c, il, iu, ol, ou);
            }
            "C11" => {
                r.run(ev("equalize").a("im", &a), || { let mut v = pools(|| { let mut m = a.clone(); equalize_histogram_mut(&mut m); m }); v.push(equalize_histogram(&a)); v });
                let (tw, th) = (r.dim(10, 60), r.dim(10, 60));
                let t = r.scene(tw, th);
                r.run(ev("match").a("im", &a).a("target", &t), || { let mut m = a.clone(); match_histogram_mut(&mut m, &t); vec![match_histogram(&a, &t), m] });
            }
            _ => {
                r.run(ev("otsu").a("im", &a), || otsu_level(&a));
                let (w, h, br, delta) = (r.dim(13, 40), r.dim(13, 40), r.dim(3, 14), r.dim(0, 20) as i32 - 10);
                let a = r.scene(w, h);
                r.run(ev("adaptive").a("im", &a).a("r", &br).a("delta", &delta), || adaptive_threshold(&a, br, delta));
                r.run(ev("otsu").a("im", &a), || otsu_level(&a));
            }
        }
    }
}
fn main() {
    let mut r = Rec::start();
    match r.prop.as_str() { "C08" => { c08(&mut r); c08_far(&mut r) } "C09" => { c09(&mut r); c09_large(&mut r) } "C10" => c10(&mut r), "C11" => { c11(&mut r); c11_large(&mut r) } _ => { c12(&mut r); c12_large(&mut r) } }
    mid(&mut r);
    r.finish();
}
