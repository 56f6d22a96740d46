use image::math::Rect;
use image::{GrayImage, LumaA, Luma, Pixel, Rgb, Rgba};
use imageproc::compose::*;
use imageproc::definitions::Image;
use vh::*;

/// The image crate's blend on every pixel pair that can meet.
fn table<P: Pixel<Subpixel = u8>>(a: &Image<P>, b: &Image<P>) -> Raw {
    let mut seen = std::collections::BTreeMap::new();
    for p in a.pixels() {
        for q in b.pixels() {
            let mut r = *p;
            r.blend(q);
            seen.insert((p.channels().to_vec(), q.channels().to_vec()), r.channels().to_vec());
        }
    }
    let items: Vec<String> = seen.iter().map(|((b, t), r)| format!("{{\"b\":{},\"t\":{},\"r\":{}}}", js(b), js(t), js(r))).collect();
    Raw(format!("[{}]", items.join(",")))
}

fn crop_ev<P: Pixel<Subpixel = u8> + Send + Sync>(r: &mut Rec, im: &Image<P>, x: u32, y: u32, w: u32, h: u32) {
    let rect = Rect { x, y, width: w, height: h };
    r.run(ev("crop").a("im", im).a("x", &x).a("y", &y).a("w", &w).a("h", &h), || {
        let mut o = vec![crop(im, rect)];
        o.push(crop_parallel(im, rect));
        o
    });
    // the parallel form must panic on its own as well
    r.run(ev("crop").a("im", im).a("x", &x).a("y", &y).a("w", &w).a("h", &h), || pools(|| crop_parallel(im, rect)));
}
fn flips<P: Pixel<Subpixel = u8>>(r: &mut Rec, im: &Image<P>) {
    r.run(ev("flip_h").a("im", im), || {
        let mut m = im.clone();
        flip_horizontal_mut(&mut m);
        vec![flip_horizontal(im), m]
    });
    r.run(ev("flip_v").a("im", im), || {
        let mut m = im.clone();
        flip_vertical_mut(&mut m);
        vec![flip_vertical(im), m]
    });
}
fn place<P: Pixel<Subpixel = u8>>(r: &mut Rec, b: &Image<P>, t: &Image<P>, x: u32, y: u32, over: bool) {
    r.run(ev("replace").a("im", b).a("top", t).a("x", &x).a("y", &y), || {
        let mut m = b.clone();
        replace_mut(&mut m, t, x, y);
        vec![replace(b, t, x, y), m]
    });
    if over {
        r.run(ev("overlay").a("im", b).a("top", t).a("x", &x).a("y", &y).a("bl", &table(b, t)), || {
            let mut m = b.clone();
            overlay_mut(&mut m, t, x, y);
            vec![overlay(b, t, x, y), m]
        });
    }
}
fn session<P: Pixel<Subpixel = u8> + Send + Sync>(r: &mut Rec, len: usize) {
    let (w, h) = (r.dim(1, 6), r.dim(1, 6));
    let mut im: Image<P> = r.img(w, h);
    r.run(ev("begin").a("im", &im), || 0);
    for _ in 0..len {
        match r.range(0, 5) {
            0 => { let mut m = im.clone(); if r.run(ev("s_flip_h").cont(), || { flip_horizontal_mut(&mut m); m.clone() }).is_some() { im = m } }
            1 => { let mut m = im.clone(); if r.run(ev("s_flip_v").cont(), || { flip_vertical_mut(&mut m); m.clone() }).is_some() { im = m } }
            2 | 3 => {
                let (tw, th) = (r.dim(0, 4), r.dim(0, 4));
                let t: Image<P> = r.img(tw, th);
                let (x, y) = (r.dim(0, 6), r.dim(0, 6));
                let mut m = im.clone();
                if r.run(ev("s_replace").cont().a("top", &t).a("x", &x).a("y", &y), || { replace_mut(&mut m, &t, x, y); m.clone() }).is_some() { im = m }
            }
            4 => {
                let (tw, th) = (r.dim(0, 3), r.dim(0, 3));
                let t: Image<P> = r.img(tw, th);
                let (x, y) = (r.dim(0, 6), r.dim(0, 6));
                let mut m = im.clone();
                let tb = table(&im, &t);
                if r.run(ev("s_overlay").cont().a("top", &t).a("x", &x).a("y", &y).a("bl", &tb), || { overlay_mut(&mut m, &t, x, y); m.clone() }).is_some() { im = m }
            }
            _ => {
                let (x, y) = (r.dim(0, 1), r.dim(0, 1));
                let (w, h) = (r.dim(0, im.width() as i64), r.dim(0, im.height() as i64));
                let m = im.clone();
                if let Some(o) = r.run(ev("s_crop").cont().a("x", &x).a("y", &y).a("w", &w).a("h", &h), || crop(&m, Rect { x, y, width: w, height: h })) { im = o }
            }
        }
    }
}

/// The image is the far corner of a large one, its origin at (dx, dy); nothing else may change.
fn distant(r: &mut Rec) {
    for (dx, dy) in FAR { for _ in 0..3 {
        let (w, h) = (r.dim(3, 12), r.dim(3, 12));
        let (im, bg): (Image<Rgb<u8>>, _) = (r.img(w, h), Rgb([3, 250, 77]));
        let big = far(&im, bg, dx, dy);
        r.run(ev("flip_h").a("im", &im), || { let mut m = big.clone(); flip_horizontal_mut(&mut m); vec![cut_only(&flip_horizontal(&big), bg, 0, dy, w, h), cut_only(&m, bg, 0, dy, w, h)] });
        r.run(ev("flip_v").a("im", &im), || { let mut m = big.clone(); flip_vertical_mut(&mut m); vec![cut_only(&flip_vertical(&big), bg, dx, 0, w, h), cut_only(&m, bg, dx, 0, w, h)] });
        let (x, y) = (r.dim(0, w as i64), r.dim(0, h as i64));
        for (cw, ch) in [(w - x, h - y), (r.dim(0, 12), r.dim(0, 12)), (w - x + 1, h - y)] {
            let rect = Rect { x: x + dx, y: y + dy, width: cw, height: ch };
            r.run(ev("crop").a("im", &im).a("x", &x).a("y", &y).a("w", &cw).a("h", &ch), || { let mut o = vec![crop(&big, rect)]; o.extend(pools(|| crop_parallel(&big, rect))); o });
        }
        let (tw, th) = (r.dim(0, 12), r.dim(0, 12));
        let t: Image<Rgb<u8>> = r.img(tw, th);
        r.run(ev("replace").a("im", &im).a("top", &t).a("x", &x).a("y", &y), || {
            let mut m = big.clone();
            replace_mut(&mut m, &t, x + dx, y + dy);
            [replace(&big, &t, x + dx, y + dy), m].iter().map(|o| cut_only(o, bg, dx, dy, w, h)).collect::<Vec<_>>()
        });
        let (im, bg): (Image<Rgba<u8>>, _) = (r.img(3, 2), Rgba([9, 9, 0, 40]));
        let big = far(&im, bg, dx, dy);
        let t: Image<Rgba<u8>> = r.img(2, 2);
        let (x, y) = (r.dim(0, 2), r.dim(0, 1));
        r.run(ev("overlay").a("im", &im).a("top", &t).a("x", &x).a("y", &y).a("bl", &table(&im, &t)), || {
            let mut m = big.clone();
            overlay_mut(&mut m, &t, x + dx, y + dy);
            [overlay(&big, &t, x + dx, y + dy), m].iter().map(|o| cut_only(o, bg, dx, dy, 3, 2)).collect::<Vec<_>>()
        });
        // the whole of a large image but its first column or row
        let (im, bg): (GrayImage, _) = (r.img(4, 3), Luma([200]));
        let big = far(&im, bg, dx, dy);
        r.run(ev("crop").a("im", &im).a("x", &0).a("y", &0).a("w", &4).a("h", &3), || {
            let rect = Rect { x: dx.min(1), y: dy.min(1), width: big.width() - dx.min(1), height: big.height() - dy.min(1) };
            let mut o = vec![crop(&big, rect)];
            o.extend(pools(|| crop_parallel(&big, rect)));
            o.iter().map(|o| cut_only(o, bg, dx - dx.min(1), dy - dy.min(1), 4, 3)).collect::<Vec<_>>()
        });
        // and a large top on it
        r.run(ev("replace").a("im", &GrayImage::new(4, 3)).a("top", &im).a("x", &0).a("y", &0), || {
            let b = GrayImage::new(big.width(), big.height());
            let mut m = b.clone();
            replace_mut(&mut m, &big, 0, 0);
            [replace(&b, &big, 0, 0), m].iter().map(|o| cut_only(o, bg, dx, dy, 4, 3)).collect::<Vec<_>>()
        });
    } }
}

fn main() {
    let mut r = Rec::start();
    distant(&mut r);
    // every small shape, every rectangle / offset (exhaustive)
    for w in 0..=4u32 {
        for h in 0..=4u32 {
            let im: GrayImage = Image::from_fn(w, h, |x, y| Luma([(10 * y + x + 1) as u8]));
            flips(&mut r, &im);
            for x in 0..=w + 1 { for y in 0..=h + 1 { for cw in 0..=w + 1 { for ch in 0..=h + 1 {
                if !r.thorough && w * h > 6 && (x + 2 * y + 3 * cw + 5 * ch) % 3 != 0 { continue }
                crop_ev(&mut r, &im, x, y, cw, ch);
            } } } }
        }
    }
    for w in 0..=4u32 { for h in 0..=3u32 {
        let b: GrayImage = Image::from_fn(w, h, |x, y| Luma([(10 * y + x + 1) as u8]));
        for tw in 0..=3u32 { for th in 0..=3u32 {
            let t: GrayImage = Image::from_fn(tw, th, |x, y| Luma([(100 + 10 * y + x) as u8]));
            for x in 0..=w { for y in 0..=h { place(&mut r, &b, &t, x, y, false); } }
        } }
    } }
    for _ in 0..r.t(250, 5000) {
        let (w, h) = (r.dim(1, 7), r.dim(1, 7));
        let a: Image<Rgb<u8>> = r.img(w, h);
        flips(&mut r, &a);
        let (x, y, cw, ch) = (r.dim(0, w as i64), r.dim(0, h as i64), r.dim(0, w as i64 + 1), r.dim(0, h as i64 + 1));
        crop_ev(&mut r, &a, x, y, cw, ch);
        let (tw, th, x, y) = (r.dim(0, 5), r.dim(0, 5), r.dim(0, w as i64 - 1), r.dim(0, h as i64 - 1));
        let t: Image<Rgb<u8>> = r.img(tw, th);
        place(&mut r, &a, &t, x, y, false);
        if r.n % 2 == 0 { let a: Image<Rgba<u8>> = r.img(w, h); flips(&mut r, &a); crop_ev(&mut r, &a, x, y, cw, ch) }
        else { let a: Image<LumaA<u8>> = r.img(w, h); flips(&mut r, &a); crop_ev(&mut r, &a, x, y, cw, ch) }
        let b: Image<Rgba<u8>> = r.img(w.min(4), h.min(4));
        let t: Image<Rgba<u8>> = r.img(tw.min(3), th.min(3));
        place(&mut r, &b, &t, x, y, true);
        // over itself, and from few colours
        if r.n % 3 == 0 { place(&mut r, &b, &b, 0, 0, true) }
        let pal = [Rgba([9u8, 200, 0, 77]), Rgba([9, 200, 0, 180]), Rgba([255, 1, 9, 0]), Rgba([0, 0, 0, 255])];
        let few = |r: &mut Rec, w, h| -> Image<Rgba<u8>> { let mut o = Image::new(w, h); for p in o.pixels_mut() { *p = r.pick(&pal) } o };
        if r.n % 3 == 1 { let (b, t) = (few(&mut r, 4, 3), few(&mut r, 3, 3)); place(&mut r, &b, &t, 1, 0, true) }
        let b: Image<LumaA<u8>> = r.img(w.min(4), h.min(4));
        if r.n % 3 == 2 { place(&mut r, &b, &b, 0, 0, true) }
        let t: Image<LumaA<u8>> = r.img(tw.min(3), th.min(3));
        place(&mut r, &b, &t, x, y, true);
        let b: Image<Luma<u8>> = r.img(w.min(4), h.min(4));
        let t: Image<Luma<u8>> = r.img(tw.min(3), th.min(3));
        place(&mut r, &b, &t, x, y, true);
    }
    for (w, h) in [(33u32, 20u32), (64, 3), (1, 70), (70, 1), (17, 40)] {
        let a: GrayImage = r.img(w, h);
        flips(&mut r, &a);
        let t: GrayImage = r.img(h.min(30), w.min(30));
        for (x, y) in [(0, 0), (w - 1, h - 1), (w / 2, h / 3), (w.saturating_sub(t.width()).min(w - 1), h.saturating_sub(t.height()).min(h - 1))] {
            place(&mut r, &a, &t, x, y, false);
            crop_ev(&mut r, &a, x, y, w - x, h - y);
        }
    }
    // sizes past 8-bit and past any plausible block length
    for (w, h) in [(1300u32, 1u32), (1, 1300), (700, 2), (2, 700), (260, 5), (5, 260)] {
        let a: GrayImage = r.img(w, h);
        flips(&mut r, &a);
        let t: GrayImage = r.img(w - w / 3, h.min(3));
        for (x, y) in [(0, 0), (w / 3, 0), (w - 1, h - 1), (w / 2, h / 2)] {
            place(&mut r, &a, &t, x, y, false);
            crop_ev(&mut r, &a, x, y, w - x, h - y);
        }
        crop_ev(&mut r, &a, 0, 0, w, h);
        if r.thorough || w * h < 1300 {
            let (a, t): (Image<Rgba<u8>>, Image<Rgba<u8>>) = (Image::from_pixel(w, h, Rgba([10, 200, 3, 90])), Image::from_pixel(w.max(4) - 3, h, Rgba([77, 1, 250, 128])));
            place(&mut r, &a, &t, 1.min(w - 1), 0, true);
            flips(&mut r, &a);
        }
    }
    for (w, h) in [(300u32, 280u32)] {
        let a: GrayImage = r.img(w, h);
        flips(&mut r, &a);
        crop_ev(&mut r, &a, 20, 10, 270, 262);
        let t: GrayImage = r.img(275, 266);
        place(&mut r, &a, &t, 11, 9, false);
    }
    for _ in 0..r.t(100, 1500) {
        session::<Luma<u8>>(&mut r, 10);
        session::<Rgba<u8>>(&mut r, 8);
    }
    r.finish();
}
