use image::{GrayImage, Luma, LumaA, Rgb, Rgba};
use imageproc::contours::*;
use imageproc::drawing::{flood_fill, flood_fill_mut};
use imageproc::edges::canny;
use imageproc::filter::gaussian_blur_f32;
use imageproc::region_labelling::*;
use imageproc::union_find::DisjointSetForest;
use vh::image::{ImageBuffer, Pixel};
use vh::*;

fn cc<P: Pixel + Eq>(r: &mut Rec, im: &ImageBuffer<P, Vec<P::Subpixel>>, bg: P) where P::Subpixel: J + Eq {
    for (k, c) in [(4, Connectivity::Four), (8, Connectivity::Eight)] {
        r.run(ev("cc").a("im", im).a("bg", bg.channels()).a("conn", &k), || connected_components(im, c, bg));
    }
}
fn c17(r: &mut Rec) {
    for w in 0..=4u32 { for h in 0..=4u32 {
        if w * h <= 6 { for im in all_images(w, h, &[0, 1, 2]).collect::<Vec<_>>() { cc(r, &im, Luma([0])) } }
        else if w * h <= if r.thorough { 16 } else { 9 } { for im in all_images(w, h, &[0, 1]).collect::<Vec<_>>() { cc(r, &im, Luma([0])) } }
    } }
    for _ in 0..r.t(400, 6000) {
        let (w, h) = (r.dim(1, 12), r.dim(1, 12));
        let n = r.range(1, 4) as u8;
        let mut im = GrayImage::from_fn(w, h, |_, _| Luma([0]));
        let dense = r.pick(&[30i64, 60, 75, 90]);
        for p in im.pixels_mut() { if r.range(0, 99) < dense { p.0[0] = r.range(1, n as i64) as u8 } }
        let bg = r.pick(&[0u8, 0, 0, 1, 200]);
        cc(r, &im, Luma([bg]));
    }
    for _ in 0..r.t(60, 600) {
        let (w, h) = (r.dim(1, 7), r.dim(1, 7));
        let pal = [Rgb([1u8, 2, 3]), Rgb([1, 2, 4]), Rgb([0, 2, 3])];
        let im = ImageBuffer::from_fn(w, h, |_, _| pal[r.range(0, 3 - 1) as usize]);
        cc(r, &im, pal[0]);
        // colours that differ in transparency only; transparent pixels are no background
        let pal = [Rgba([1u8, 2, 3, 0]), Rgba([1, 2, 3, 255]), Rgba([0, 0, 0, 0]), Rgba([0, 0, 0, 9])];
        let n = r.range(1, 3);
        let im = ImageBuffer::from_fn(w, h, |_, _| pal[r.range(0, n) as usize]);
        let bg = r.pick(&[pal[0], pal[2], pal[1]]);
        cc(r, &im, bg);
        let im = ImageBuffer::from_fn(w, h, |_, _| LumaA([r.range(0, 1) as u8, r.range(0, 1) as u8]));
        cc(r, &im, LumaA([0, 1]));
        let v: Vec<u16> = r.samples((w * h) as usize, 65535).into_iter().map(|x| x as u16).collect();
        let im: ImageBuffer<Luma<u16>, Vec<u16>> = ImageBuffer::from_raw(w, h, v).unwrap();
        cc(r, &im, Luma([0]));
    }
    // many components and long merge chains
    cc(r, &GrayImage::from_fn(40, 33, |x, y| Luma([((x + y) % 2) as u8])), Luma([0]));
    cc(r, &GrayImage::from_fn(20, 15, |x, y| Luma([(x * 15 + y) as u8 | 1])), Luma([0]));
    cc(r, &GrayImage::from_fn(16, 16, |x, y| Luma([(x * 16 + y) as u8])), Luma([7]));
    for (w, h) in [(41u32, 16u32), (16, 41), (300, 3), (3, 300), (1100, 2), (2, 1100)] {
        // combs, opening up, down, left and right
        cc(r, &GrayImage::from_fn(w, h, |x, y| Luma([(x % 2 == 0 || y == h - 1) as u8])), Luma([0]));
        cc(r, &GrayImage::from_fn(w, h, |x, y| Luma([(x % 2 == 0 || y == 0) as u8])), Luma([0]));
        cc(r, &GrayImage::from_fn(w, h, |x, y| Luma([(y % 2 == 0 || x == w - 1) as u8])), Luma([0]));
        cc(r, &GrayImage::from_fn(w, h, |x, y| Luma([((x + h - y) % 4 < 2) as u8])), Luma([0]));
        let p = r.pick(&[45i64, 60]);
        let im = r.bin(w, h, p, 1);
        cc(r, &im, Luma([0]));
    }
    spiral(r, 17, &mut |r, im| cc(r, im, Luma([0])));
    for (w, h, p) in [(64u32, 60u32, 55i64), (60, 64, 42), (130, 20, 60)] { let im = r.bin(w, h, p, 1); cc(r, &im, Luma([0])) }
    // more components (and provisional labels) than 16 bits can number
    let (w, h) = (520u32, 516u32);
    let im = GrayImage::from_fn(w, h, |x, y| Luma([(x % 2 == 0 && y % 2 == 0) as u8]));
    for (conn, c) in [(4, Connectivity::Four), (8, Connectivity::Eight)] {
        r.run(ev("cc_dots").a("w", &w).a("h", &h).a("conn", &conn), || connected_components(&im, c, Luma([0])));
    }
    // the same dots hung on a bar along the bottom of every other column pair
    let im = GrayImage::from_fn(w, h, |x, y| Luma([if y == h - 1 { 1 } else { (x % 2 == 0 && y % 2 == 0) as u8 }]));
    r.run(ev("cc_bar").a("w", &w).a("h", &h).a("conn", &8), || connected_components(&im, Connectivity::Eight, Luma([0])));
}
fn spiral(r: &mut Rec, n: u32, f: &mut dyn FnMut(&mut Rec, &GrayImage)) {
    let mut im = GrayImage::new(n, n);
    let (mut x, mut y, mut d) = (0i32, 0i32, 0usize);
    let dirs = [(1, 0), (0, 1), (-1, 0), (0, -1)];
    im.put_pixel(0, 0, Luma([1]));
    let mut turns = 0;
    while turns < 2 {
        let (a, b) = dirs[d];
        let on = |x: i32, y: i32, im: &GrayImage| x >= 0 && y >= 0 && x < n as i32 && y < n as i32 && im.get_pixel(x as u32, y as u32).0[0] == 1;
        let free = x + a >= 0 && y + b >= 0 && x + a < n as i32 && y + b < n as i32 && !on(x + 2 * a, y + 2 * b, &im);
        if free { x += a; y += b; im.put_pixel(x as u32, y as u32, Luma([1])); turns = 0 } else { d = (d + 1) % 4; turns += 1 }
    }
    let mut cur = im;
    for _ in 0..4 {
        f(r, &cur);
        let inv = GrayImage::from_fn(n, n, |x, y| Luma([1 - cur.get_pixel(x, y).0[0]]));
        f(r, &inv);
        cur = GrayImage::from_fn(n, n, |x, y| *cur.get_pixel(y, n - 1 - x));
    }
}
fn uf(r: &mut Rec, n: usize, ops: &[(u32, usize, usize)]) {
    let mut f = DisjointSetForest::new(n);
    r.run(ev("uf_new").a("n", &n), || ());
    for &(op, i, j) in ops {
        match op {
            0 => { r.run(ev("uf_union").cont().a("i", &i).a("j", &j), || f.union(i, j)); }
            1 => { r.run(ev("uf_root").cont().a("i", &i), || f.root(i)); }
            2 => { r.run(ev("uf_find").cont().a("i", &i).a("j", &j), || f.find(i, j)); }
            3 => { r.run(ev("uf_num").cont(), || f.num_trees()); }
            _ => { r.run(ev("uf_trees").cont(), || f.trees()); }
        }
    }
    r.run(ev("uf_num").cont(), || f.num_trees());
    r.run(ev("uf_trees").cont(), || f.trees());
    for i in 0..n.min(12) { r.run(ev("uf_root").cont().a("i", &i), || f.root(i)); }
}
fn c18(r: &mut Rec) {
    // behaviours generated by TLC from GenUnionFind
    if let Some(p) = r.extra.first().cloned() {
        for line in std::fs::read_to_string(p).unwrap().lines() {
            let v: Vec<usize> = line.split_whitespace().map(|x| x.parse().unwrap()).collect();
            let ops: Vec<(u32, usize, usize)> = v[1..].chunks(3).map(|c| (c[0] as u32, c[1], c[2])).collect();
            uf(r, v[0], &ops);
        }
    }
    for n in 0..=3usize {
        uf(r, n, &[]);
        uf(r, n, &[(1, n, 0), (2, 0, n), (0, n, 0), (0, 0, n), (2, n, n), (1, n + 5, 0)]);
    }
    // all orders of unions on few elements
    for n in 2..=4usize {
        let pairs: Vec<(usize, usize)> = (0..n).flat_map(|i| (0..n).map(move |j| (i, j))).filter(|p| p.0 != p.1).collect();
        for a in &pairs { for b in &pairs { if n < 4 || r.thorough || r.range(0, 1) == 0 { for c in pairs.iter().take(if n < 4 { 99 } else { 4 }) { uf(r, n, &[(0, a.0, a.1), (2, b.0, b.1), (0, b.0, b.1), (0, c.0, c.1), (2, 0, n - 1)]) } } } }
    }
    for _ in 0..r.t(150, 3000) {
        let n = r.range(2, 24) as usize;
        let k = r.range(1, 60);
        let ops: Vec<_> = (0..k).map(|_| (r.pick(&[0u32, 0, 0, 0, 1, 1, 2, 2, 3, 4]), r.range(0, n as i64 - 1) as usize, r.range(0, n as i64 - 1) as usize)).collect();
        uf(r, n, &ops);
    }
    // deep trees: merge equal-sized blocks pairwise, touching them only through leaves; and chains
    for b in 3..=5usize {
        let n = 1 << b;
        for side in 0..4 {
            let mut ops = vec![];
            for s in 0..b { let st = 1 << s; for i in (0..n).step_by(2 * st) {
                let (p, q) = (i + if side & 1 == 0 { 0 } else { st - 1 }, i + st + if side & 2 == 0 { 0 } else { st - 1 });
                ops.push((0, p, q));
            } }
            for i in (0..n).rev() { ops.push((2, i, (i * 7 + 3) % n)); ops.push((1, i, 0)); }
            uf(r, n, &ops);
        }
    }
    // element numbers past 16 bits
    let n = 70000usize;
    let mut f = DisjointSetForest::new(n);
    r.run(ev("uf_new").a("n", &n), || ());
    for (i, j) in [(0, 65535), (65536, 1), (65536, 69999), (69999, 255), (256, 65535), (3, 4464)] {
        r.run(ev("uf_union").cont().a("i", &i).a("j", &j), || f.union(i, j));
        r.run(ev("uf_find").cont().a("i", &0).a("j", &256), || f.find(0, 256));
        r.run(ev("uf_find").cont().a("i", &0).a("j", &65536), || f.find(0, 65536));
        r.run(ev("uf_root").cont().a("i", &69999), || f.root(69999));
    }
    r.run(ev("uf_find").cont().a("i", &65536).a("j", &255), || f.find(65536, 255));
    r.run(ev("uf_num").cont(), || f.num_trees());
    r.run(ev("uf_trees_far").cont(), || {
        let t = f.trees();
        let all: std::collections::BTreeSet<usize> = t.iter().flatten().cloned().collect();
        (t.iter().filter(|s| s.len() != 1).cloned().collect::<Vec<_>>(), t.len(), all.len())
    });
    r.run(ev("uf_root").cont().a("i", &n), || f.root(n));
    for n in [40usize, 300] {
        uf(r, n, &(0..n - 1).map(|i| (0, i, i + 1)).collect::<Vec<_>>());
        uf(r, n, &(0..n - 1).rev().map(|i| (0, i + 1, i)).collect::<Vec<_>>());
        uf(r, n, &(0..n / 2).map(|i| (0, i, n - 1 - i)).collect::<Vec<_>>());
        uf(r, n, &(0..n - 2).map(|i| (0, i, i + 2)).collect::<Vec<_>>());
    }
}
fn fill<P: Pixel + PartialEq>(r: &mut Rec, im: &ImageBuffer<P, Vec<P::Subpixel>>, x: u32, y: u32, c: P) where P::Subpixel: J {
    r.run(ev("fill").a("im", im).a("x", &x).a("y", &y).a("col", c.channels()), || { let mut m = im.clone(); flood_fill_mut(&mut m, x, y, c); vec![flood_fill(im, x, y, c), m] });
}
fn c19(r: &mut Rec) {
    for w in 0..=4u32 { for h in 0..=4u32 {
        if w * h > if r.thorough { 16 } else { 12 } { continue }
        for im in all_images(w, h, &[0, 1]).collect::<Vec<_>>() {
            if w * h <= 4 { for x in 0..=w { for y in 0..=h { for c in 0..3u8 { fill(r, &im, x, y, Luma([c])) } } } }
            else if w * h <= 6 { for x in 0..w { for y in 0..h { fill(r, &im, x, y, Luma([2])); } } let (x, y) = (r.dim(0, w as i64 - 1), r.dim(0, h as i64 - 1)); let c = r.pick(&[0u8, 1]); fill(r, &im, x, y, Luma([c])) }
            else if w * h <= 9 || r.range(0, 3) == 0 { let (x, y) = (r.dim(0, w as i64 - 1), r.dim(0, h as i64 - 1)); let c = r.pick(&[0u8, 1, 2, 255]); fill(r, &im, x, y, Luma([c])) }
        }
    } }
    for (w, h) in [(3u32, 4u32), (0, 0), (1, 1)] { let im: GrayImage = r.img(w, h); for (x, y) in [(w, 0), (0, h), (w, h), (u32::MAX, 0), (0, u32::MAX), (1 << 31, 1)] { fill(r, &im, x, y, Luma([3])) } }
    for _ in 0..r.t(500, 8000) {
        let (w, h) = (r.dim(1, 14), r.dim(1, 14));
        let p = r.pick(&[10i64, 25, 40, 55, 70]);
        let im = r.bin(w, h, p, 9);
        let (x, y) = (r.dim(0, w as i64 - 1), r.dim(0, h as i64 - 1));
        let c = r.pick(&[0u8, 9, 77]);
        fill(r, &im, x, y, Luma([c]));
    }
    for _ in 0..r.t(60, 600) {
        let (w, h) = (r.dim(1, 7), r.dim(1, 7));
        let pal = [Rgb([1u8, 2, 3]), Rgb([1, 2, 4])];
        let im = ImageBuffer::from_fn(w, h, |_, _| pal[r.range(0, 2 - 1) as usize]);
        let (x, y) = (r.dim(0, w as i64 - 1), r.dim(0, h as i64 - 1));
        let c = r.pick(&[pal[0], pal[1], Rgb([1, 2, 5])]);
        fill(r, &im, x, y, c);
        let pal = [Rgba([1u8, 2, 3, 0]), Rgba([1, 2, 3, 255]), Rgba([0, 0, 0, 0])];
        let im = ImageBuffer::from_fn(w, h, |_, _| pal[r.range(0, 1) as usize]);
        let c = r.pick(&[pal[0], pal[1], pal[2], Rgba([9, 8, 7, 100])]);
        fill(r, &im, x, y, c);
        let im = ImageBuffer::from_fn(w, h, |_, _| LumaA([4, r.range(0, 1) as u8]));
        fill(r, &im, x, y, LumaA([4, 1]));
        fill(r, &im, x, y, LumaA([4, 200]));
    }
    for (w, h, p) in [(60u32, 60u32, 62i64), (64, 50, 55), (140, 20, 70)] { for _ in 0..3 {
        let im = r.bin(w, h, p, 9);
        let (x, y) = (r.dim(0, w as i64 - 1), r.dim(0, h as i64 - 1));
        fill(r, &im, x, y, Luma([77]));
        fill(r, &im, w / 2, h / 2, Luma([78]));
    } }
    for n in [9u32, 15, 31] { spiral(r, n, &mut |r, im| { fill(r, im, 0, 0, Luma([5])); fill(r, im, n / 2, n / 2, Luma([6])); fill(r, im, n - 1, n - 1, Luma([7])) }) }
    for (w, h) in [(33u32, 9u32), (300, 3), (3, 300), (1, 300), (1100, 1), (1, 1100)] { for k in 0..4 {
        let im = GrayImage::from_fn(w, h, |x, y| Luma([match k { 0 => (x % 2 == 0 || y == 0) as u8, 1 => (y % 2 == 0 || x == 0) as u8, 2 => 1, _ => ((x ^ y) & 2) as u8 }]));
        fill(r, &im, w / 2, h / 2, Luma([5]));
        fill(r, &im, w - 1, 0, Luma([5]));
    } }
    for _ in 0..r.t(80, 1000) {
        let (w, h) = (r.dim(1, 9), r.dim(1, 9));
        let mut im = r.bin(w, h, 45, 1);
        r.run(ev("begin").a("im", &im), || 0);
        for _ in 0..8 {
            let lim = w as i64 - (r.range(0, 9) > 0) as i64; let (x, y, c) = (r.dim(0, lim), r.dim(0, h as i64 - 1), r.dim(0, 3) as u8);
            r.run(ev("s_fill").cont().a("x", &x).a("y", &y).a("col", &[c]), || { flood_fill_mut(&mut im, x, y, Luma([c])); im.clone() });
        }
    }
}
fn show<T: Copy + Into<i64>>(o: &Vec<Contour<T>>, s: &mut String) {
    s.push('[');
    for (i, c) in o.iter().enumerate() {
        if i > 0 { s.push(',') }
        let p: Vec<(i64, i64)> = c.points.iter().map(|p| (p.x.into(), p.y.into())).collect();
        s.push_str(&format!("{{\"pts\":{},\"outer\":{},\"parent\":{}}}", js(&p), c.border_type == BorderType::Outer, js(&c.parent)));
    }
    s.push(']');
}
fn contours(r: &mut Rec, im: &GrayImage, t: u8) {
    let e = ev("contours").a("im", im).a("t", &t);
    match r.range(0, 2) {
        0 if t == 0 => { r.run_as(e, || find_contours::<i32>(im), |o, s| show(o, s)); }
        1 => { r.run_as(e, || find_contours_with_threshold::<u32>(im, t), |o, s| show(o, s)); }
        _ => { r.run_as(e, || find_contours_with_threshold::<i64>(im, t), |o, s| show(o, s)); }
    }
}
fn c20(r: &mut Rec) {
    for w in 0..=5u32 { for h in 0..=5u32 {
        let n = w * h;
        if n > if r.thorough { 16 } else { 12 } { continue }
        for im in all_images(w, h, &[0, 255]).collect::<Vec<_>>() { if n < 10 || r.thorough || r.range(0, 5) == 0 { contours(r, &im, 0) } }
    } }
    for _ in 0..r.t(2500, 25000) {
        let (w, h) = (r.dim(3, 11), r.dim(3, 11));
        let p = r.pick(&[30i64, 50, 65, 80]);
        let im = r.bin(w, h, p, 1);
        contours(r, &im, 0);
    }
    for _ in 0..r.t(150, 1500) {
        let (w, h) = (r.dim(1, 8), r.dim(1, 8));
        let im: GrayImage = r.img(w, h);
        let t = r.pick(&[0u8, 1, 127, 128, 254, 255]);
        contours(r, &im, t);
        let t = im.as_raw()[0];
        contours(r, &im, t);
    }
    // nested rings, at the frame and away from it, and rings with several holes
    for off in 0..2u32 { for n in [5u32, 8, 13] {
        let im = GrayImage::from_fn(n + 2 * off, n + off, |x, y| { let (a, b) = (x.wrapping_sub(off), y.wrapping_sub(off)); Luma([(a < n && b < n && a.min(b).min(n - 1 - a).min(n - 1 - b) % 2 == 0) as u8]) });
        contours(r, &im, 0);
        for _ in 0..6 { let mut im = im.clone(); for _ in 0..3 { let (x, y) = (r.dim(0, im.width() as i64 - 1), r.dim(0, im.height() as i64 - 1)); im.get_pixel_mut(x, y).0[0] ^= 1 } contours(r, &im, 0) }
    } }
    contours(r, &GrayImage::from_fn(21, 21, |x, y| Luma([(x % 2 == 0 || y % 2 == 0) as u8])), 0);
    contours(r, &GrayImage::from_fn(20, 20, |x, y| Luma([((x + y) % 2) as u8])), 0);
    contours(r, &GrayImage::from_fn(35, 17, |x, y| Luma([(x % 2 == 1 && y % 2 == 0) as u8])), 0);
    for (w, h) in [(300u32, 1u32), (1, 300), (290, 2), (1100, 2), (2, 1100)] { let im = r.bin(w, h, 60, 200); contours(r, &im, 0); contours(r, &GrayImage::from_pixel(w, h, Luma([9])), 3) }
    spiral(r, 13, &mut |r, im| contours(r, im, 0));
    // more than 127 and more than 255 borders, holes and nested components among the last of them
    for (nx, ny) in [(9u32, 9u32), (13, 14)] { for _ in 0..2 {
        let kinds: Vec<i64> = (0..nx * ny).map(|_| r.range(0, 3)).collect();
        let im = GrayImage::from_fn(6 * nx - 1, 6 * ny - 1, |x, y| {
            let (a, b) = (x % 6, y % 6);
            let ring = a.min(b).min(4u32.wrapping_sub(a)).min(4u32.wrapping_sub(b));
            let k = kinds[((y / 6) * nx + x / 6) as usize];
            Luma([(a < 5 && b < 5 && match k { 0 => true, 1 => ring != 1, 2 => ring == 0, _ => ring == 0 || (a == 2 && b != 2) }) as u8])
        });
        contours(r, &im, 0);
    } }
    contours(r, &GrayImage::from_fn(45, 33, |x, y| Luma([(x % 2 == 1 && y % 2 == 0) as u8])), 0);
    contours(r, &GrayImage::from_fn(41, 41, |x, y| Luma([(x % 2 == 0 || y % 2 == 0) as u8])), 0);
}
fn can(r: &mut Rec, im: &GrayImage, lo: i32, hi: i32) {
    let b = if im.width() * im.height() == 0 { im.clone() } else { gaussian_blur_f32(im, 1.4) };
    r.run(ev("canny").a("w", &im.width()).a("h", &im.height()).a("blur", &b).a("lo", &lo).a("hi", &hi), || canny(im, lo as f32, hi as f32));
}
fn shapes(r: &mut Rec, w: u32, h: u32) -> GrayImage {
    let mut im = GrayImage::from_pixel(w, h, Luma([r.pick(&[0u8, 40, 200])]));
    for _ in 0..r.range(1, 4) {
        let (x, y, a, b, v) = (r.range(0, w as i64), r.range(0, h as i64), r.range(1, 14), r.range(1, 14), r.range(0, 255));
        let kind = r.range(0, 2);
        for q in 0..h as i64 { for p in 0..w as i64 {
            let (dx, dy) = (p - x, q - y);
            let on = match kind { 0 => dx.abs() < a && dy.abs() < b, 1 => dx * dx + dy * dy < a * a, _ => dx + dy * (b - 7) < 5 && dx > -a };
            if on { im.put_pixel(p as u32, q as u32, Luma([v as u8])) }
        } }
    }
    im
}
fn c35(r: &mut Rec) {
    for w in 0..=4u32 { for h in 0..=4u32 { for _ in 0..4 { let im: GrayImage = r.img(w, h); let lo = r.pick(&[-1, 0, 1, 20]); let hi = r.pick(&[lo, 30]); can(r, &im, lo, hi) } } }
    let t = [-1i32, 0, 1, 5, 10, 20, 40, 60, 80, 100, 150, 200, 300, 500, 800, 1141];
    for k in 0..r.t(500, 6000) {
        let (w, h) = if k % 8 == 0 { (r.dim(20, 40), r.dim(20, 40)) } else { (r.dim(3, 18), r.dim(3, 18)) };
        let im = if k % 4 == 0 { r.img(w, h) } else { shapes(r, w, h) };
        for _ in 0..2 {
            let lo = r.pick(&t);
            let hi = if r.range(0, 9) == 0 { lo - 1 } else { lo.max(r.pick(&t)) };
            can(r, &im, lo, hi);
        }
    }
    // large webs of weak edges around few strong pixels
    for (w, h, lo, hi) in [(90, 90, 0, 150), (100, 80, 1, 130), (80, 100, 20, 120), (110, 110, 30, 140)] {
        let im: GrayImage = r.img(w, h);
        can(r, &im, lo, hi);
        let im = GrayImage::from_fn(w, h, |_, _| Luma([r.range(0, 255) as u8]));
        can(r, &im, lo, hi);
    }
    for (w, h) in [(1100u32, 9u32), (9, 1100), (300, 40)] { let im = shapes(r, w, h); can(r, &im, 20, 60); let im: GrayImage = r.img(w, h); can(r, &im, 100, 300) }
    // an edge that is only connected to its strong part through steps to the north
    let im = GrayImage::from_fn(24, 24, |x, y| Luma([if x >= 12 { 20 + 9 * y as u8 } else { 0 }]));
    can(r, &im, 60, 180);
    let b = gaussian_blur_f32(&im, 1.4);
    r.run(ev("canny_full").a("id", "ramp24").a("blur", &b).a("lo", &60).a("hi", &180), || canny(&im, 60.0, 180.0));
}
fn c17_far(r: &mut Rec) {
    for (dx, dy) in FAR { for p in [30i64, 55, 70] {
        let mut a = r.bin(15, 14, p, 1);
        for q in a.pixels_mut() { if q.0[0] == 1 && r.range(0, 3) == 0 { q.0[0] = 2 } }
        margin(&mut a, Luma([0]), 1);
        let big = far(&a, Luma([0]), dx, dy);
        for (k, c) in [(4, Connectivity::Four), (8, Connectivity::Eight)] {
            r.run(ev("cc").a("im", &a).a("bg", &[0u8]).a("conn", &k), || corner(&connected_components(&big, c, Luma([0])), 15, 14));
        }
    } }
}
fn c19_combs(r: &mut Rec) {
    for (pat, w, h) in [(0u32, 2600u32, 3u32), (0, 1501, 5), (1, 301, 31), (1, 41, 301), (2, 4, 2501), (2, 9, 1200), (3, 90, 80)] {
        let s = r.range(0, if pat == 2 { w } else { h } as i64 - 1) as u32;
        let on = |x: u32, y: u32| match pat { 0 => y == s || x % 2 == 0, 1 => y % 2 == 0 || x % 2 == 0, 2 => x == s || y % 2 == 0, _ => true };
        let im = GrayImage::from_fn(w, h, |x, y| Luma([on(x, y) as u8]));
        for _ in 0..2 {
            let (x, y) = loop { let (x, y) = (r.range(0, w as i64 - 1) as u32, r.range(0, h as i64 - 1) as u32); if on(x, y) { break (x, y) } };
            r.run(ev("fill_comb").a("pat", &pat).a("w", &w).a("h", &h).a("s", &s).a("x", &x).a("y", &y), || {
                let mut m = im.clone();
                flood_fill_mut(&mut m, x, y, Luma([7]));
                let all = |a: &GrayImage| a.as_raw().iter().map(|v| *v as u32).collect::<Vec<_>>();
                vec![all(&flood_fill(&im, x, y, Luma([7]))), all(&m)]
            });
        }
    }
}
fn c19_far(r: &mut Rec) {
    // the margin and the extra columns differ from everything in the corner
    for (dx, dy) in FAR { for p in [25i64, 45, 60] {
        let mut a = r.bin(15, 14, p, 1);
        margin(&mut a, Luma([200]), 1);
        let big = far(&a, Luma([200]), dx, dy);
        let (x, y) = (r.dim(1, 14), r.dim(1, 13));
        r.run(ev("fill").a("im", &a).a("x", &x).a("y", &y).a("col", &[7u8]), || {
            let mut m = big.clone();
            flood_fill_mut(&mut m, x + dx, y + dy, Luma([7]));
            vec![corner(&flood_fill(&big, x + dx, y + dy, Luma([7])), 15, 14), corner(&m, 15, 14)]
        });
    } }
}
fn c20_far(r: &mut Rec) {
    for (dx, dy) in FAR { for p in [45i64, 60, 75] {
        let mut a = r.bin(13, 12, p, 255);
        margin(&mut a, Luma([0]), 1);
        let big = far(&a, Luma([0]), dx, dy);
        r.run_as(ev("contours").a("im", &a).a("t", &0), || {
            let mut v = find_contours::<i32>(&big);
            for c in v.iter_mut() { for p in c.points.iter_mut() { p.x -= dx as i32; p.y -= dy as i32 } }
            v
        }, |o, s| show(o, s));
    } }
}
/// The image below more separate dots than 16 bits count: their borders come first, one point and no parent each.
fn c20_many(r: &mut Rec) {
    for (cols, rows) in [(190u32, 180u32), (129, 2)] { for p in [45i64, 60, 75] {
        let n = (cols * rows) as usize;
        let a = r.bin(13, 12, p, 255);
        let dy = 2 * rows + 1;
        let big = GrayImage::from_fn(2 * cols, dy + 12, |x, y| if y < dy { Luma([(x % 2 == 0 && y % 2 == 0 && y / 2 < rows) as u8]) } else if x < 13 { *a.get_pixel(x, y - dy) } else { Luma([0]) });
        r.run_as(ev("contours").a("im", &a).a("t", &0), || {
            let mut v = find_contours::<i32>(&big);
            let mut w = v.split_off(n);
            let dots = v.iter().enumerate().all(|(i, c)| {
                let i = i as u32;
                c.parent.is_none() && c.border_type == BorderType::Outer && c.points == [imageproc::point::Point::new(2 * (i % cols) as i32, 2 * (i / cols) as i32)]
            });
            assert!(dots, "a border of the dots is wrong");
            for c in w.iter_mut() { c.parent = c.parent.map(|i| i - n); for p in c.points.iter_mut() { p.y -= dy as i32 } }
            w
        }, |o, s| show(o, s));
    } }
}
fn c35_far(r: &mut Rec) {
    for (dx, dy) in FAR { for (lo, hi) in [(20i32, 60i32), (5, 100)] {
        // the blur reaches 7 pixels; the gradient, suppression and hysteresis 1 each
        let mut a = shapes(r, 34, 32);
        margin(&mut a, Luma([90]), 12);
        let big = far(&a, Luma([90]), dx, dy);
        let b = gaussian_blur_f32(&a, 1.4);
        r.run(ev("canny").a("w", &34).a("h", &32).a("blur", &b).a("lo", &lo).a("hi", &hi), || corner(&canny(&big, lo as f32, hi as f32), 34, 32));
    } }
}
// Middling images.
fn blobs(r: &mut Rec, w: u32, h: u32) -> GrayImage {
    if r.range(0, 2) == 0 { let p = r.pick(&[35i64, 50, 60, 75]); return r.bin(w, h, p, 1) }
    let mut a = r.scene(w, h);
    let m = r.pick(&[2u8, 2, 3]);
    let step = r.pick(&[8u8, 30, 100]);
    for p in a.pixels_mut() { p.0[0] = p.0[0] / step % m }
    a
}
fn mid(r: &mut Rec) {
    for _ in 0..r.t(16, 160) {
        let (w, h) = (r.dim(15, 100), r.dim(15, 100));
        match r.prop.as_str() {
            "C17" => { let a = blobs(r, w, h); cc(r, &a, Luma([0])); }
            "C19" => {
                let a = blobs(r, w, h);
                let (x, y) = (r.dim(0, w as i64 - 1), r.dim(0, h as i64 - 1));
                fill(r, &a, x, y, Luma([9]));
                let c = *a.get_pixel(r.dim(0, w as i64 - 1), r.dim(0, h as i64 - 1));
                fill(r, &a, x, y, c);
                let c = ImageBuffer::from_fn(w / 2, h / 2, |x, y| Rgb([a.get_pixel(x, y)[0], 3, 3]));
                fill(r, &c, x / 2 % (w / 2), y / 2 % (h / 2), Rgb([3, 3, 3]));
            }
            "C20" => { let a = blobs(r, w.min(60), h.min(60)); contours(r, &a, 0); let a = blobs(r, w.min(36), h.min(36)); contours(r, &a, 1); }
            _ => {}
        }
    }
}
fn main() {
    let mut r = Rec::start();
    match r.prop.as_str() { "C17" => { c17(&mut r); c17_far(&mut r) } "C18" => c18(&mut r), "C19" => { c19(&mut r); c19_far(&mut r) } "C20" => { c20(&mut r); c20_far(&mut r); c20_many(&mut r) } _ => { c35(&mut r); c35_far(&mut r) } }
    mid(&mut r);
    r.finish();
}
