//! Recorder shared by the drivers: every public call of the library that a driver makes becomes
//! one event (one JSON line) holding the arguments and the observed result (value, panic, hang).
use image::{ImageBuffer, Pixel};
use rand::rngs::StdRng;
use rand::{Rng, SeedableRng};
use std::fmt::Write as _;
use std::fs::File;
use std::io::{BufWriter, Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub use image;
pub use imageproc;
pub use rand;

/// Values that can be written into an event. TLC integers are 32-bit, so integers saturate.
pub trait J {
    fn j(&self, s: &mut String);
}
macro_rules! jint { ($($t:ty),*) => { $(impl J for $t { fn j(&self, s: &mut String) {
    let v = *self as i128; let v = v.clamp(-2147483647, 2147483647); write!(s, "{}", v).unwrap(); } })* } }
jint!(u8, i8, u16, i16, u32, i32, u64, i64, usize, isize, i128, u128);
impl J for bool {
    fn j(&self, s: &mut String) {
        s.push_str(if *self { "true" } else { "false" })
    }
}
impl J for str {
    fn j(&self, s: &mut String) {
        s.push('"');
        s.push_str(self);
        s.push('"')
    }
}
impl J for String {
    fn j(&self, s: &mut String) {
        self.as_str().j(s)
    }
}
impl<T: J + ?Sized> J for &T {
    fn j(&self, s: &mut String) {
        (**self).j(s)
    }
}
impl<T: J> J for [T] {
    fn j(&self, s: &mut String) {
        s.push('[');
        for (i, x) in self.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            x.j(s);
        }
        s.push(']');
    }
}
impl<T: J> J for Vec<T> {
    fn j(&self, s: &mut String) {
        self.as_slice().j(s)
    }
}
impl<T: J, const N: usize> J for [T; N] {
    fn j(&self, s: &mut String) {
        self.as_slice().j(s)
    }
}
/// Options are sequences of length 0 or 1.
impl<T: J> J for Option<T> {
    fn j(&self, s: &mut String) {
        match self {
            None => s.push_str("[]"),
            Some(x) => {
                s.push('[');
                x.j(s);
                s.push(']')
            }
        }
    }
}
impl J for () {
    fn j(&self, s: &mut String) {
        s.push('0')
    }
}
macro_rules! jtup { ($($n:ident $i:tt),*) => { impl<$($n: J),*> J for ($($n,)*) { fn j(&self, s: &mut String) {
    s.push('['); $( if $i > 0 { s.push(','); } self.$i.j(s); )* s.push(']'); } } } }
jtup!(A 0);
jtup!(A 0, B 1);
jtup!(A 0, B 1, C 2);
jtup!(A 0, B 1, C 2, D 3);
jtup!(A 0, B 1, C 2, D 3, E 4);
jtup!(A 0, B 1, C 2, D 3, E 4, F 5);
impl<P: Pixel> J for ImageBuffer<P, Vec<P::Subpixel>>
where
    P::Subpixel: J,
{
    fn j(&self, s: &mut String) {
        write!(s, "{{\"w\":{},\"h\":{},\"c\":{},\"px\":", self.width(), self.height(), P::CHANNEL_COUNT).unwrap();
        self.as_raw().j(s);
        s.push('}');
    }
}
/// A raw JSON fragment.
pub struct Raw(pub String);
impl J for Raw {
    fn j(&self, s: &mut String) {
        s.push_str(&self.0)
    }
}
pub fn js(x: &(impl J + ?Sized)) -> String {
    let mut s = String::new();
    x.j(&mut s);
    s
}
/// Float that should hold an integer multiple of 1/scale: exact, or a sentinel the spec rejects.
pub fn fx(v: f64, scale: f64) -> i64 {
    let y = v * scale;
    if y.is_finite() && y == y.round() && y.abs() < 2.0e9 {
        y as i64
    } else {
        -2147483647
    }
}
/// Float rounded to the nearest multiple of 1/scale; non-finite and huge values are sentinels.
pub fn fr(v: f64, scale: f64) -> i64 {
    let y = (v * scale).round();
    if v.is_nan() {
        -2147483646
    } else if y.abs() < 2.0e9 {
        y as i64
    } else if y > 0.0 {
        2147483647
    } else {
        -2147483647
    }
}

/// A non-negative whole number (a float that should be one, up to rounding error) as base-2^14
/// limbs for Big.tla.
pub fn limbs(v: f64) -> Vec<i64> {
    let y = v.round();
    if !(y.is_finite() && y >= 0.0 && y < 1e30 && (v - y).abs() <= 1e-6 * y.max(1.0)) { return vec![-1] }
    let mut n = y as u128;
    let mut o = vec![];
    while n > 0 { o.push((n % 16384) as i64); n /= 16384 }
    o
}
pub struct Ev(String);
impl Ev {
    pub fn a(mut self, k: &str, v: &(impl J + ?Sized)) -> Ev {
        write!(self.0, ",\"{}\":", k).unwrap();
        v.j(&mut self.0);
        self
    }
    /// Marks an event that continues the session of the previous one.
    pub fn cont(self) -> Ev {
        self.a("cont", &1)
    }
}
pub fn ev(op: &str) -> Ev {
    Ev(format!("{{\"op\":\"{}\"", op))
}

struct Shared {
    w: BufWriter<File>,
    cur: String,
    since: Option<Instant>,
}
pub struct Rec {
    sh: Arc<Mutex<Shared>>,
    curf: File,
    pub rng: StdRng,
    pub thorough: bool,
    pub prop: String,
    pub extra: Vec<String>,
    pub n: usize,
}
const LIMIT: Duration = Duration::from_secs(20);

impl Rec {
    /// args: OUT PROPERTY TIER SEED [extra...]
    pub fn start() -> Rec {
        let a: Vec<String> = std::env::args().collect();
        let out = a[1].clone();
        let seed: u64 = a[4].parse().unwrap();
        std::panic::set_hook(Box::new(|_| {}));
        let sh = Arc::new(Mutex::new(Shared { w: BufWriter::with_capacity(1 << 20, File::create(&out).unwrap()), cur: String::new(), since: None }));
        let s2 = sh.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(200));
            let mut g = s2.lock().unwrap();
            if let Some(t) = g.since {
                if t.elapsed() > LIMIT {
                    let line = format!("{},\"res\":\"hang\"}}\n", g.cur);
                    g.w.write_all(line.as_bytes()).unwrap();
                    g.w.flush().unwrap();
                    std::process::exit(3);
                }
            }
        });
        let h = a[2].bytes().fold(seed.wrapping_mul(0x9E3779B97F4A7C15), |x, b| x.rotate_left(7) ^ (b as u64).wrapping_mul(0xff51afd7ed558ccd));
        Rec {
            sh,
            curf: File::create(format!("{}.cur", out)).unwrap(),
            rng: StdRng::seed_from_u64(h),
            thorough: a[3] == "thorough",
            prop: a[2].clone(),
            extra: a[5..].to_vec(),
            n: 0,
        }
    }
    /// Number of repetitions by tier.
    pub fn t(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    /// Makes the call, records the event, returns the value unless the call panicked.
    pub fn run<R: J>(&mut self, e: Ev, f: impl FnOnce() -> R) -> Option<R> {
        self.run_as(e, f, |r, s| r.j(s))
    }
    pub fn run_as<R>(&mut self, e: Ev, f: impl FnOnce() -> R, show: impl FnOnce(&R, &mut String)) -> Option<R> {
        self.curf.seek(SeekFrom::Start(0)).unwrap();
        self.curf.write_all(e.0.as_bytes()).unwrap();
        self.curf.write_all(b"\n").unwrap();
        {
            let mut g = self.sh.lock().unwrap();
            g.cur = e.0.clone();
            g.since = Some(Instant::now());
        }
        let r = catch_unwind(AssertUnwindSafe(f));
        let mut g = self.sh.lock().unwrap();
        g.since = None;
        let mut s = e.0;
        let r = match r {
            Ok(v) => {
                s.push_str(",\"res\":\"ok\",\"out\":");
                show(&v, &mut s);
                Some(v)
            }
            Err(_) => {
                s.push_str(",\"res\":\"panic\"");
                None
            }
        };
        s.push_str("}\n");
        g.w.write_all(s.as_bytes()).unwrap();
        self.n += 1;
        r
    }
    pub fn finish(self) {
        let mut g = self.sh.lock().unwrap();
        g.w.write_all(b"").unwrap();
        g.w.flush().unwrap();
        println!("EVENTS {}", self.n);
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        self.rng.gen_range(lo..=hi)
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        let i = self.rng.gen_range(0..xs.len());
        xs[i].clone()
    }
    /// Samples over a palette drawn from one of several distributions: full range, few values, extremes.
    pub fn samples(&mut self, n: usize, max: i64) -> Vec<i64> {
        let mode = self.range(0, 4);
        let pal: Vec<i64> = match mode {
            0 => vec![],
            1 => vec![0, max],
            2 => vec![0, 1, 2],
            3 => vec![0, 1, max - 1, max, max / 2],
            _ => (0..3).map(|_| self.rng.gen_range(0..=max)).collect(),
        };
        (0..n).map(|_| if pal.is_empty() { self.rng.gen_range(0..=max) } else { pal[self.rng.gen_range(0..pal.len())] }).collect()
    }
    /// Random 8-bit image of the given size.
    pub fn img<P: Pixel<Subpixel = u8>>(&mut self, w: u32, h: u32) -> ImageBuffer<P, Vec<u8>> {
        let n = (w * h) as usize * P::CHANNEL_COUNT as usize;
        let v = self.samples(n, 255).into_iter().map(|x| x as u8).collect();
        ImageBuffer::from_raw(w, h, v).unwrap()
    }
    /// Random binary (0/on) image with the given density in percent.
    pub fn bin(&mut self, w: u32, h: u32, pct: i64, on: u8) -> image::GrayImage {
        let v = (0..w * h).map(|_| if self.rng.gen_range(0..100) < pct { on } else { 0 }).collect();
        ImageBuffer::from_raw(w, h, v).unwrap()
    }
    /// Picture-like image: a slanted ramp, discs and rectangles, and a little noise.
    pub fn scene(&mut self, w: u32, h: u32) -> image::GrayImage {
        let (a, b, base, noise) = (self.range(-3, 3), self.range(-3, 3), self.range(0, 255), self.range(0, 2) * self.range(0, 6));
        let shapes: Vec<[i64; 5]> = (0..self.range(1, 6))
            .map(|_| [self.range(0, w as i64), self.range(0, h as i64), self.range(1, 2 + w.max(h) as i64 / 3), self.range(0, 255), self.range(0, 1)])
            .collect();
        let mut v = Vec::new();
        for y in 0..h as i64 {
            for x in 0..w as i64 {
                let mut p = base + a * x + b * y;
                for s in &shapes {
                    let (dx, dy) = ((x - s[0]).abs(), (y - s[1]).abs());
                    if (s[4] == 0 && dx * dx + dy * dy <= s[2] * s[2]) || (s[4] == 1 && dx <= s[2] && 2 * dy <= s[2]) { p = s[3] }
                }
                if noise > 0 { p += self.rng.gen_range(-noise..=noise) }
                v.push(p.clamp(0, 255) as u8);
            }
        }
        ImageBuffer::from_raw(w, h, v).unwrap()
    }
    /// Noise over one of the palettes, or picture-like.
    pub fn mid(&mut self, w: u32, h: u32) -> image::GrayImage {
        if self.range(0, 1) == 0 { self.scene(w, h) } else { self.img(w, h) }
    }
    pub fn dim(&mut self, lo: i64, hi: i64) -> u32 {
        self.range(lo, hi) as u32
    }
}
/// All images of the given size over the palette.
pub fn all_images(w: u32, h: u32, pal: &[u8]) -> impl Iterator<Item = image::GrayImage> + '_ {
    let n = (w * h) as usize;
    let total = (pal.len() as u64).pow(n as u32);
    (0..total).map(move |mut k| {
        let v = (0..n)
            .map(|_| {
                let d = (k % pal.len() as u64) as usize;
                k /= pal.len() as u64;
                pal[d]
            })
            .collect();
        ImageBuffer::from_raw(w, h, v).unwrap()
    })
}
/// The image as the far corner of one with dx extra columns and dy extra rows of background. A local
/// operator gives its far corner what it gives the image alone, when the first column (or row) of the
/// image is background too; the 16-bit coordinate range ends inside the corner.
pub fn far<P: Pixel>(im: &ImageBuffer<P, Vec<P::Subpixel>>, bg: P, dx: u32, dy: u32) -> ImageBuffer<P, Vec<P::Subpixel>> {
    let (w, h, c) = (im.width() as usize, im.height() as usize, P::CHANNEL_COUNT as usize);
    let n = w + dx as usize;
    let mut v: Vec<P::Subpixel> = Vec::with_capacity(n * (h + dy as usize) * c);
    let row: Vec<P::Subpixel> = bg.channels().iter().copied().cycle().take(n * c).collect();
    for _ in 0..dy { v.extend_from_slice(&row) }
    for y in 0..h {
        v.extend_from_slice(&row[..dx as usize * c]);
        v.extend_from_slice(&im.as_raw()[y * w * c..(y + 1) * w * c]);
    }
    ImageBuffer::from_raw(n as u32, h as u32 + dy, v).unwrap()
}
/// The w by h part with its origin at (x0, y0).
pub fn cut<P: Pixel>(im: &ImageBuffer<P, Vec<P::Subpixel>>, x0: u32, y0: u32, w: u32, h: u32) -> ImageBuffer<P, Vec<P::Subpixel>> {
    if x0 + w > im.width() || y0 + h > im.height() { return ImageBuffer::new(0, 0) }
    let (iw, c, x0) = (im.width() as usize, P::CHANNEL_COUNT as usize, x0 as usize);
    let mut v = Vec::new();
    for y in y0 as usize..(y0 + h) as usize { v.extend_from_slice(&im.as_raw()[(y * iw + x0) * c..(y * iw + x0 + w as usize) * c]) }
    ImageBuffer::from_raw(w, h, v).unwrap()
}
/// The last w columns and h rows.
pub fn corner<P: Pixel>(im: &ImageBuffer<P, Vec<P::Subpixel>>, w: u32, h: u32) -> ImageBuffer<P, Vec<P::Subpixel>> {
    cut(im, im.width().saturating_sub(w), im.height().saturating_sub(h), w, h)
}
/// The w by h part at (x0, y0) when everything else is background (nothing otherwise).
pub fn cut_only<P: Pixel>(im: &ImageBuffer<P, Vec<P::Subpixel>>, bg: P, x0: u32, y0: u32, w: u32, h: u32) -> ImageBuffer<P, Vec<P::Subpixel>> {
    let b = bg.channels();
    for (i, q) in im.as_raw().chunks(b.len()).enumerate() {
        if q != b { let (x, y) = (i as u32 % im.width(), i as u32 / im.width()); if x < x0 || y < y0 || x >= x0 + w || y >= y0 + h { return ImageBuffer::new(0, 0) } }
    }
    cut(im, x0, y0, w, h)
}
/// Makes the first m columns and rows background.
pub fn margin<P: Pixel>(im: &mut ImageBuffer<P, Vec<P::Subpixel>>, bg: P, m: u32) {
    for (x, y, p) in im.enumerate_pixels_mut() { if x < m || y < m { *p = bg } }
}
/// Column and row counts that push an image across the end of the 16-bit coordinate range.
pub const FAR: [(u32, u32); 2] = [(65529, 0), (0, 65530)];
/// Every pixel replicated into an s by s block.
pub fn blow<P: Pixel>(im: &ImageBuffer<P, Vec<P::Subpixel>>, s: u32) -> ImageBuffer<P, Vec<P::Subpixel>> {
    let (w, h, c, s) = (im.width() as usize, im.height() as usize, P::CHANNEL_COUNT as usize, s as usize);
    let mut v: Vec<P::Subpixel> = Vec::with_capacity(w * h * c * s * s);
    for y in 0..h {
        let mut row: Vec<P::Subpixel> = Vec::with_capacity(w * c * s);
        for x in 0..w {
            let p: Vec<P::Subpixel> = im.as_raw()[(y * w + x) * c..(y * w + x + 1) * c].to_vec();
            for _ in 0..s { row.extend_from_slice(&p) }
        }
        for _ in 0..s { v.extend_from_slice(&row) }
    }
    ImageBuffer::from_raw((w * s) as u32, (h * s) as u32, v).unwrap()
}
/// Undoes blow: every s by s block must be uniform, otherwise nothing is returned.
pub fn shrink(im: &image::GrayImage, s: u32) -> image::GrayImage {
    let (w, h, s) = (im.width() as usize / s as usize, im.height() as usize / s as usize, s as usize);
    let d = im.as_raw();
    let mut v = Vec::new();
    for y in 0..h { for x in 0..w { v.push(d[y * s * w * s + x * s]) } }
    let mut row: Vec<u8> = vec![0; w * s];
    for y in 0..h {
        for x in 0..w { row[x * s..(x + 1) * s].fill(v[y * w + x]) }
        for k in 0..s { if d[(y * s + k) * w * s..(y * s + k + 1) * w * s] != row[..] { return image::GrayImage::new(0, 0) } }
    }
    image::GrayImage::from_raw(w as u32, h as u32, v).unwrap()
}
/// Runs f in rayon pools of several sizes and returns all results.
pub fn pools<R: Send>(f: impl Fn() -> R + Sync) -> Vec<R> {
    use std::sync::OnceLock;
    static P: OnceLock<Vec<rayon::ThreadPool>> = OnceLock::new();
    let ps = P.get_or_init(|| [1usize, 2, 3, 8].iter().map(|&n| rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap()).collect());
    ps.iter().map(|p| p.install(|| f())).collect()
}
pub fn catch<R>(f: impl FnOnce() -> R) -> Option<R> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}
