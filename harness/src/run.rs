//! Replays histories against the real decoder and writes down everything it lets us observe.
use jpeg_decoder::{ColorTransform, Decoder, Error, ImageInfo};
use std::fmt::Write as _;
use std::io::{self, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

#[derive(Clone)]
pub struct H {
    pub id: String,
    pub end: String,
    pub chunk: String,
    pub chk: String,
    pub calls: Vec<String>,
    pub bytes: Arc<Vec<u8>>,
}

pub fn parse(line: &str) -> H {
    let f: Vec<&str> = line.split('\t').collect();
    let hex = f[5].as_bytes();
    let d = |c: u8| (c as char).to_digit(16).unwrap() as u8;
    H {
        id: f[0].into(),
        end: f[1].into(),
        chunk: f[2].into(),
        chk: f[3].into(),
        calls: f[4].split(';').map(|s| s.to_string()).collect(),
        bytes: Arc::new(hex.chunks(2).map(|c| d(c[0]) << 4 | d(c[1])).collect()),
    }
}

pub const KINDS: [(&str, io::ErrorKind); 6] = [
    ("Io:ConnectionReset", io::ErrorKind::ConnectionReset),
    ("Io:PermissionDenied", io::ErrorKind::PermissionDenied),
    ("Io:WouldBlock", io::ErrorKind::WouldBlock),
    ("Io:TimedOut", io::ErrorKind::TimedOut),
    ("Io:InvalidData", io::ErrorKind::InvalidData),
    ("Io:Other", io::ErrorKind::Other),
];

struct Rd {
    data: Arc<Vec<u8>>,
    pos: Arc<AtomicUsize>,
    end: Option<io::ErrorKind>,
    mode: u8,
    s: u64,
    intr: bool,
}
impl Rd {
    fn rnd(&mut self) -> u64 {
        self.s ^= self.s << 13;
        self.s ^= self.s >> 7;
        self.s ^= self.s << 17;
        self.s
    }
}
impl Read for Rd {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if self.mode == b'i' && !self.intr && self.rnd() % 3 == 0 {
            self.intr = true;
            return Err(io::ErrorKind::Interrupted.into());
        }
        self.intr = false;
        let p = self.pos.load(Ordering::Relaxed);
        let left = self.data.len() - p;
        if left == 0 {
            return match self.end {
                None => Ok(0),
                Some(k) => Err(k.into()),
            };
        }
        let want = match self.mode {
            b'1' => 1,
            b'r' | b'i' => 1 + (self.rnd() % 7) as usize,
            _ => usize::MAX,
        };
        let n = buf.len().min(left).min(want);
        buf[..n].copy_from_slice(&self.data[p..p + n]);
        self.pos.store(p + n, Ordering::Relaxed);
        Ok(n)
    }
}

fn err_class(e: &Error) -> String {
    match e {
        Error::Format(_) => "Format".into(),
        Error::Unsupported(f) => format!("Unsupported:{:?}", f),
        Error::Io(e) => format!("Io:{:?}", e.kind()),
        _ => "Internal".into(),
    }
}

pub fn ct_of(s: &str) -> ColorTransform {
    match s {
        "None" => ColorTransform::None,
        "Unknown" => ColorTransform::Unknown,
        "Grayscale" => ColorTransform::Grayscale,
        "RGB" => ColorTransform::RGB,
        "YCbCr" => ColorTransform::YCbCr,
        "CMYK" => ColorTransform::CMYK,
        "YCCK" => ColorTransform::YCCK,
        "JcsBgYcc" => ColorTransform::JcsBgYcc,
        _ => ColorTransform::JcsBgRgb,
    }
}

fn info_json(i: Option<ImageInfo>) -> String {
    match i {
        None => "[]".into(),
        Some(i) => format!("[{},{},\"{:?}\",\"{:?}\"]", i.width, i.height, i.pixel_format, i.coding_process),
    }
}
fn arr(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 4 + 2);
    s.push('[');
    for (i, x) in b.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        let _ = write!(s, "{}", x);
    }
    s.push(']');
    s
}
fn opt(b: Option<Vec<u8>>) -> String {
    match b {
        None => "[]".into(),
        Some(d) => {
            let mut v = vec![1];
            v.extend(d);
            arr(&v)
        }
    }
}
fn fnv(b: &[u8]) -> String {
    let mut h = 0xcbf29ce484222325u64;
    for &x in b {
        h = (h ^ x as u64).wrapping_mul(0x100000001b3);
    }
    format!("{:016x}", h)
}

struct R {
    k: &'static str,
    e: String,
    w: u16,
    h: u16,
    info: String,
    pos: usize,
    n: usize,
    px: String,
    rows: String,
    hash: String,
    exif: String,
    xmp: String,
    icc: String,
}
impl R {
    fn new(k: &'static str) -> R {
        let z = || "[]".to_string();
        R { k, e: String::new(), w: 0, h: 0, info: z(), pos: 0, n: 0, px: z(), rows: z(), hash: String::new(), exif: z(), xmp: z(), icc: z() }
    }
    fn json(&self) -> String {
        format!(
            "{{\"k\":\"{}\",\"e\":\"{}\",\"w\":{},\"h\":{},\"info\":{},\"pos\":{},\"n\":{},\"hash\":\"{}\",\"rows\":{},\"px\":{},\"exif\":{},\"xmp\":{},\"icc\":{}}}",
            self.k, self.e, self.w, self.h, self.info, self.pos, self.n, self.hash, self.rows, self.px, self.exif, self.xmp, self.icc
        )
    }
}

const FULL: usize = 24000;

/// one JSON object per call, tab separated
pub fn run_one(h: &H) -> String {
    let pos = Arc::new(AtomicUsize::new(0));
    let mode = h.chunk.as_bytes()[0];
    let seed: u64 = h.chunk[1..].parse().unwrap_or(1);
    let rd = Rd {
        data: h.bytes.clone(),
        pos: pos.clone(),
        end: KINDS.iter().find(|k| k.0 == h.end).map(|k| k.1),
        mode,
        s: seed.wrapping_mul(0x9E3779B97F4A7C15) | 1,
        intr: false,
    };
    let want_px = h.chk.contains("px") || h.chk.contains("cfg");
    let want_meta = h.chk.contains("meta") || h.chk.contains("cfg");
    let mut dec = Decoder::new(rd);
    let mut out = vec![];
    for call in &h.calls {
        let a: Vec<&str> = call.split(' ').collect();
        let num = |i: usize| a[i].parse::<u64>().unwrap();
        let r = catch_unwind(AssertUnwindSafe(|| {
            let mut r = R::new("ok");
            match a[0] {
                "read_info" => match dec.read_info() {
                    Ok(()) => {}
                    Err(e) => { r.k = "err"; r.e = err_class(&e) }
                },
                "scale" => match dec.scale(num(1) as u16, num(2) as u16) {
                    Ok((w, h)) => { r.w = w; r.h = h }
                    Err(e) => { r.k = "err"; r.e = err_class(&e) }
                },
                "set_ct" => dec.set_color_transform(ct_of(a[1])),
                "set_limit" => dec.set_max_decoding_buffer_size(num(1) as usize),
                "info" => {
                    if want_meta {
                        r.exif = opt(dec.exif_data().map(|d| d.to_vec()));
                        r.xmp = opt(dec.xmp_data().map(|d| d.to_vec()));
                        r.icc = opt(dec.icc_profile());
                    }
                }
                "decode" => match dec.decode() {
                    Ok(px) => {
                        r.n = px.len();
                        if want_px {
                            r.hash = fnv(&px);
                            if px.len() <= FULL {
                                r.px = arr(&px);
                            } else if let Some(i) = dec.info() {
                                let (ih, total) = (i.height as usize, px.len());
                                if ih > 0 && total % ih == 0 {
                                    let line = total / ih;
                                    let keep = (6000 / line).max(2).min(ih);
                                    let mut rows: Vec<usize> = (0..keep).map(|k| (k * 2654435761 + 17 * k + total) % ih).collect();
                                    rows[0] = 0;
                                    rows[1] = ih - 1;
                                    rows.sort();
                                    rows.dedup();
                                    let mut sel = vec![];
                                    for &y in &rows {
                                        sel.extend_from_slice(&px[y * line..(y + 1) * line]);
                                    }
                                    r.px = arr(&sel);
                                    r.rows = format!("{:?}", rows).replace(' ', "");
                                }
                            }
                        }
                        if want_meta {
                            r.exif = opt(dec.exif_data().map(|d| d.to_vec()));
                            r.xmp = opt(dec.xmp_data().map(|d| d.to_vec()));
                            r.icc = opt(dec.icc_profile());
                        }
                    }
                    Err(e) => { r.k = "err"; r.e = err_class(&e) }
                },
                _ => panic!("unknown call"),
            }
            r.info = info_json(dec.info());
            r
        }));
        let r = match r {
            Ok(mut r) => {
                r.pos = pos.load(Ordering::Relaxed);
                r
            }
            Err(_) => R::new("panic"),
        };
        let stop = r.k == "panic";
        out.push(r.json());
        if stop {
            break;
        }
    }
    out.join("\t")
}

fn tasks() -> usize {
    std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(0)
}

fn leak_after(base: usize) -> bool {
    for i in 0..300 {
        if tasks() <= base {
            return false;
        }
        std::thread::sleep(std::time::Duration::from_millis(if i < 20 { 1 } else { 10 }));
    }
    true
}

pub struct Opts {
    pub pool: usize,
    pub conc: usize,
    pub leak: bool,
}

pub fn run(lines: &mut dyn Iterator<Item = String>, o: &Opts) {
    std::panic::set_hook(Box::new(|_| {}));
    let stdout = io::stdout();
    let emit = |id: &str, r: &str| {
        let mut s = stdout.lock();
        let _ = writeln!(s, "{}\t{}", id, r);
        let _ = s.flush();
    };
    #[cfg(feature = "ray")]
    let pool = if o.pool > 0 { Some(rayon::ThreadPoolBuilder::new().num_threads(o.pool).build().unwrap()) } else { None };
    #[cfg(feature = "ray")]
    rayon::join(|| (), || ());
    #[cfg(feature = "ray")]
    std::thread::sleep(std::time::Duration::from_millis(50));
    let one = |h: &H| -> String {
        #[cfg(feature = "ray")]
        if let Some(p) = &pool {
            return p.install(|| run_one(h));
        }
        run_one(h)
    };
    if o.conc <= 1 {
        for l in lines {
            let h = parse(&l);
            let base = tasks();
            let mut r = one(&h);
            if o.leak && leak_after(base) {
                r = R::new("leak").json();
            }
            emit(&h.id, &r);
        }
    } else {
        let all: Vec<H> = lines.map(|l| parse(&l)).collect();
        for g in all.chunks(o.conc) {
            let rs: Vec<String> = std::thread::scope(|s| {
                let hs: Vec<_> = g.iter().map(|h| s.spawn(|| one(h))).collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            for (h, r) in g.iter().zip(rs) {
                emit(&h.id, &r);
            }
        }
    }
}
