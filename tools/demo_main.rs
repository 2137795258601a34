//! Runs the calls of a recorded case (reader end, chunking, calls, stream) and compares every result
//! with the recorded one; without recorded results it prints them.
use jpeg_decoder::{ColorTransform, Decoder, Error, ImageInfo};
use std::io::{self, Read};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

struct Rd {
    data: Vec<u8>,
    pos: Arc<AtomicUsize>,
    end: String,
    mode: u8,
    s: u64,
    intr: bool,
}
impl Rd {
    fn rnd(&mut self) -> u64 {
        self.s ^= self.s << 13;
        self.s ^= self.s >> 7;
        self.s ^= self.s << 17;
        self.s
    }
}
impl Read for Rd {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if self.mode == b'i' && !self.intr && self.rnd() % 3 == 0 {
            self.intr = true;
            return Err(io::ErrorKind::Interrupted.into());
        }
        self.intr = false;
        let p = self.pos.load(Ordering::Relaxed);
        let left = self.data.len() - p;
        if left == 0 {
            let k = match self.end.as_str() {
                "Io:ConnectionReset" => io::ErrorKind::ConnectionReset,
                "Io:PermissionDenied" => io::ErrorKind::PermissionDenied,
                "Io:WouldBlock" => io::ErrorKind::WouldBlock,
                "Io:TimedOut" => io::ErrorKind::TimedOut,
                "Io:InvalidData" => io::ErrorKind::InvalidData,
                "Io:Other" => io::ErrorKind::Other,
                _ => return Ok(0),
            };
            return Err(k.into());
        }
        let want = match self.mode {
            b'1' => 1,
            b'r' | b'i' => 1 + (self.rnd() % 7) as usize,
            _ => usize::MAX,
        };
        let n = buf.len().min(left).min(want);
        buf[..n].copy_from_slice(&self.data[p..p + n]);
        self.pos.store(p + n, Ordering::Relaxed);
        Ok(n)
    }
}

fn fnv(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf29ce484222325, |h, &x| (h ^ x as u64).wrapping_mul(0x100000001b3))
}
fn err(e: &Error) -> String {
    match e {
        Error::Format(_) => "Format".into(),
        Error::Unsupported(u) => format!("Unsupported:{:?}", u),
        Error::Io(e) => format!("Io:{:?}", e.kind()),
        _ => "Internal".into(),
    }
}
fn info(i: Option<ImageInfo>) -> String {
    i.map_or("none".into(), |i| format!("{}x{} {:?} {:?}", i.width, i.height, i.pixel_format, i.coding_process))
}

fn main() {
    let text = std::fs::read_to_string(std::env::args().nth(1).unwrap()).unwrap();
    let l: Vec<&str> = text.lines().collect();
    let data: Vec<u8> = (0..l[3].len() / 2).map(|i| u8::from_str_radix(&l[3][2 * i..2 * i + 2], 16).unwrap()).collect();
    let mode = l[1].as_bytes()[0];
    let seed: u64 = l[1][1..].parse().unwrap_or(1);
    let pos = Arc::new(AtomicUsize::new(0));
    let mut d = Decoder::new(Rd { data, pos: pos.clone(), end: l[0].into(), mode, s: seed.wrapping_mul(0x9E3779B97F4A7C15) | 1, intr: false });
    let mut out: Vec<String> = vec![];
    for call in l[2].split(';') {
        let a: Vec<&str> = call.split(' ').collect();
        let r = catch_unwind(AssertUnwindSafe(|| match a[0] {
            "decode" => match d.decode() {
                Ok(p) => format!("ok {} bytes {:016x} {} exif {:?} xmp {:?} icc {:?}", p.len(), fnv(&p), info(d.info()),
                    d.exif_data().map(fnv), d.xmp_data().map(fnv), d.icc_profile().map(|x| fnv(&x))),
                Err(e) => err(&e),
            },
            "read_info" => match d.read_info() {
                Ok(()) => format!("ok {}", info(d.info())),
                Err(e) => err(&e),
            },
            "info" => info(d.info()),
            "scale" => match d.scale(a[1].parse().unwrap(), a[2].parse().unwrap()) {
                Ok(s) => format!("ok {:?}", s),
                Err(e) => err(&e),
            },
            "set_limit" => {
                d.set_max_decoding_buffer_size(a[1].parse().unwrap());
                "set".into()
            }
            "set_ct" => {
                d.set_color_transform(match a[1] {
                    "None" => ColorTransform::None,
                    "Unknown" => ColorTransform::Unknown,
                    "Grayscale" => ColorTransform::Grayscale,
                    "RGB" => ColorTransform::RGB,
                    "YCbCr" => ColorTransform::YCbCr,
                    "CMYK" => ColorTransform::CMYK,
                    "YCCK" => ColorTransform::YCCK,
                    "JcsBgYcc" => ColorTransform::JcsBgYcc,
                    _ => ColorTransform::JcsBgRgb,
                });
                "set".into()
            }
            x => panic!("unknown call {}", x),
        }));
        let p = pos.load(Ordering::Relaxed);
        match r {
            Ok(s) => out.push(format!("{} = {} at {}", call, s, if s.starts_with("ok") { p.to_string() } else { "-".into() })),
            Err(_) => {
                out.push(format!("{} = panic", call));
                break;
            }
        }
    }
    if l.len() == 4 {
        for o in &out {
            println!("{}", o);
        }
    } else if out.iter().map(|s| s.as_str()).ne(l[4..].iter().copied()) {
        println!("expected {:#?}\ngot {:#?}", &l[4..], out);
        std::process::exit(1);
    }
}
