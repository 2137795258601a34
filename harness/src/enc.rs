//! A JPEG writer that can produce any stream the format allows (and, with the knobs of gen.rs,
//! streams it does not).  It is not trusted: what a stream means is decided by the specification.
use crate::rng::Rng;

pub const ZZ: [usize; 64] = [
    0, 1, 8, 16, 9, 2, 3, 10, 17, 24, 32, 25, 18, 11, 4, 5, 12, 19, 26, 33, 40, 48, 41, 34, 27, 20,
    13, 6, 7, 14, 21, 28, 35, 42, 49, 56, 57, 50, 43, 36, 29, 22, 15, 23, 30, 37, 44, 51, 58, 59,
    52, 45, 38, 31, 39, 46, 53, 60, 61, 54, 47, 55, 62, 63,
];

#[derive(Clone, Debug)]
pub struct HT {
    pub counts: [u8; 16],
    pub vals: Vec<u8>,
    pub code: Vec<Option<(u16, u8)>>,
}

impl HT {
    pub fn from(counts: [u8; 16], vals: Vec<u8>) -> HT {
        let mut code = vec![None; 256];
        let (mut c, mut k) = (0u32, 0usize);
        for l in 1..=16u8 {
            for _ in 0..counts[l as usize - 1] {
                if k < vals.len() && code[vals[k] as usize].is_none() {
                    code[vals[k] as usize] = Some((c as u16, l));
                }
                k += 1;
                c += 1;
            }
            c <<= 1;
        }
        HT { counts, vals, code }
    }

    /// A random prefix code for `syms`; style: 0 balanced, 1 skewed (long codes), 2 mixed.
    pub fn random(rng: &mut Rng, syms: &[u8], style: usize, all_ones: bool) -> HT {
        let n = syms.len() + if all_ones { 0 } else { 1 } + if rng.pc(30) { rng.below(5) } else { 0 };
        let n = n.max(1);
        let mut leaves: Vec<u8> = vec![0];
        while leaves.len() < n || leaves[0] == 0 {
            // split one leaf
            let cand: Vec<usize> = (0..leaves.len()).filter(|&i| leaves[i] < 16).collect();
            let i = match style {
                0 => *cand.iter().min_by_key(|&&i| leaves[i]).unwrap(),
                1 => {
                    // deepen the deepest leaf as long as there remain enough places elsewhere
                    let mut c = cand.clone();
                    c.sort_by_key(|&i| leaves[i]);
                    if rng.pc(75) { *c.last().unwrap() } else { c[rng.below(c.len())] }
                }
                _ => cand[rng.below(cand.len())],
            };
            let d = leaves[i] + 1;
            leaves[i] = d;
            leaves.push(d);
        }
        leaves.sort();
        // choose which leaves carry the symbols; unused leaves become gaps at the end of the code
        // space only if they are the longest ones, so drop from the long end.
        while leaves.len() > syms.len() {
            if all_ones || rng.pc(70) {
                leaves.pop();
            } else {
                // removing a leaf elsewhere leaves the code incomplete but still a prefix code
                let i = rng.below(leaves.len());
                leaves.remove(i);
            }
        }
        let mut counts = [0u8; 16];
        // counts are bytes: no more than 255 codes of one length
        for i in 0..leaves.len() {
            let mut l = leaves[i] as usize;
            if l == 0 {
                l = 1;
            }
            counts[l - 1] = counts[l - 1].wrapping_add(1);
        }
        if leaves.len() == 256 && counts.iter().map(|&c| c as usize).sum::<usize>() != 256 {
            // 256 codes of length 8: spread
            counts = [0; 16];
            counts[7] = 255;
            counts[8] = 1;
        }
        let mut vals = syms.to_vec();
        rng.shuffle(&mut vals);
        HT::from(counts, vals)
    }
    pub fn seg(&self, class: u8, idx: u8) -> Vec<u8> {
        let mut v = vec![class << 4 | idx];
        v.extend_from_slice(&self.counts);
        v.extend_from_slice(&self.vals);
        v
    }
}

pub struct BitWriter {
    pub out: Vec<u8>,
    acc: u64,
    n: u8,
}
impl BitWriter {
    pub fn new() -> BitWriter {
        BitWriter { out: vec![], acc: 0, n: 0 }
    }
    pub fn put(&mut self, v: u32, n: u8) {
        for i in (0..n).rev() {
            self.acc = self.acc << 1 | ((v >> i) & 1) as u64;
            self.n += 1;
            if self.n == 8 {
                let b = self.acc as u8;
                self.out.push(b);
                if b == 0xFF {
                    self.out.push(0);
                }
                self.acc = 0;
                self.n = 0;
            }
        }
    }
    /// pad to a byte boundary: mode 0 ones, 1 zeros, 2 random
    pub fn flush(&mut self, rng: &mut Rng, mode: usize) {
        while self.n != 0 {
            let b = match mode { 0 => 1, 1 => 0, _ => rng.below(2) as u32 };
            self.put(b, 1);
        }
    }
    pub fn marker(&mut self, m: u8, fill: usize) {
        for _ in 0..=fill {
            self.out.push(0xFF);
        }
        self.out.push(m);
    }
}

#[derive(Clone, Debug)]
pub enum Ev {
    /// Huffman-coded symbol of table (ac, index), followed by nb extra bits
    Sym { ac: bool, t: usize, s: u8, nb: u8, v: u32 },
    Bits { nb: u8, v: u32 },
    Rst,
}

#[derive(Clone, Debug)]
pub struct Comp {
    pub id: u8,
    pub h: usize,
    pub v: usize,
    pub tq: usize,
    /// padded size in blocks and own size in blocks
    pub pw: usize,
    pub ph: usize,
    pub ow: usize,
    pub oh: usize,
    /// blocks in zig-zag order, row by row of the padded grid
    pub blocks: Vec<[i32; 64]>,
    /// lossless samples
    pub samples: Vec<i32>,
}

#[derive(Clone, Debug)]
pub struct Img {
    pub sof: u8,
    pub prec: u8,
    pub w: usize,
    pub h: usize,
    pub comps: Vec<Comp>,
}

#[derive(Clone, Debug)]
pub struct Scan {
    pub comps: Vec<usize>,
    pub td: Vec<usize>,
    pub ta: Vec<usize>,
    pub ss: usize,
    pub se: usize,
    pub ah: usize,
    pub al: usize,
}

fn cat(v: i32) -> u8 {
    (32 - v.unsigned_abs().leading_zeros()) as u8
}
fn bits(v: i32, n: u8) -> u32 {
    if v >= 0 { v as u32 } else { ((v - 1) as u32) & ((1u32 << n) - 1) }
}

impl Img {
    pub fn layout(&mut self) {
        let hm = self.comps.iter().map(|c| c.h).max().unwrap();
        let vm = self.comps.iter().map(|c| c.v).max().unwrap();
        let mw = (self.w + 8 * hm - 1) / (8 * hm);
        let mh = (self.h + 8 * vm - 1) / (8 * vm);
        for c in &mut self.comps {
            c.pw = mw * c.h;
            c.ph = mh * c.v;
            c.ow = ((self.w * c.h + hm - 1) / hm + 7) / 8;
            c.oh = ((self.h * c.v + vm - 1) / vm + 7) / 8;
        }
    }
    pub fn mcus(&self) -> (usize, usize) {
        let hm = self.comps.iter().map(|c| c.h).max().unwrap();
        let vm = self.comps.iter().map(|c| c.v).max().unwrap();
        ((self.w + 8 * hm - 1) / (8 * hm), (self.h + 8 * vm - 1) / (8 * vm))
    }
    /// the order in which a scan codes blocks: per MCU a list of (selection, block index)
    pub fn mcu_list(&self, sc: &Scan) -> Vec<Vec<(usize, usize)>> {
        let mut out = vec![];
        if sc.comps.len() == 1 {
            let c = &self.comps[sc.comps[0]];
            for y in 0..c.oh {
                for x in 0..c.ow {
                    out.push(vec![(0, y * c.pw + x)]);
                }
            }
        } else {
            let (mw, mh) = self.mcus();
            for my in 0..mh {
                for mx in 0..mw {
                    let mut m = vec![];
                    for (i, &k) in sc.comps.iter().enumerate() {
                        let c = &self.comps[k];
                        for v in 0..c.v {
                            for h in 0..c.h {
                                m.push((i, (my * c.v + v) * c.pw + mx * c.h + h));
                            }
                        }
                    }
                    out.push(m);
                }
            }
        }
        out
    }
}

pub struct EncOpts {
    /// percent chance to flush a pending EOB run early
    pub flush_eob: usize,
    /// percent chance of a superfluous ZRL where one fits
    pub extra_zrl: usize,
    pub prog: bool,
}

/// Events of a DCT scan.
pub fn dct_events(img: &Img, sc: &Scan, ri: usize, o: &EncOpts, rng: &mut Rng) -> Vec<Ev> {
    let mut ev = vec![];
    let mut pred = [0i32; 4];
    let mut eob = 0usize;
    let mut be: Vec<u32> = vec![]; // correction bits belonging to the pending EOB run
    let list = img.mcu_list(sc);
    for (n, mcu) in list.iter().enumerate() {
        if ri > 0 && n > 0 && n % ri == 0 {
            flush(&mut ev, sc, &mut eob, &mut be);
            ev.push(Ev::Rst);
            pred = [0; 4];
        }
        for &(i, b) in mcu {
            let blk = &img.comps[sc.comps[i]].blocks[b];
            if sc.ah == 0 {
                if sc.ss == 0 {
                    let dc = blk[0] >> sc.al;
                    let d = dc - pred[i];
                    pred[i] = dc;
                    let s = cat(d);
                    ev.push(Ev::Sym { ac: false, t: sc.td[i], s, nb: s, v: bits(d, s) });
                }
                let k0 = sc.ss.max(1);
                if sc.se >= k0 {
                    let mut r = 0;
                    for k in k0..=sc.se {
                        let c = blk[k];
                        let v = if c >= 0 { c >> sc.al } else { -((-c) >> sc.al) };
                        if v == 0 {
                            r += 1;
                            continue;
                        }
                        if eob > 0 {
                            flush(&mut ev, sc, &mut eob, &mut be);
                        }
                        while r > 15 {
                            ev.push(Ev::Sym { ac: true, t: sc.ta[i], s: 0xF0, nb: 0, v: 0 });
                            r -= 16;
                        }
                        let s = cat(v);
                        ev.push(Ev::Sym { ac: true, t: sc.ta[i], s: (r as u8) << 4 | s, nb: s, v: bits(v, s) });
                        r = 0;
                    }
                    if r > 0 {
                        while r > 16 && rng.pc(o.extra_zrl) {
                            flush(&mut ev, sc, &mut eob, &mut be);
                            ev.push(Ev::Sym { ac: true, t: sc.ta[i], s: 0xF0, nb: 0, v: 0 });
                            r -= 16;
                        }
                        if o.prog {
                            eob += 1;
                            if eob == 0x7FFF || rng.pc(o.flush_eob) {
                                flush(&mut ev, sc, &mut eob, &mut be);
                            }
                        } else {
                            ev.push(Ev::Sym { ac: true, t: sc.ta[i], s: 0, nb: 0, v: 0 });
                        }
                    }
                }
            } else if sc.ss == 0 {
                ev.push(Ev::Bits { nb: 1, v: ((blk[0] >> sc.al) & 1) as u32 });
            } else {
                // refinement of an AC band (G.1.2.3)
                let a: Vec<i32> = (0..64).map(|k| blk[k].abs() >> sc.al).collect();
                let last_new = (sc.ss..=sc.se).filter(|&k| a[k] == 1).max();
                let mut r = 0usize;
                let mut br: Vec<u32> = vec![];
                for k in sc.ss..=sc.se {
                    if a[k] == 0 {
                        r += 1;
                        continue;
                    }
                    while r > 15 && last_new.map_or(false, |l| k <= l) {
                        flush(&mut ev, sc, &mut eob, &mut be);
                        ev.push(Ev::Sym { ac: true, t: sc.ta[i], s: 0xF0, nb: 0, v: 0 });
                        for &b in &br {
                            ev.push(Ev::Bits { nb: 1, v: b });
                        }
                        br.clear();
                        r -= 16;
                    }
                    if a[k] > 1 {
                        br.push((a[k] & 1) as u32);
                        continue;
                    }
                    flush(&mut ev, sc, &mut eob, &mut be);
                    let sign = if blk[k] < 0 { 0 } else { 1 };
                    ev.push(Ev::Sym { ac: true, t: sc.ta[i], s: (r as u8) << 4 | 1, nb: 1, v: sign });
                    for &b in &br {
                        ev.push(Ev::Bits { nb: 1, v: b });
                    }
                    br.clear();
                    r = 0;
                }
                if r > 0 || !br.is_empty() {
                    eob += 1;
                    be.extend_from_slice(&br);
                    if eob == 0x7FFF || be.len() > 900 || rng.pc(o.flush_eob) {
                        flush(&mut ev, sc, &mut eob, &mut be);
                    }
                }
            }
        }
    }
    flush(&mut ev, sc, &mut eob, &mut be);
    ev
}

fn flush(ev: &mut Vec<Ev>, sc: &Scan, eob: &mut usize, be: &mut Vec<u32>) {
    if *eob > 0 {
        let n = (63 - (*eob as u64).leading_zeros()) as u8;
        let v = *eob as u32 - (1 << n);
        ev.push(Ev::Sym { ac: true, t: sc.ta[0], s: n << 4, nb: n, v });
        for &b in be.iter() {
            ev.push(Ev::Bits { nb: 1, v: b });
        }
        *eob = 0;
        be.clear();
    }
}

/// Events of a lossless scan; pred = sc.ss, point transform = sc.al; ri in samples (whole lines).
pub fn lossless_events(img: &Img, sc: &Scan, ri: usize) -> Vec<Ev> {
    let mut ev = vec![];
    let (w, h) = (img.w, img.h);
    let mut n = 0;
    let mut line0 = 0; // first line of the interval
    for y in 0..h {
        for x in 0..w {
            if ri > 0 && n > 0 && n % ri == 0 {
                ev.push(Ev::Rst);
                line0 = y;
            }
            n += 1;
            for (i, &k) in sc.comps.iter().enumerate() {
                let s = &img.comps[k].samples;
                let g = |yy: usize, xx: usize| s[yy * w + xx] >> sc.al;
                let p = if y == line0 {
                    if x == 0 { 1 << (img.prec as usize - sc.al - 1) } else { g(y, x - 1) }
                } else if x == 0 {
                    g(y - 1, 0)
                } else {
                    let (ra, rb, rc) = (g(y, x - 1), g(y - 1, x), g(y - 1, x - 1));
                    match sc.ss {
                        1 => ra,
                        2 => rb,
                        3 => rc,
                        4 => ra + rb - rc,
                        5 => ra + ((rb - rc) >> 1),
                        6 => rb + ((ra - rc) >> 1),
                        7 => (ra + rb) / 2,
                        _ => 0,
                    }
                };
                let mut d = (g(y, x) - p) & 0xFFFF;
                if d > 32768 {
                    d -= 65536;
                }
                let c = cat(d);
                if d == 32768 {
                    ev.push(Ev::Sym { ac: false, t: sc.td[i], s: 16, nb: 0, v: 0 });
                } else {
                    ev.push(Ev::Sym { ac: false, t: sc.td[i], s: c, nb: c, v: bits(d, c) });
                }
            }
        }
    }
    ev
}

/// Entropy-code events with tables[ac][index]; returns the entropy-coded segment.
pub fn emit(ev: &[Ev], dc: &[Option<HT>], ac: &[Option<HT>], rng: &mut Rng, pad: usize, fill: usize) -> Vec<u8> {
    let mut w = BitWriter::new();
    let mut rst = 0u8;
    for e in ev {
        match e {
            Ev::Sym { ac: a, t, s, nb, v } => {
                let tab = if *a { &ac[*t] } else { &dc[*t] };
                if let Some((c, l)) = tab.as_ref().and_then(|t| t.code[*s as usize]) {
                    w.put(c as u32, l);
                }
                w.put(*v, *nb);
            }
            Ev::Bits { nb, v } => w.put(*v, *nb),
            Ev::Rst => {
                w.flush(rng, pad);
                let f = if fill > 0 && rng.pc(fill) { 1 + rng.below(3) } else { 0 };
                w.marker(0xD0 + rst, f);
                rst = (rst + 1) % 8;
            }
        }
    }
    w.flush(rng, pad);
    w.out
}

pub fn seg(m: u8, payload: &[u8]) -> Vec<u8> {
    let l = payload.len() + 2;
    let mut v = vec![0xFF, m, (l >> 8) as u8, l as u8];
    v.extend_from_slice(payload);
    v
}

pub fn sof_seg(img: &Img) -> Vec<u8> {
    let mut p = vec![img.prec, (img.h >> 8) as u8, img.h as u8, (img.w >> 8) as u8, img.w as u8, img.comps.len() as u8];
    for c in &img.comps {
        p.extend_from_slice(&[c.id, (c.h as u8) << 4 | c.v as u8, c.tq as u8]);
    }
    seg(0xC0 + img.sof, &p)
}

pub fn sos_seg(img: &Img, sc: &Scan) -> Vec<u8> {
    let mut p = vec![sc.comps.len() as u8];
    for (i, &k) in sc.comps.iter().enumerate() {
        p.extend_from_slice(&[img.comps[k].id, (sc.td[i] as u8) << 4 | sc.ta[i] as u8]);
    }
    p.extend_from_slice(&[sc.ss as u8, sc.se as u8, (sc.ah as u8) << 4 | sc.al as u8]);
    seg(0xDA, &p)
}

/// quantization table payload; t in zig-zag order
pub fn dqt_payload(idx: usize, t: &[u16; 64], wide: bool) -> Vec<u8> {
    let mut p = vec![if wide { 0x10 | idx as u8 } else { idx as u8 }];
    for &q in t.iter() {
        if wide {
            p.push((q >> 8) as u8);
        }
        p.push(q as u8);
    }
    p
}

/// Forward DCT of 64 samples (row-major, 0..255), result in zig-zag order, not quantised.
pub fn fdct(s: &[f64; 64]) -> [f64; 64] {
    let mut out = [0.0; 64];
    for k in 0..64 {
        let (u, v) = (ZZ[k] % 8, ZZ[k] / 8);
        let mut acc = 0.0;
        for y in 0..8 {
            for x in 0..8 {
                acc += (s[y * 8 + x] - 128.0)
                    * ((2 * x + 1) as f64 * u as f64 * std::f64::consts::PI / 16.0).cos()
                    * ((2 * y + 1) as f64 * v as f64 * std::f64::consts::PI / 16.0).cos();
            }
        }
        let cu = if u == 0 { 0.5f64.sqrt() } else { 1.0 };
        let cv = if v == 0 { 0.5f64.sqrt() } else { 1.0 };
        out[k] = acc * cu * cv / 4.0;
    }
    out
}
