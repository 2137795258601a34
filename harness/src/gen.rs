//! Generation of histories: JPEG streams (valid, mutated, truncated) together with a script of
//! API calls.  What the calls must return is decided by the specification, not here.
use crate::enc::*;
use crate::rng::Rng;

#[derive(Clone, Debug)]
pub struct Item {
    pub m: u8, // marker code, 0 for entropy-coded data
    pub b: Vec<u8>,
}

pub struct Hist {
    pub id: String,
    pub end: String,
    pub chunk: String,
    pub chk: String,
    pub calls: Vec<String>,
    pub bytes: Vec<u8>,
}
impl Hist {
    pub fn line(&self) -> String {
        let mut s = format!("{}\t{}\t{}\t{}\t{}\t", self.id, self.end, self.chunk, self.chk, self.calls.join(";"));
        for b in &self.bytes {
            s.push_str(&format!("{:02x}", b));
        }
        s
    }
}

#[derive(Clone)]
pub struct Cfg {
    pub sof: Vec<u8>,
    pub nc: Vec<usize>,
    pub maxw: usize,
    pub maxh: usize,
    /// 0: all factors 1; 1: common; 2: any supported
    pub fac: usize,
    /// content: 0 dc only, 1 sparse, 2 natural, 3 dense small; 9 mixed
    pub content: usize,
    pub max_blocks: usize,
    /// percent chances
    pub restart: usize,
    pub wideq: usize,
    pub fill: usize,
    pub late_tables: usize,
    pub unitq: usize,
}
impl Cfg {
    pub fn new() -> Cfg {
        Cfg { sof: vec![0, 1], nc: vec![1, 3, 3, 4], maxw: 40, maxh: 40, fac: 1, content: 9, max_blocks: 40,
              restart: 20, wideq: 20, fill: 0, late_tables: 30, unitq: 0 }
    }
}

pub struct Plan {
    pub img: Img,
    pub qt: [[u16; 64]; 4],
    pub scans: Vec<Scan>,
    pub ris: Vec<usize>,
    pub eo: EncOpts,
    pub fill: usize,
    pub late_tables: usize,
    pub wideq: usize,
    pub pad: usize,
    pub hstyle: usize,
}

pub fn factors(rng: &mut Rng, nc: usize, fac: usize) -> Vec<(usize, usize)> {
    if nc == 1 {
        return vec![if fac == 0 { (1, 1) } else { (1 + rng.below(4), 1 + rng.below(4)) }];
    }
    match fac {
        0 => vec![(1, 1); nc],
        1 => {
            let (h, v) = rng.pick(&[(1, 1), (2, 1), (1, 2), (2, 2), (2, 2), (4, 1), (1, 4), (4, 2), (2, 4), (3, 1), (1, 3)]);
            let mut f = vec![(1, 1); nc];
            f[0] = (h, v);
            if rng.pc(15) {
                f[1] = (h, v);
            }
            if nc == 4 && rng.pc(60) {
                f[3] = (h, v);
            }
            f
        }
        _ => loop {
            let hm = 1 + rng.below(4);
            let vm = 1 + rng.below(4);
            let dh: Vec<usize> = (1..=hm).filter(|d| hm % d == 0).collect();
            let dv: Vec<usize> = (1..=vm).filter(|d| vm % d == 0).collect();
            let f: Vec<(usize, usize)> = (0..nc).map(|_| (rng.pick(&dh), rng.pick(&dv))).collect();
            if f.iter().any(|x| x.0 == hm) && f.iter().any(|x| x.1 == vm) {
                return f;
            }
        },
    }
}

pub fn comp(id: u8, h: usize, v: usize, tq: usize) -> Comp {
    Comp { id, h, v, tq, pw: 0, ph: 0, ow: 0, oh: 0, blocks: vec![], samples: vec![] }
}

fn dim(rng: &mut Rng, max: usize, unit: usize) -> usize {
    let d = match rng.below(4) {
        0 => 1 + rng.below(max),
        1 => 1 + rng.below(max.min(9)),
        _ => {
            let k = 1 + rng.below((max / unit).max(1));
            let d = (k * unit) as i64 + rng.range(-2, 2);
            d.max(1) as usize
        }
    };
    d.min(max).max(1)
}

pub fn qtable(rng: &mut Rng, wide: bool, unit: bool) -> [u16; 64] {
    let mut t = [1u16; 64];
    if unit {
        return t;
    }
    for q in t.iter_mut() {
        *q = match rng.below(6) {
            0 => 1,
            1 => 1 + rng.below(4) as u16,
            5 if wide => 1 + rng.below(2000) as u16,
            4 => 1 + rng.below(255) as u16,
            _ => 1 + rng.below(40) as u16,
        };
    }
    t
}

/// Fill a component's blocks so that the dequantised magnitude of each stays within `budget`.
pub fn fill_blocks(rng: &mut Rng, c: &mut Comp, qt: &[u16; 64], content: usize) {
    let n = c.pw * c.ph;
    c.blocks = Vec::with_capacity(n);
    for _ in 0..n {
        let style = if content == 9 { rng.pick(&[0, 1, 1, 1, 2, 2, 3]) } else { content };
        let mut b = [0i32; 64];
        match style {
            0 => {
                let lim = (1023 / qt[0] as i64).min(1023);
                b[0] = rng.range(-lim, lim) as i32;
            }
            1 => {
                let mut budget = if rng.pc(5) { 7000 } else { 1250 };
                let lim = (700 / qt[0] as i64).max(0);
                b[0] = rng.range(-lim, lim) as i32;
                budget -= b[0].abs() as i64 * qt[0] as i64;
                for _ in 0..1 + rng.below(8) {
                    let k = if rng.pc(30) { 63 - rng.below(4) } else { 1 + rng.below(63) };
                    let m = (budget / qt[k] as i64).min(1023);
                    if b[k] == 0 && m > 0 {
                        let m = if rng.pc(60) { m.min(3) } else { m };
                        b[k] = rng.range(-m, m) as i32;
                        budget -= b[k].abs() as i64 * qt[k] as i64;
                    }
                }
            }
            2 => {
                let mut s = [0.0; 64];
                let (a, bx, by) = (rng.below(256) as f64, rng.range(-20, 20) as f64, rng.range(-20, 20) as f64);
                let noise = rng.pick(&[0.0, 4.0, 30.0, 120.0]);
                for y in 0..8 {
                    for x in 0..8 {
                        let v = a + bx * x as f64 + by * y as f64 + noise * (rng.below(2001) as f64 / 1000.0 - 1.0);
                        s[y * 8 + x] = v.max(0.0).min(255.0);
                    }
                }
                let f = fdct(&s);
                for k in 0..64 {
                    b[k] = (f[k] / qt[k] as f64).round() as i32;
                }
            }
            _ => {
                let mut budget = 3000i64;
                for k in 0..64 {
                    let m = (budget / qt[k] as i64 / 8).min(2);
                    b[k] = rng.range(-m, m) as i32;
                    budget -= b[k].abs() as i64 * qt[k] as i64;
                }
            }
        }
        c.blocks.push(b);
    }
}

pub fn fill_samples(rng: &mut Rng, img: &mut Img) {
    let (w, h) = (img.w, img.h);
    let max = (1i64 << img.prec) - 1;
    for c in &mut img.comps {
        let style = rng.below(4);
        let base = rng.range(0, max);
        let mut s = vec![];
        for y in 0..h {
            for x in 0..w {
                let v = match style {
                    0 => rng.range(0, max),
                    1 => (base + (x as i64) * 3 - (y as i64) * 2 + rng.range(-3, 3)).max(0).min(max),
                    2 => if rng.pc(50) { 0 } else { max },
                    _ => (base ^ rng.range(0, 3)).max(0).min(max),
                };
                s.push(v as i32);
            }
        }
        c.samples = s;
    }
}

pub fn ids(rng: &mut Rng, nc: usize) -> Vec<u8> {
    match rng.below(5) {
        0 => (0..nc as u8).collect(),
        1 => {
            let mut v = vec![];
            while v.len() < nc {
                let b = rng.byte();
                if !v.contains(&b) {
                    v.push(b);
                }
            }
            v
        }
        _ => (1..=nc as u8).collect(),
    }
}

fn groups(rng: &mut Rng, img: &Img) -> Vec<Vec<usize>> {
    let nc = img.comps.len();
    for _ in 0..20 {
        let g: Vec<usize> = match rng.below(4) {
            0 => (0..nc).collect(),
            1 => (0..nc).map(|_| rng.below(2)).collect(),
            2 => (0..nc).map(|_| rng.below(nc)).collect(),
            _ => vec![0; nc],
        };
        let mut out: Vec<Vec<usize>> = vec![];
        for k in 0..nc.max(2) {
            let s: Vec<usize> = (0..nc).filter(|&i| g[i] == k).collect();
            if !s.is_empty() {
                out.push(s);
            }
        }
        if out.iter().all(|s| fits(img, s)) {
            rng.shuffle(&mut out);
            return out;
        }
    }
    (0..nc).map(|k| vec![k]).collect()
}
fn fits(img: &Img, s: &[usize]) -> bool {
    s.len() == 1 || s.iter().map(|&k| img.comps[k].h * img.comps[k].v).sum::<usize>() <= 10
}

/// A random valid progression.
pub fn progression(rng: &mut Rng, img: &Img) -> Vec<Scan> {
    let nc = img.comps.len();
    let mut out: Vec<Scan> = vec![];
    let tab = |rng: &mut Rng| rng.below(4);
    // per component and coefficient, the Al reached so far (99 = nothing)
    let mut cur = vec![[99usize; 64]; nc];
    let dcal = rng.pick(&[0, 0, 1, 1, 2, 3, 9]);
    let acal: Vec<usize> = (0..nc).map(|_| rng.pick(&[0, 0, 1, 1, 2, 3, 8])).collect();
    for g in groups(rng, img) {
        let td = g.iter().map(|_| tab(rng)).collect();
        let ta = g.iter().map(|_| tab(rng)).collect();
        for &k in &g {
            cur[k][0] = dcal;
        }
        out.push(Scan { comps: g, td, ta, ss: 0, se: 0, ah: 0, al: dcal });
    }
    let mut guard = 0;
    loop {
        guard += 1;
        if guard > 60 {
            break;
        }
        // what is left to do?
        let mut opts: Vec<(usize, usize)> = vec![];
        for k in 0..nc {
            for i in 0..64 {
                if cur[k][i] != 0 {
                    opts.push((k, i));
                }
            }
        }
        if opts.is_empty() {
            break;
        }
        let (k, i) = rng.pick(&opts);
        if i == 0 {
            // refine DC of a group of components at the same level
            let lvl = cur[k][0];
            let mut g: Vec<usize> = (0..nc).filter(|&c| cur[c][0] == lvl && (c == k || rng.pc(70))).collect();
            if !fits(img, &g) {
                g = vec![k];
            }
            let td = g.iter().map(|_| tab(rng)).collect();
            let ta = g.iter().map(|_| tab(rng)).collect();
            for &c in &g {
                cur[c][0] = lvl - 1;
            }
            out.push(Scan { comps: g, td, ta, ss: 0, se: 0, ah: lvl, al: lvl - 1 });
        } else {
            let lvl = cur[k][i];
            let (mut a, mut b) = (i, i);
            let grow = rng.pick(&[100, 100, 97, 90]);
            while a > 1 && cur[k][a - 1] == lvl && rng.pc(grow) {
                a -= 1;
            }
            while b < 63 && cur[k][b + 1] == lvl && rng.pc(grow) {
                b += 1;
            }
            if guard > 30 {
                while a > 1 && cur[k][a - 1] == lvl { a -= 1; }
                while b < 63 && cur[k][b + 1] == lvl { b += 1; }
            }
            let (ah, al) = if lvl == 99 { (0, acal[k]) } else { (lvl, lvl - 1) };
            for j in a..=b {
                cur[k][j] = al;
            }
            let (td, ta) = (vec![tab(rng)], vec![tab(rng)]);
            out.push(Scan { comps: vec![k], td, ta, ss: a, se: b, ah, al });
        }
    }
    out
}

pub fn make_plan(rng: &mut Rng, cfg: &Cfg) -> Plan {
    let sof = rng.pick(&cfg.sof);
    let nc = rng.pick(&cfg.nc);
    let lossless = sof == 3;
    let prog = sof == 2;
    let fac = if lossless { 0 } else { cfg.fac };
    let mut img;
    loop {
        let f = if lossless && nc == 1 { vec![(1, 1)] } else { factors(rng, nc, fac) };
        let hm = f.iter().map(|x| x.0).max().unwrap();
        let vm = f.iter().map(|x| x.1).max().unwrap();
        let (uw, uh) = if lossless { (1, 1) } else { (8 * hm, 8 * vm) };
        let (w, h) = (dim(rng, cfg.maxw, uw), dim(rng, cfg.maxh, uh));
        let idv = ids(rng, nc);
        let prec = if lossless { rng.pick(&[8u8, 8, 8, 2, 3, 5, 7, 9, 10, 12, 14, 15, 16, 16]) } else { 8 };
        let comps = (0..nc).map(|k| comp(idv[k], f[k].0, f[k].1, if lossless { 0 } else { rng.below(4) })).collect();
        img = Img { sof, prec, w, h, comps };
        img.layout();
        let blocks: usize = img.comps.iter().map(|c| c.pw * c.ph).sum();
        let cost = if lossless { w * h * nc / 16 } else { blocks };
        if cost <= cfg.max_blocks {
            break;
        }
    }
    let wide = rng.pc(cfg.wideq) && !lossless;
    let mut qt = [[1u16; 64]; 4];
    for q in qt.iter_mut() {
        *q = qtable(rng, wide, rng_pc2(cfg.unitq));
    }
    if lossless {
        fill_samples(rng, &mut img);
    } else {
        for k in 0..nc {
            let q = qt[img.comps[k].tq];
            let content = cfg.content;
            fill_blocks(rng, &mut img.comps[k], &q, content);
        }
    }
    let maxt = if sof == 0 { 2 } else { 4 };
    let scans: Vec<Scan> = if prog {
        progression(rng, &img)
    } else {
        let (pred, pt) = (1 + rng.below(7), if rng.pc(60) { 0 } else { rng.below(img.prec as usize) });
        groups(rng, &img)
            .into_iter()
            .map(|g| {
                let n = g.len();
                Scan {
                    comps: g,
                    td: (0..n).map(|_| rng.below(maxt)).collect(),
                    ta: (0..n).map(|_| if lossless { 0 } else { rng.below(maxt) }).collect(),
                    ss: if lossless { if rng.pc(30) { 1 + rng.below(7) } else { pred } } else { 0 },
                    se: if lossless { 0 } else { 63 },
                    ah: 0,
                    al: if lossless { pt } else { 0 },
                }
            })
            .collect()
    };
    let vary = rng.pc(30);
    let on = rng.pc(cfg.restart);
    let most = if rng.pc(50) { 3 } else { 12 };
    let one = 1 + rng.below(most);
    let ris = scans
        .iter()
        .map(|_| {
            let r = if !on { 0 } else if vary { if rng.pc(30) { 0 } else { 1 + rng.below(6) } } else { one };
            if lossless { r * img.w } else { r }
        })
        .collect();
    Plan {
        img, qt, scans, ris,
        eo: EncOpts { flush_eob: rng.pick(&[0, 0, 10, 50, 100]), extra_zrl: rng.pick(&[0, 0, 30]), prog },
        fill: cfg.fill,
        late_tables: cfg.late_tables,
        wideq: if wide { 100 } else { rng.pick(&[0, 0, 20]) },
        pad: rng.pick(&[0, 0, 0, 1, 2]),
        hstyle: rng.below(3),
    }
}

fn rng_pc2(p: usize) -> bool {
    p >= 100
}

pub fn scan_events(p: &Plan, i: usize, rng: &mut Rng) -> Vec<Ev> {
    if p.img.sof == 3 {
        lossless_events(&p.img, &p.scans[i], p.ris[i])
    } else {
        dct_events(&p.img, &p.scans[i], p.ris[i], &p.eo, rng)
    }
}

/// Everything between SOI and EOI (exclusive), in a decodable order.
pub fn build(p: &Plan, rng: &mut Rng) -> Vec<Item> {
    let ns = p.scans.len();
    let evs: Vec<Vec<Ev>> = (0..ns).map(|i| scan_events(p, i, rng)).collect();
    // symbols needed: need[scan][class][slot]
    let mut need = vec![vec![vec![Vec::<u8>::new(); 4]; 2]; ns];
    for (i, e) in evs.iter().enumerate() {
        for x in e {
            if let Ev::Sym { ac, t, s, .. } = x {
                let v = &mut need[i][*ac as usize][*t];
                if !v.contains(s) {
                    v.push(*s);
                }
            }
        }
        // a selected table must exist even if no symbol of it is used
        let sc = &p.scans[i];
        if p.img.sof != 3 {
            for &t in &sc.td {
                if sc.ss == 0 && sc.ah == 0 && need[i][0][t].is_empty() {
                    need[i][0][t].push(0);
                }
            }
            for &t in &sc.ta {
                if sc.se > 0 && need[i][1][t].is_empty() {
                    need[i][1][t].push(0);
                }
            }
        }
    }
    let mut tabs: [Vec<Option<HT>>; 2] = [vec![None, None, None, None], vec![None, None, None, None]];
    let mut head: Vec<Item> = vec![];
    // quantization tables
    let mut qused: Vec<usize> = p.img.comps.iter().map(|c| c.tq).collect();
    qused.sort();
    qused.dedup();
    if p.img.sof != 3 {
        if rng.pc(20) {
            for k in 0..4 {
                if !qused.contains(&k) {
                    qused.push(k);
                }
            }
        }
        rng.shuffle(&mut qused);
        let join = rng.pc(50);
        let mut pay = vec![];
        for &k in &qused {
            let wide = p.qt[k].iter().any(|&q| q > 255) || rng.pc(p.wideq);
            pay.extend(dqt_payload(k, &p.qt[k], wide));
            if !join {
                head.push(Item { m: 0xDB, b: seg(0xDB, &pay) });
                pay.clear();
            }
        }
        if !pay.is_empty() {
            head.push(Item { m: 0xDB, b: seg(0xDB, &pay) });
        }
    }
    head.push(Item { m: 0xC0 + p.img.sof, b: sof_seg(&p.img) });
    if rng.pc(30) {
        let k = rng.below(head.len());
        let s = head.pop().unwrap();
        head.insert(k, s);
    }
    let mut out = head;
    let mut ri = 0;
    for i in 0..ns {
        let mut pre: Vec<Item> = vec![];
        let mut pay: Vec<u8> = vec![];
        let join = rng.pc(50);
        for cl in 0..2 {
            for t in 0..4 {
                if need[i][cl][t].is_empty() {
                    continue;
                }
                let covered = tabs[cl][t]
                    .as_ref()
                    .map_or(false, |h| need[i][cl][t].iter().all(|&s| h.code[s as usize].is_some()));
                if covered && !rng.pc(p.late_tables) {
                    continue;
                }
                let mut syms = need[i][cl][t].clone();
                if rng.pc(60) {
                    for nd in &need[i + 1..] {
                        for &s in &nd[cl][t] {
                            if !syms.contains(&s) {
                                syms.push(s);
                            }
                        }
                    }
                }
                // symbols of no use here
                for _ in 0..rng.pick(&[0, 0, 1, 5]) {
                    let s = if cl == 0 { rng.below(12) as u8 } else { rng.byte() };
                    if !syms.contains(&s) {
                        syms.push(s);
                    }
                }
                let style = if rng.pc(70) { p.hstyle } else { rng.below(3) };
                let ones = rng_allones(rng);
                let h = HT::random(rng, &syms, style, ones);
                pay.extend(h.seg(cl as u8, t as u8));
                tabs[cl][t] = Some(h);
                if !join {
                    pre.push(Item { m: 0xC4, b: seg(0xC4, &pay) });
                    pay.clear();
                }
            }
        }
        if !pay.is_empty() {
            pre.push(Item { m: 0xC4, b: seg(0xC4, &pay) });
        }
        if p.ris[i] != ri || rng.pc(5) {
            ri = p.ris[i];
            pre.push(Item { m: 0xDD, b: seg(0xDD, &[(ri >> 8) as u8, ri as u8]) });
        }
        rng.shuffle(&mut pre);
        out.extend(pre);
        out.push(Item { m: 0xDA, b: sos_seg(&p.img, &p.scans[i]) });
        let b = emit(&evs[i], &tabs[0], &tabs[1], rng, p.pad, p.fill);
        out.push(Item { m: 0, b });
    }
    out
}

fn rng_allones(rng: &mut Rng) -> bool {
    rng.pc(25)
}

/// SOI items EOI; fill/stray: percent chance per marker.
pub fn assemble(items: &[Item], rng: &mut Rng, fill: usize, stray: usize) -> Vec<u8> {
    let mut o = vec![0xFF, 0xD8];
    for it in items {
        if it.m != 0 {
            junk(&mut o, rng, fill, stray);
        }
        o.extend(&it.b);
    }
    junk(&mut o, rng, fill, 0);
    o.extend([0xFF, 0xD9]);
    o
}
fn junk(o: &mut Vec<u8>, rng: &mut Rng, fill: usize, stray: usize) {
    // stray bytes must not follow entropy-coded data, where they would be data
    if stray > 0 && rng.pc(stray) {
        for _ in 0..1 + rng.below(5) {
            match rng.below(5) {
                0 => o.extend([0xFF, 0x00]),
                1 => o.push(0),
                _ => o.push(rng.byte() & 0x7F),
            }
        }
    }
    if fill > 0 && rng.pc(fill) {
        for _ in 0..1 + rng.below(4) {
            o.push(0xFF);
        }
    }
}

pub fn app(m: u8, sig: &[u8], data: &[u8]) -> Item {
    let mut p = sig.to_vec();
    p.extend_from_slice(data);
    Item { m: 0xE0 + m, b: seg(0xE0 + m, &p) }
}
pub fn jfif() -> Item {
    app(0, b"JFIF\0", &[1, 2, 0, 0, 1, 0, 1, 0, 0])
}
pub fn adobe(t: u8) -> Item {
    app(14, b"Adobe\0", &[100, 0, 0, 0, 0, t])
}
pub fn avi1() -> Item {
    app(0, b"AVI1\0", &[0, 0, 0, 0, 0, 0, 0, 0, 0])
}

/// insert before a random marker segment (never between SOS and its data)
pub fn insert(items: &mut Vec<Item>, it: Item, rng: &mut Rng) {
    let mut pos: Vec<usize> = (0..items.len()).filter(|&i| items[i].m != 0).collect();
    pos.push(items.len());
    let k = rng.pick(&pos);
    items.insert(k, it);
}

/// Dimensions a reader would find, following the marker structure.
pub fn dims(b: &[u8]) -> Option<(usize, usize, usize)> {
    let mut p = 2;
    loop {
        while p < b.len() && b[p] != 0xFF {
            p += 1;
        }
        while p < b.len() && b[p] == 0xFF {
            p += 1;
        }
        let m = *b.get(p)?;
        p += 1;
        if m == 0 {
            continue;
        }
        if (0xC0..=0xCF).contains(&m) && ![0xC4, 0xC8, 0xCC].contains(&m) {
            let g = |i: usize| b.get(p + i).copied().unwrap_or(0) as usize;
            return Some((g(5) * 256 + g(6), g(3) * 256 + g(4), g(7)));
        }
        if [0xD8, 0xD9, 0x01].contains(&m) || (0xD0..=0xD7).contains(&m) || m < 0xC0 {
            continue;
        }
        if p + 2 > b.len() {
            return None;
        }
        p += (b[p] as usize * 256 + b[p + 1] as usize).max(2);
    }
}

/// Structure-aware damage of a list of items.
pub fn mutate_items(items: &mut Vec<Item>, rng: &mut Rng) {
    let segs: Vec<usize> = (0..items.len()).filter(|&i| items[i].m != 0).collect();
    let k = rng.pick(&segs);
    match rng.below(13) {
        0 => { items.remove(k); }
        1 => {
            let it = items[k].clone();
            insert(items, it, rng);
        }
        2 => {
            let it = items.remove(k);
            insert(items, it, rng);
        }
        3 => {
            // another marker code
            let m = if rng.pc(60) { 0xC0 + rng.below(64) as u8 } else { 1 + rng.below(254) as u8 };
            if items[k].b.len() > 1 {
                items[k].b[1] = m;
            }
        }
        4 => {
            // length field
            let l = items[k].b.len() as i64 - 2;
            let n = rng.pick(&[0, 1, 2, 3, l - 1, l + 1, l + 2, l - 2, l + 3, l - 3, 7, 8, 19, 67]).max(0);
            if items[k].b.len() >= 4 {
                items[k].b[2] = (n >> 8) as u8;
                items[k].b[3] = n as u8;
            }
        }
        5 => {
            // length field together with the payload
            let l = items[k].b.len();
            if rng.pc(50) {
                let n = rng.below(4).min(l.saturating_sub(4));
                items[k].b.truncate(l - n);
            } else {
                let n = 1 + rng.below(3);
                let e = rng.bytes(n);
                items[k].b.extend(e);
            }
            let n = items[k].b.len() - 2;
            items[k].b[2] = (n >> 8) as u8;
            items[k].b[3] = n as u8;
        }
        6 => {
            // a new segment of any kind
            let m = if rng.pc(70) { 0xC0 + rng.below(64) as u8 } else { 1 + rng.below(254) as u8 };
            let n = rng.below(20);
            let b = if rng.pc(20) { vec![0xFF, m] } else { let d = rng.bytes(n); seg(m, &d) };
            insert(items, Item { m, b }, rng);
        }
        _ => {
            // a payload byte
            let l = items[k].b.len();
            if l > 4 {
                let hot = (l - 4).min(24);
                let i = 4 + if rng.pc(80) { rng.below(hot) } else { rng.below(l - 4) };
                let old = items[k].b[i];
                items[k].b[i] = match rng.below(6) {
                    0 => old ^ (1 << rng.below(8)),
                    1 => old.wrapping_add(1),
                    2 => old.wrapping_sub(1),
                    3 => 0,
                    4 => rng.pick(&[0x10, 0x11, 0x22, 0x40, 0x20, 0x05, 0x31, 0x13, 0x14, 0x41, 12, 16, 17, 2, 63, 64, 0xFF]),
                    _ => rng.byte(),
                };
            }
        }
    }
}

pub fn mutate_bytes(b: &mut Vec<u8>, rng: &mut Rng) {
    for _ in 0..1 + rng.below(3) {
        if b.len() < 4 {
            return;
        }
        let i = 2 + rng.below(b.len() - 2);
        match rng.below(5) {
            0 => b[i] ^= 1 << rng.below(8),
            1 => b[i] = rng.byte(),
            2 => b[i] = 0xFF,
            3 => { b.remove(i); }
            _ => { let x = rng.byte(); b.insert(i, x); }
        }
    }
}
