//! One profile per property: which streams and which call scripts its check explores.
use crate::enc::*;
use crate::gen::*;
use crate::rng::Rng;
use crate::run::KINDS;

const EOFS: &str = "Io:UnexpectedEof";

fn hist(chk: &str, bytes: Vec<u8>, calls: Vec<String>) -> Hist {
    Hist { id: String::new(), end: EOFS.into(), chunk: "a".into(), chk: chk.into(), calls, bytes }
}
fn s(x: &str) -> String {
    x.to_string()
}
fn simple(p: &Plan, rng: &mut Rng) -> Vec<u8> {
    let it = build(p, rng);
    assemble(&it, rng, 0, 0)
}

/// a transform that passes samples through or nearly so, or no call at all
fn plain_ct(rng: &mut Rng, nc: usize) -> Vec<String> {
    match (nc, rng.below(6)) {
        (_, 0) => vec![],
        (3, 1) => vec![s("set_ct YCbCr")],
        (4, 1) => vec![s("set_ct YCCK")],
        (3, 2) | (4, 2) => vec![s("set_ct None")],
        (3, _) => vec![s("set_ct RGB")],
        (4, _) => vec![s("set_ct CMYK")],
        _ => vec![],
    }
}

pub const CTS: [&str; 9] = ["None", "Unknown", "Grayscale", "RGB", "YCbCr", "CMYK", "YCCK", "JcsBgYcc", "JcsBgRgb"];

fn any_plan(rng: &mut Rng, maxd: usize, blocks: usize) -> Plan {
    let mut c = Cfg::new();
    c.sof = vec![0, 0, 1, 2, 2, 3];
    c.fac = 2;
    c.maxw = maxd;
    c.maxh = maxd;
    c.max_blocks = blocks;
    c.restart = 30;
    make_plan(rng, &c)
}

fn meta_items(rng: &mut Rng) -> Vec<Item> {
    let mut v = vec![];
    for _ in 0..rng.below(3) {
        let n = rng.below(12);
        let d = rng.bytes(n);
        v.push(match rng.below(8) {
            0 => jfif(),
            1 => adobe(rng.below(3) as u8),
            2 => app(1, b"Exif\0\0", &d),
            3 => app(1, b"http://ns.adobe.com/xap/1.0/\0", &d),
            4 => app(2, b"ICC_PROFILE\0\x01\x01", &d),
            5 => Item { m: 0xFE, b: seg(0xFE, &d) },
            6 => app(13, b"Photoshop 3.0\0", &d),
            _ => app(3 + rng.below(13) as u8, &d, &[]),
        });
    }
    v
}

fn p03(rng: &mut Rng) -> Hist {
    let mut c = Cfg::new();
    c.fac = 2;
    c.restart = 10;
    if rng.pc(15) {
        // long and thin: more rows or columns of units than the narrow types of a slip would hold
        c.max_blocks = 80;
        if rng.pc(50) { c.maxw = 300; c.maxh = 9 } else { c.maxw = 9; c.maxh = 300 }
        c.content = rng.pick(&[0, 1]);
    }
    let p = make_plan(rng, &c);
    let b = simple(&p, rng);
    let mut calls = plain_ct(rng, p.img.comps.len());
    calls.push(s("decode"));
    hist("res,px", b, calls)
}

fn p04(rng: &mut Rng) -> Hist {
    let mut c = Cfg::new();
    c.sof = vec![2];
    c.fac = if rng.pc(40) { 2 } else { 1 };
    c.maxw = 33;
    c.maxh = 33;
    c.max_blocks = 14;
    c.restart = 10;
    c.nc = vec![1, 1, 3, 3, 4];
    let mut p = make_plan(rng, &c);
    if rng.pc(30) && p.scans.len() > 1 {
        let keep = 1 + rng.below(p.scans.len() - 1);
        p.scans.truncate(keep);
        p.ris.truncate(keep);
    }
    let b = simple(&p, rng);
    let mut calls = plain_ct(rng, p.img.comps.len());
    calls.push(s("decode"));
    hist("res,px", b, calls)
}

fn p05(rng: &mut Rng) -> Hist {
    let mut c = Cfg::new();
    c.sof = vec![0, 0, 1, 2, 2, 3, 3];
    c.restart = 100;
    c.maxw = 60;
    c.maxh = 60;
    c.max_blocks = 30;
    c.nc = vec![1, 1, 1, 3, 4];
    c.content = rng.pick(&[0, 1, 9]);
    let mut p = make_plan(rng, &c);
    if p.img.sof != 3 && rng.pc(60) {
        for r in &mut p.ris {
            *r = (*r).min(2);
        }
    }
    // fill bytes between data and marker
    p.fill = rng.pick(&[0, 0, 30]);
    let mut it = build(&p, rng);
    // redundant definitions of the interval: the last one counts
    for k in (0..it.len()).rev() {
        if it[k].m == 0xDD && rng.pc(30) {
            let x = rng.below(5) as u8;
            it.insert(k, Item { m: 0xDD, b: seg(0xDD, &[0, x]) });
        }
    }
    if rng.pc(40) {
        // damage one restart marker, or the interval
        let ecs: Vec<usize> = (0..it.len()).filter(|&i| it[i].m == 0).collect();
        let k = rng.pick(&ecs);
        let rs: Vec<usize> = (1..it[k].b.len()).filter(|&j| it[k].b[j - 1] == 0xFF && (0xD0..=0xD7).contains(&it[k].b[j])).collect();
        if !rs.is_empty() && rng.pc(75) {
            let j = rng.pick(&rs);
            match rng.below(6) {
                0 | 1 => it[k].b[j] = 0xD0 + (it[k].b[j] - 0xD0 + 1 + rng.below(7) as u8) % 8,
                2 => it[k].b[j] = rng.pick(&[0xD9, 0xDA, 0xC4, 0xFE, 0xE0, 0x01]),
                3 => { it[k].b.drain(j - 1..=j); }
                4 => {
                    let m = it[k].b[j];
                    it[k].b.splice(j + 1..j + 1, [0xFF, m]);
                }
                _ => it[k].b.truncate(j - 1),
            }
        } else {
            let d: Vec<usize> = (0..it.len()).filter(|&i| it[i].m == 0xDD).collect();
            if !d.is_empty() {
                let j = rng.pick(&d);
                match rng.below(3) {
                    0 => it[j].b[5] = it[j].b[5].wrapping_add(1),
                    1 => { it[j].b[4] = 0; it[j].b[5] = 0 }
                    _ => { it.remove(j); }
                }
            }
        }
    }
    let b = assemble(&it, rng, 0, 0);
    let mut calls = if p.img.comps.len() > 1 { vec![s(if p.img.comps.len() == 3 { "set_ct RGB" } else { "set_ct CMYK" })] } else { vec![] };
    calls.push(s("decode"));
    hist("res,px", b, calls)
}

fn p06(rng: &mut Rng) -> Hist {
    let mut c = Cfg::new();
    c.sof = vec![0, 1, 1, 2, 3];
    c.fac = 0;
    c.nc = vec![1, 1, 1, 3];
    c.maxw = 24;
    c.maxh = 24;
    c.max_blocks = 8;
    c.restart = 15;
    c.content = rng.pick(&[1, 2, 3, 9]);
    c.unitq = rng.pick(&[0, 100]);
    let mut p = make_plan(rng, &c);
    p.hstyle = rng.below(3);
    p.late_tables = 100;
    p.pad = rng.below(3);
    p.fill = rng.pick(&[0, 40]);
    let mut it = build(&p, rng);
    let ecs: Vec<usize> = (0..it.len()).filter(|&i| it[i].m == 0).collect();
    let dht: Vec<usize> = (0..it.len()).filter(|&i| it[i].m == 0xC4).collect();
    match rng.below(10) {
        0 | 1 => {
            // cut data: the missing bits read as zero
            let k = rng.pick(&ecs);
            let n = it[k].b.len();
            let keep = n - rng.below(n.min(12) + 1);
            it[k].b.truncate(keep);
            if it[k].b.last() == Some(&0xFF) {
                it[k].b.pop();
            }
        }
        2 => {
            // superfluous data before the marker
            let k = rng.pick(&ecs);
            for _ in 0..1 + rng.below(5) {
                let x = rng.byte() & 0x7F;
                it[k].b.push(x);
            }
        }
        3 => {
            // overwrite some data: other symbols, possibly no codeword
            let k = rng.pick(&ecs);
            let n = it[k].b.len();
            if n > 0 {
                let i = rng.below(n);
                if it[k].b[i] != 0xFF && (i == 0 || it[k].b[i - 1] != 0xFF) {
                    it[k].b[i] = rng.pick(&[0, 1, 0x55, 0xAA, 0xFE, 0x80, 0x7F]);
                }
            }
        }
        4 => {
            // all ones: FF 00 repeated
            let k = rng.pick(&ecs);
            let n = it[k].b.len();
            let i = rng.below(n + 1);
            if i == 0 || it[k].b[i - 1] != 0xFF {
                it[k].b.truncate(i);
                for _ in 0..4 {
                    it[k].b.extend([0xFF, 0]);
                }
            }
        }
        5 | 6 if !dht.is_empty() => {
            // damage a code-length list
            let k = rng.pick(&dht);
            let j = 5 + rng.below(16);
            if j < it[k].b.len() {
                match rng.below(4) {
                    0 => it[k].b[j] = it[k].b[j].wrapping_add(1),
                    1 => {
                        // over-subscribe but keep the total
                        let i = 5 + rng.below(16);
                        if it[k].b[i] > 0 {
                            it[k].b[i] -= 1;
                            it[k].b[j] += 1;
                        }
                    }
                    2 => for q in 5..21 { it[k].b[q] = 0 },
                    _ => it[k].b[j] = rng.byte(),
                }
            }
        }
        _ => {}
    }
    let b = assemble(&it, rng, 0, 0);
    let mut calls = if p.img.comps.len() > 1 { vec![s("set_ct RGB")] } else { vec![] };
    calls.push(s("decode"));
    hist("res,px", b, calls)
}

fn p07(rng: &mut Rng) -> Hist {
    let mut c = Cfg::new();
    c.sof = vec![0, 0, 1, 2, 3];
    c.fac = 2;
    c.maxw = 20;
    c.maxh = 20;
    c.max_blocks = 10;
    c.content = 1;
    c.restart = 15;
    let p = make_plan(rng, &c);
    let mut it = build(&p, rng);
    for m in meta_items(rng) {
        insert(&mut it, m, rng);
    }
    match rng.below(10) {
        0 => {}
        1 => {
            // frame header fields
            let k = it.iter().position(|i| (0xC0..=0xC3).contains(&i.m)).unwrap();
            let n = p.img.comps.len();
            match rng.below(8) {
                0 => it[k].b[4] = rng.pick(&[0, 1, 2, 7, 8, 9, 12, 16, 17, 255]),
                1 => { it[k].b[5] = 0; it[k].b[6] = 0 }
                2 => { it[k].b[7] = 0; it[k].b[8] = 0 }
                3 => {
                    // another number of components, consistently
                    let m = rng.pick(&[0, 1, 2, 3, 4, 5, 6]);
                    it[k].b.truncate(10);
                    it[k].b[9] = m as u8;
                    for i in 0..m {
                        it[k].b.extend([i as u8 + 1, 0x11, 0]);
                    }
                    let l = it[k].b.len() - 2;
                    it[k].b[3] = l as u8;
                }
                4 => it[k].b[1] = rng.pick(&[0xC0, 0xC1, 0xC2, 0xC3, 0xC5, 0xC6, 0xC7, 0xC9, 0xCA, 0xCB, 0xCD, 0xCE, 0xCF, 0xC8, 0xCC]),
                5 => {
                    let i = rng.below(n);
                    it[k].b[11 + 3 * i] = (rng.below(6) << 4 | rng.below(6)) as u8;
                }
                6 => {
                    let (i, j) = (rng.below(n), rng.below(n));
                    it[k].b[10 + 3 * i] = it[k].b[10 + 3 * j];
                }
                _ => {
                    let i = rng.below(n);
                    it[k].b[12 + 3 * i] = rng.below(6) as u8;
                }
            }
        }
        2 => {
            // scan header fields
            let sos: Vec<usize> = (0..it.len()).filter(|&i| it[i].m == 0xDA).collect();
            let k = rng.pick(&sos);
            let n = it[k].b[4] as usize;
            match rng.below(7) {
                0 => it[k].b[5 + 2 * n] = rng.below(66) as u8,
                1 => it[k].b[6 + 2 * n] = rng.below(66) as u8,
                2 => it[k].b[7 + 2 * n] = (rng.below(16) << 4 | rng.below(16)) as u8,
                3 => it[k].b[4] = rng.below(6) as u8,
                4 => { let i = rng.below(n); it[k].b[5 + 2 * i] = rng.byte() }
                5 => { let i = rng.below(n); it[k].b[6 + 2 * i] = (rng.below(6) << 4 | rng.below(6)) as u8 }
                _ => {
                    let (i, j) = (rng.below(n), rng.below(n));
                    let t = it[k].b[5 + 2 * i];
                    it[k].b[5 + 2 * i] = it[k].b[5 + 2 * j];
                    if rng.pc(50) {
                        it[k].b[5 + 2 * j] = t;
                    }
                }
            }
        }
        3 => {
            let m = match rng.below(8) {
                0 => seg(0xDC, &[0, 10]),
                1 => seg(0xCC, &[0, 0]),
                2 => seg(0xDE, &[0; 6]),
                3 => seg(0xDF, &[0]),
                4 => vec![0xFF, 0xD0 + rng.below(8) as u8],
                5 => vec![0xFF, 0xD8],
                6 => seg(0xEE, &[b"Adobe\0".as_slice(), &[0, 100, 0, 0, 0, rng.below(5) as u8]].concat()),
                _ => vec![0xFF, rng.below(256) as u8, 0, 2],
            };
            insert(&mut it, Item { m: 1, b: m }, rng);
        }
        _ => for _ in 0..1 + rng.below(2) { mutate_items(&mut it, rng) },
    }
    let b = assemble(&it, rng, 0, 0);
    let calls = if rng.pc(25) { vec![s("read_info"), s("decode")] } else { vec![s("decode")] };
    hist("res", b, calls)
}

fn p08(rng: &mut Rng) -> Hist {
    let mut c = Cfg::new();
    c.sof = vec![0, 1, 2, 2];
    c.nc = vec![1, 3, 3, 4];
    c.fac = if rng.pc(50) { 0 } else { 1 };
    c.maxw = 20;
    c.maxh = 20;
    c.max_blocks = 12;
    c.wideq = 40;
    c.late_tables = 80;
    c.content = rng.pick(&[0, 1]);
    c.restart = 5;
    let mut p = make_plan(rng, &c);
    if p.img.sof == 2 && rng.pc(25) && p.scans.len() > 1 {
        let keep = 1 + rng.below(p.scans.len() - 1);
        p.scans.truncate(keep);
        p.ris.truncate(keep);
    }
    let mut it = build(&p, rng);
    // other quantization tables at other places; which one applies is the specification's business
    for _ in 0..rng.below(4) {
        let mut pay = vec![];
        for _ in 0..1 + rng.below(3) {
            let q = qtable(rng, false, false);
            let q: [u16; 64] = { let mut q = q; for x in q.iter_mut() { *x = (*x).min(20) } q };
            let wide = rng.pc(30);
            pay.extend(dqt_payload(rng.below(4), &q, wide));
        }
        insert(&mut it, Item { m: 0xDB, b: seg(0xDB, &pay) }, rng);
    }
    // tables nobody uses, or used by later scans: a definition of some slots leaves the others alone
    if rng.pc(30) {
        let k = rng.below(4) as u8;
        let cl = rng.below(2) as u8;
        let h = HT::random(rng, &[0, 1, 2, 3], 0, false);
        if rng.pc(60) && p.img.sof != 0 {
            // a slot no scan selects
            let used: Vec<usize> = p.scans.iter().flat_map(|x| if cl == 0 { x.td.clone() } else { x.ta.clone() }).collect();
            if let Some(free) = (0..4).find(|t| !used.contains(t)) {
                insert(&mut it, Item { m: 0xC4, b: seg(0xC4, &h.seg(cl, free as u8)) }, rng);
            }
        } else {
            insert(&mut it, Item { m: 0xC4, b: seg(0xC4, &h.seg(cl, k)) }, rng);
        }
    }
    match rng.below(10) {
        0 => {
            // a table goes missing
            let k: Vec<usize> = (0..it.len()).filter(|&i| it[i].m == 0xC4 || it[i].m == 0xDB).collect();
            let k = rng.pick(&k);
            it.remove(k);
        }
        1 => {
            let k: Vec<usize> = (0..it.len()).filter(|&i| it[i].m == 0xC4 || it[i].m == 0xDB).collect();
            let k = rng.pick(&k);
            let x = it.remove(k);
            insert(&mut it, x, rng);
        }
        _ => {}
    }
    let b = assemble(&it, rng, 0, 0);
    let mut calls = match p.img.comps.len() { 3 => vec![s("set_ct RGB")], 4 => vec![s("set_ct CMYK")], _ => vec![] };
    calls.push(s("decode"));
    hist("res,px", b, calls)
}

fn std_ht(class: usize, idx: usize) -> HT {
    const DC0: [u8; 16] = [0, 1, 5, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0];
    const DC1: [u8; 16] = [0, 3, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0];
    const AC0: [u8; 16] = [0, 2, 1, 3, 3, 2, 4, 3, 5, 5, 4, 4, 0, 0, 1, 125];
    const AC1: [u8; 16] = [0, 2, 1, 2, 4, 4, 3, 4, 7, 5, 4, 4, 0, 1, 2, 119];
    let v0: Vec<u8> = vec![
        1,2,3,0,4,17,5,18,33,49,65,6,19,81,97,7,34,113,20,50,129,145,161,8,35,66,177,193,21,82,209,240,
        36,51,98,114,130,9,10,22,23,24,25,26,37,38,39,40,41,42,52,53,54,55,56,57,58,67,68,69,70,71,72,73,
        74,83,84,85,86,87,88,89,90,99,100,101,102,103,104,105,106,115,116,117,118,119,120,121,122,131,132,133,134,135,136,137,
        138,146,147,148,149,150,151,152,153,154,162,163,164,165,166,167,168,169,170,178,179,180,181,182,183,184,185,186,194,195,196,197,
        198,199,200,201,202,210,211,212,213,214,215,216,217,218,225,226,227,228,229,230,231,232,233,234,241,242,243,244,245,246,247,248,
        249,250];
    let v1: Vec<u8> = vec![
        0,1,2,3,17,4,5,33,49,6,18,65,81,7,97,113,19,34,50,129,8,20,66,145,161,177,193,9,35,51,82,240,
        21,98,114,209,10,22,36,52,225,37,241,23,24,25,26,38,39,40,41,42,53,54,55,56,57,58,67,68,69,70,71,72,
        73,74,83,84,85,86,87,88,89,90,99,100,101,102,103,104,105,106,115,116,117,118,119,120,121,122,130,131,132,133,134,135,136,137,
        138,146,147,148,149,150,151,152,153,154,162,163,164,165,166,167,168,169,170,178,179,180,181,182,183,184,185,186,194,195,196,197,
        198,199,200,201,202,210,211,212,213,214,215,216,217,218,226,227,228,229,230,231,232,233,234,242,243,244,245,246,247,248,249,250];
    match (class, idx) {
        (0, 0) => HT::from(DC0, (0..12).collect()),
        (0, _) => HT::from(DC1, (0..12).collect()),
        (_, 0) => HT::from(AC0, v0),
        _ => HT::from(AC1, v1),
    }
}

/// Motion-JPEG: tables left out of an AVI1 stream.
fn p08m(rng: &mut Rng) -> Hist {
    let mut c = Cfg::new();
    c.sof = vec![0, 0, 1, 1, 2];
    c.nc = vec![1, 3];
    c.fac = 0;
    c.maxw = 17;
    c.maxh = 17;
    c.max_blocks = 9;
    c.content = 2;
    c.restart = 0;
    let mut p = make_plan(rng, &c);
    p.late_tables = 0;
    // keep selectors mostly to 0 and 1
    for sc in &mut p.scans {
        for t in sc.td.iter_mut().chain(sc.ta.iter_mut()) {
            if rng.pc(90) {
                *t %= 2;
            }
        }
    }
    // code everything with the standard tables; slots 2, 3 with copies of them
    let mut it: Vec<Item> = build(&p, rng).into_iter().filter(|i| i.m != 0xC4).collect();
    let tabs: Vec<Vec<Option<HT>>> = (0..2).map(|c| (0..4).map(|k| Some(std_ht(c, k % 2))).collect()).collect();
    let mut n = 0;
    for i in it.iter_mut() {
        if i.m == 0 {
            let ev = scan_events(&p, n, rng);
            i.b = emit(&ev, &tabs[0], &tabs[1], rng, 0, 0);
            n += 1;
        }
    }
    // define some of the slots explicitly, sometimes with another table
    let mut pay = vec![];
    for cl in 0..2 {
        for t in 0..if p.img.sof == 0 { 2 } else { 4 } {
            if rng.pc(25) {
                let h = if rng.pc(80) { std_ht(cl, t % 2) } else { std_ht(cl, (t + 1) % 2) };
                pay.extend(h.seg(cl as u8, t as u8));
            }
        }
    }
    if !pay.is_empty() {
        insert(&mut it, Item { m: 0xC4, b: seg(0xC4, &pay) }, rng);
    }
    if rng.pc(85) {
        if rng.pc(80) { it.insert(0, avi1()) } else { insert(&mut it, avi1(), rng) }
    } else if rng.pc(50) {
        it.insert(0, app(0, b"AVI2\0", &[0; 9]));
    }
    let b = assemble(&it, rng, 0, 0);
    let mut calls = if p.img.comps.len() == 3 { vec![s("set_ct RGB")] } else { vec![] };
    calls.push(s("decode"));
    hist("res,px", b, calls)
}

fn p09(rng: &mut Rng) -> Vec<Hist> {
    let mut c = Cfg::new();
    c.sof = vec![0, 1, 2, 2, 3];
    c.maxw = 20;
    c.maxh = 20;
    c.max_blocks = 6;
    c.restart = 30;
    c.content = rng.pick(&[1, 2]);
    c.nc = vec![1, 1, 3];
    let p = make_plan(rng, &c);
    let mut it = build(&p, rng);
    if rng.pc(50) {
        for m in meta_items(rng) {
            insert(&mut it, m, rng);
        }
    }
    if rng.pc(25) {
        // restart markers left over after the data of a scan
        let ecs: Vec<usize> = (0..it.len()).filter(|&i| it[i].m == 0).collect();
        let k = rng.pick(&ecs);
        for _ in 0..1 + rng.below(2) {
            let m = 0xD0 + rng.below(8) as u8;
            it[k].b.extend([0xFF, m]);
        }
    }
    let full = assemble(&it, rng, 0, 0);
    let mut out = vec![];
    // cut points: a few anywhere, and around each marker
    let n = full.len();
    let mut cuts: Vec<usize> = vec![n, n - 1, n - 2, n.saturating_sub(3)];
    for _ in 0..5 {
        cuts.push(rng.below(n));
    }
    let marks: Vec<usize> = (0..n - 1).filter(|&i| full[i] == 0xFF && full[i + 1] != 0).collect();
    for _ in 0..6 {
        let m = rng.pick(&marks) as i64 + rng.range(-1, 4);
        cuts.push((m.max(0) as usize).min(n));
    }
    cuts.sort();
    cuts.dedup();
    for k in cuts {
        let mut h = hist("res", full[..k].to_vec(), match rng.below(4) {
            0 => vec![s("read_info"), s("decode")],
            1 => vec![s("scale 3 3"), s("decode")],
            _ => vec![s("decode")],
        });
        if rng.pc(50) {
            h.end = rng.pick(&KINDS).0.to_string();
        }
        h.chunk = rng.pick(&["a", "a", "1", "r5", "i7"]).to_string();
        out.push(h);
    }
    out
}

fn p10(rng: &mut Rng) -> Hist {
    let mut p = any_plan(rng, 24, 8);
    p.fill = rng.pick(&[0, 30, 100]);
    let mut it = build(&p, rng);
    for m in meta_items(rng) {
        insert(&mut it, m, rng);
    }
    if rng.pc(35) {
        let ecs: Vec<usize> = (0..it.len()).filter(|&i| it[i].m == 0).collect();
        let k = rng.pick(&ecs);
        for _ in 0..1 + rng.below(3) {
            for _ in 0..rng.pick(&[0, 0, 2]) {
                it[k].b.push(0xFF);
            }
            let m = 0xD0 + rng.below(8) as u8;
            it[k].b.extend([0xFF, m]);
            if rng.pc(20) {
                let x = rng.byte() & 0x7F;
                it[k].b.push(x);
            }
        }
    }
    let (f, st) = (rng.pick(&[0, 30, 100]), rng.pick(&[0, 0, 40]));
    // stray bytes only between segments that are not preceded by entropy-coded data
    let mut b = vec![0xFF, 0xD8];
    let mut prev_ecs = false;
    for i in &it {
        if i.m != 0 {
            if !prev_ecs && rng.pc(st) {
                for _ in 0..1 + rng.below(5) {
                    match rng.below(5) {
                        0 => b.extend([0xFF, 0x00]),
                        1 => b.extend([0xFF, 0xFF, 0x00]),
                        2 => b.push(0),
                        _ => b.push(rng.byte() & 0x7F),
                    }
                }
            }
            if rng.pc(f) {
                for _ in 0..1 + rng.below(4) {
                    b.push(0xFF);
                }
            }
        }
        b.extend(&i.b);
        prev_ecs = i.m == 0;
    }
    if rng.pc(f) {
        b.push(0xFF);
    }
    b.extend([0xFF, 0xD9]);
    for _ in 0..rng.pick(&[0, 1, 5, 40]) {
        let x = rng.byte();
        b.push(x);
    }
    let calls = match rng.below(4) {
        0 => vec![s("read_info"), s("decode")],
        1 => vec![s("read_info"), s("read_info"), s("scale 4 4"), s("decode")],
        _ => vec![s("decode")],
    };
    let mut h = hist("res,pos,px", b, calls);
    h.chunk = rng.pick(&["a", "1", "r", "r", "i", "i"]).to_string();
    if h.chunk == "r" || h.chunk == "i" {
        h.chunk.push_str(&format!("{}", 1 + rng.below(1000)));
    }
    h
}

fn icc_chunk(seq: u8, num: u8, d: &[u8]) -> Item {
    let mut v = vec![seq, num];
    v.extend_from_slice(d);
    app(2, b"ICC_PROFILE\0", &v)
}

fn p11(rng: &mut Rng) -> Hist {
    let mut c = Cfg::new();
    c.sof = vec![0, 1, 2, 3];
    c.maxw = 9;
    c.maxh = 9;
    c.max_blocks = 4;
    c.content = 0;
    c.restart = 0;
    c.nc = vec![1, 1, 3];
    let p = make_plan(rng, &c);
    let mut it = build(&p, rng);
    // ICC
    let n = rng.pick(&[0, 0, 1, 1, 2, 3, 5, 8, 20, 60]);
    let mut order: Vec<usize> = (1..=n).collect();
    if rng.pc(60) {
        rng.shuffle(&mut order);
    }
    let mut icc: Vec<Item> = order
        .iter()
        .map(|&k| {
            let l = 1 + rng.below(9);
            let d = rng.bytes(l);
            icc_chunk(k as u8, n as u8, &d)
        })
        .collect();
    if n > 0 {
        match rng.below(12) {
            0 => { let k = rng.below(icc.len()); icc.remove(k); }
            1 => { let k = rng.below(icc.len()); let x = icc[k].clone(); icc.push(x); }
            2 => { let k = rng.below(icc.len()); icc[k].b[16] = rng.below(n + 2) as u8; }
            3 => { let k = rng.below(icc.len()); icc[k].b[17] = rng.below(n + 2) as u8; }
            4 => for k in icc.iter_mut() { k.b[17] = k.b[17].wrapping_add(1) },
            5 => for k in icc.iter_mut() { k.b[16] = k.b[16].wrapping_sub(1) },
            6 => { let k = rng.below(icc.len()); icc[k].b[4] ^= 1; }
            7 => {
                // a chunk without data is too short to be one
                let k = rng.below(icc.len());
                icc[k].b.truncate(18);
                icc[k].b[3] = 16;
                icc[k].b[2] = 0;
            }
            _ => {}
        }
    }
    let together = rng.pc(50);
    let at = rng.pick(&(0..it.len()).filter(|&i| it[i].m != 0).collect::<Vec<_>>());
    if together {
        for (k, x) in icc.into_iter().enumerate() {
            it.insert(at + k, x);
        }
    } else {
        // spread, keeping the order
        let mut k = 0;
        for x in icc {
            let pos: Vec<usize> = (k..it.len() + 1).filter(|&i| i == it.len() || it[i].m != 0).collect();
            let q = pos[rng.below(pos.len().min(4))];
            it.insert(q, x);
            k = q + 1;
        }
    }
    for _ in 0..rng.below(4) {
        let l = rng.pick(&[0, 1, 5, 20, 200]);
        let d = rng.bytes(l);
        let x = match rng.below(9) {
            0 | 1 | 2 => app(1, b"Exif\0\0", &d),
            3 | 4 => app(1, b"http://ns.adobe.com/xap/1.0/\0", &d),
            5 => app(rng.pick(&[0, 2, 3, 13]), b"Exif\0\0", &d),
            6 => { let k = rng.below(6); app(1, &b"Exif\0\0"[..k], &d) }
            7 => app(rng.pick(&[1, 2]), b"http://ns.adobe.com/xap/1.0/", &d),
            _ => app(rng.pick(&[1, 2, 13]), &d, &[]),
        };
        insert(&mut it, x, rng);
    }
    if rng.pc(10) {
        let l = rng.pick(&[0usize, 300, 65500]);
        let d = rng.bytes(l.min(3000));
        insert(&mut it, app(1, b"Exif\0\0", &d), rng);
    }
    let b = assemble(&it, rng, 0, 0);
    let calls = match rng.below(5) {
        0 => vec![s("read_info"), s("decode")],
        1 => vec![s("scale 1 1"), s("decode")],
        _ => vec![s("decode")],
    };
    let mut h = hist("res,meta", b, calls);
    h.chunk = rng.pick(&["a", "a", "r3"]).to_string();
    h
}

fn p12(rng: &mut Rng) -> Hist {
    let p = any_plan(rng, 24, 8);
    let mut it = build(&p, rng);
    for m in meta_items(rng) {
        insert(&mut it, m, rng);
    }
    let mut b = assemble(&it, rng, 0, 0);
    let cut = rng.pc(20);
    if cut {
        // only the header is there
        let n = b.len();
        b.truncate(n - rng.below(n.min(40)));
    }
    let nc = p.img.comps.len();
    let mut calls = vec![];
    for _ in 0..rng.below(6) {
        calls.push(match rng.below(9) {
            0 | 1 | 2 => s("read_info"),
            3 | 4 => s("info"),
            5 | 6 => format!("scale {} {}", rng.below(p.img.w * 5 / 4 + 2), rng.below(p.img.h * 5 / 4 + 2)),
            7 => s(match nc { 3 => "set_ct RGB", 4 => "set_ct CMYK", _ => "set_ct Grayscale" }),
            _ => format!("set_limit {}", rng.pick(&[100000, p.img.w * p.img.h * nc * 2])),
        });
    }
    calls.push(s("decode"));
    if rng.pc(40) {
        calls.push(s("info"));
    }
    if rng.pc(15) {
        calls.push(s("read_info"));
    }
    let mut h = hist("res,info,px,pos", b, calls);
    h.chunk = rng.pick(&["a", "a", "1", "r3"]).to_string();
    h
}

fn p13(rng: &mut Rng) -> Hist {
    let mut c = Cfg::new();
    c.sof = vec![0, 0, 1, 2, 3];
    c.fac = 2;
    c.maxw = 50;
    c.maxh = 50;
    c.max_blocks = 40;
    c.restart = 5;
    let p = make_plan(rng, &c);
    let b = simple(&p, rng);
    let (w, h) = (p.img.w, p.img.h);
    let mut calls = plain_ct(rng, p.img.comps.len());
    let req = |rng: &mut Rng, d: usize| -> usize {
        match rng.below(8) {
            0 => 0,
            1 => 65535,
            2 => 1 + rng.below(d + 3),
            _ => {
                let k = rng.pick(&[8, 4, 2, 1]);
                let e = (d + k - 1) / k;
                (e as i64 + rng.range(-1, 1)).max(0) as usize
            }
        }
    };
    for _ in 0..1 + rng.below(2) {
        calls.push(format!("scale {} {}", req(rng, w), req(rng, h)));
    }
    if rng.pc(60) {
        calls.push(format!("scale {} {}", w.min(1 + (w - 1) / rng.pick(&[8, 4, 2, 2, 4])), 65535));
    }
    calls.push(s("decode"));
    hist("res,info,px", b, calls)
}

/// sizes and factors of the scale call alone, on headers of any size
fn p13h(rng: &mut Rng) -> Hist {
    let nc = rng.pick(&[1, 3, 4]);
    let f = factors(rng, nc, 2);
    let big = |rng: &mut Rng| match rng.below(4) {
        0 => 65535 - rng.below(20),
        1 => 1 + rng.below(65535),
        2 => 1 + rng.below(40),
        _ => 1 << rng.below(16),
    };
    let (w, h) = (big(rng), big(rng));
    let sof = rng.pick(&[0, 1, 2, 3]);
    let comps = (0..nc).map(|k| comp(k as u8 + 1, if sof == 3 { 1 } else { f[k].0 }, if sof == 3 { 1 } else { f[k].1 }, 0)).collect();
    let img = Img { sof, prec: 8, w, h, comps };
    let mut b = vec![0xFF, 0xD8];
    b.extend(sof_seg(&img));
    let mut calls = vec![];
    for _ in 0..1 + rng.below(3) {
        let r = |rng: &mut Rng, d: usize| {
            let k = rng.pick(&[8, 4, 2, 1]);
            let e = ((d + k - 1) / k) as i64 + rng.range(-1, 1);
            if rng.pc(70) { e.max(0).min(65535) as usize } else { rng.below(65536) }
        };
        calls.push(format!("scale {} {}", r(rng, w), r(rng, h)));
    }
    calls.push(s("info"));
    hist("res,info", b, calls)
}

fn p14(rng: &mut Rng) -> Hist {
    let mut c = Cfg::new();
    c.sof = vec![0, 0, 1, 2];
    c.fac = 2;
    c.maxw = 70;
    c.maxh = 70;
    c.max_blocks = 70;
    c.nc = vec![3, 3, 4];
    c.restart = 0;
    c.unitq = 100;
    c.content = rng.pick(&[0, 0, 2, 1]);
    c.late_tables = 0;
    let mut p = make_plan(rng, &c);
    if rng.pc(15) {
        // one pixel wide or high
        if rng.pc(50) { p.img.w = 1 } else { p.img.h = 1 }
    }
    if p.img.sof == 2 {
        p.scans.truncate(30);
    }
    p.img.layout();
    for k in 0..p.img.comps.len() {
        let q = p.qt[p.img.comps[k].tq];
        fill_blocks(rng, &mut p.img.comps[k], &q, c.content);
    }
    let b = simple(&p, rng);
    let mut calls = vec![s(if p.img.comps.len() == 3 { "set_ct RGB" } else { "set_ct CMYK" })];
    if rng.pc(20) {
        calls.push(format!("scale {} 65535", 1 + (p.img.w - 1) / rng.pick(&[2, 4, 8])));
    }
    calls.push(s("decode"));
    hist("res,px", b, calls)
}

/// any combination of factors in the header: accepted or refused?
fn p14h(rng: &mut Rng) -> Hist {
    let nc = rng.pick(&[1, 3, 3, 4]);
    let mut d = || match rng.below(4) { 0 => 1, 1 => 2, _ => 1 + rng.below(70) };
    let (w, h) = (d(), d());
    let comps = (0..nc).map(|k| comp(k as u8 + 1, 1 + rng.below(4), 1 + rng.below(4), 0)).collect();
    let img = Img { sof: rng.pick(&[0, 1, 2]), prec: 8, w, h, comps };
    let mut b = vec![0xFF, 0xD8];
    b.extend(sof_seg(&img));
    let calls = if rng.pc(50) { vec![s("read_info")] } else { vec![format!("scale {} {}", rng.below(70), rng.below(70)), s("info")] };
    hist("res,info", b, calls)
}

fn p15(rng: &mut Rng) -> Hist {
    let mut c = Cfg::new();
    c.sof = vec![0, 1, 2];
    c.fac = if rng.pc(80) { 0 } else { 1 };
    c.nc = vec![1, 3, 3, 3, 4, 4];
    c.maxw = 24;
    c.maxh = 16;
    c.max_blocks = 18;
    c.restart = 0;
    c.content = rng.pick(&[0, 0, 2]);
    c.unitq = 100;
    c.late_tables = 0;
    let mut p = make_plan(rng, &c);
    let nc = p.img.comps.len();
    let idset: Vec<u8> = match rng.below(8) {
        0 | 1 => vec![1, 2, 3, 4],
        2 => vec![82, 71, 66, 75],
        3 => vec![114, 103, 98, 107],
        4 => vec![1, 34, 35, 36],
        5 => vec![0, 1, 2, 3],
        6 => { let mut v = vec![1, 2, 3, 4]; rng.shuffle(&mut v); v }
        _ => vec![82, 71, 98, 1],
    };
    for k in 0..nc {
        p.img.comps[k].id = idset[k];
    }
    let mut it = build(&p, rng);
    if rng.pc(35) {
        insert(&mut it, jfif(), rng);
    }
    for _ in 0..rng.pick(&[0, 0, 1, 1, 2]) {
        insert(&mut it, adobe(rng.below(3) as u8), rng);
    }
    if rng.pc(20) {
        insert(&mut it, match rng.below(4) {
            0 => app(14, b"Adobe\0", &[100, 0, 0, 0, 0]),
            1 => app(13, b"Adobe\0", &[100, 0, 0, 0, 0, 0]),
            2 => app(0, b"JFXX\0", &[0x10]),
            _ => app(1, b"JFIF\0", &[1, 2, 0]),
        }, rng);
    }
    let b = assemble(&it, rng, 0, 0);
    let mut calls = vec![];
    let n = rng.pick(&[0, 0, 0, 1, 1, 2]);
    for _ in 0..n {
        calls.push(format!("set_ct {}", rng.pick(&CTS)));
    }
    if rng.pc(25) {
        let k = rng.below(calls.len() + 1);
        calls.insert(k, s("read_info"));
    }
    calls.push(s("decode"));
    hist("res,px", b, calls)
}

fn p16(rng: &mut Rng) -> Hist {
    let mut c = Cfg::new();
    c.sof = vec![3];
    c.nc = vec![1, 1, 3, 4];
    c.maxw = rng.pick(&[7, 7, 30]);
    c.maxh = rng.pick(&[7, 7, 20]);
    c.max_blocks = 60;
    c.restart = 40;
    let p = make_plan(rng, &c);
    let b = simple(&p, rng);
    let mut calls = vec![];
    if rng.pc(10) {
        calls.push(format!("set_ct {}", rng.pick(&CTS)));
    }
    if rng.pc(10) {
        calls.push(format!("scale {} {}", 1 + rng.below(9), 1 + rng.below(9)));
    }
    calls.push(s("decode"));
    hist("res,px", b, calls)
}

fn p17(rng: &mut Rng) -> Hist {
    let mut c = Cfg::new();
    c.sof = vec![0, 1, 2, 2, 3];
    c.nc = vec![1, 3, 3, 4];
    c.fac = 2;
    c.content = rng.pick(&[0, 0, 1]);
    c.restart = 20;
    let wide = rng.pc(85);
    c.maxw = if wide { 330 } else { 60 };
    c.maxh = rng.pick(&[8, 24, 70]);
    c.max_blocks = 330;
    c.late_tables = 5;
    let mut p;
    loop {
        p = make_plan(rng, &c);
        if !wide || p.img.w > 128 {
            break;
        }
    }
    if p.img.sof == 2 && rng.pc(25) && p.scans.len() > 1 {
        let keep = 1 + rng.below(p.scans.len() - 1);
        p.scans.truncate(keep);
        p.ris.truncate(keep);
    }
    let mut it = build(&p, rng);
    if rng.pc(20) {
        mutate_items(&mut it, rng);
    }
    let mut b = assemble(&it, rng, 0, 0);
    if rng.pc(20) {
        // an error while the workers are busy
        let n = b.len();
        b.truncate(n * 2 / 3 + rng.below(n / 3));
    } else if rng.pc(10) {
        mutate_bytes(&mut b, rng);
    }
    let mut calls = plain_ct(rng, p.img.comps.len());
    if rng.pc(10) {
        calls.push(s("read_info"));
    }
    calls.push(s("decode"));
    hist("res,cfg", b, calls)
}

fn p18(rng: &mut Rng) -> Hist {
    let p = any_plan(rng, 24, 6);
    let b = simple(&p, rng);
    let nc = p.img.comps.len();
    let mut calls = vec![];
    let mut k = 8;
    if rng.pc(40) {
        // scaling first, so that the limit is about the scaled size
        let f = rng.pick(&[1, 2, 4, 8]);
        if p.img.sof != 3 {
            k = f;
        }
        let (w, h) = ((p.img.w * f + 7) / 8, (p.img.h * f + 7) / 8);
        calls.push(format!("scale {} {}", w, if rng.pc(50) { h } else { 65535 }));
    }
    let px = (p.img.w * k + 7) / 8 * ((p.img.h * k + 7) / 8);
    let bps = if p.img.prec > 8 { 2 } else { 1 };
    let n = px * nc * bps;
    let lim = match rng.below(12) {
        0 => 0,
        1 => px,
        2 => px * nc,
        3 => px * nc * 2,
        4 => p.img.w * p.img.h * nc,
        5 => 2147483647,
        6 | 7 => n.saturating_sub(1),
        8 => n + 1,
        9 => rng.below(2 * n + 2),
        _ => n,
    };
    let at = rng.below(calls.len() + 1);
    if rng.pc(90) {
        calls.insert(at, format!("set_limit {}", lim));
    }
    if rng.pc(15) {
        calls.insert(0, format!("set_limit {}", rng.below(5)));
    }
    calls.push(s("decode"));
    hist("res,px", b, calls)
}

fn p19(rng: &mut Rng) -> Hist {
    let mut c = Cfg::new();
    c.sof = vec![0, 0, 1, 2, 3];
    c.nc = vec![1, 3, 3, 3, 4];
    c.fac = if rng.pc(60) { 1 } else { 2 };
    c.maxw = 70;
    c.maxh = 20;
    c.max_blocks = 50;
    c.content = rng.pick(&[1, 2, 2, 9]);
    c.restart = 5;
    let mut p = make_plan(rng, &c);
    p.scans.truncate(40);
    let mut it = build(&p, rng);
    for m in meta_items(rng) {
        insert(&mut it, m, rng);
    }
    if rng.pc(25) {
        mutate_items(&mut it, rng);
    }
    let mut b = assemble(&it, rng, 0, 0);
    if rng.pc(5) {
        mutate_bytes(&mut b, rng);
    }
    let mut calls = if rng.pc(60) { vec![] } else { plain_ct(rng, p.img.comps.len()) };
    if rng.pc(20) {
        calls.push(format!("scale {} 65535", 1 + (p.img.w - 1) / rng.pick(&[1, 2, 4, 8])));
    }
    calls.push(s("decode"));
    hist("res,px,cfg,info", b, calls)
}

fn p02(rng: &mut Rng) -> Hist {
    let mut p = any_plan(rng, 40, 24);
    if p.img.sof == 2 && rng.pc(30) && p.scans.len() > 1 {
        let keep = 1 + rng.below(p.scans.len() - 1);
        p.scans.truncate(keep);
        p.ris.truncate(keep);
    }
    let mut it = build(&p, rng);
    for m in meta_items(rng) {
        insert(&mut it, m, rng);
    }
    if rng.pc(10) {
        mutate_items(&mut it, rng);
    }
    let b = assemble(&it, rng, 0, 0);
    let mut calls = vec![];
    if rng.pc(30) {
        calls.push(format!("set_ct {}", rng.pick(&["None", "None", "RGB", "CMYK", "YCbCr"])));
    }
    if rng.pc(35) {
        calls.push(format!("scale {} {}", rng.below(p.img.w + 2), rng.below(p.img.h + 2)));
    }
    calls.push(s("decode"));
    hist("size,info", b, calls)
}

fn p01(rng: &mut Rng) -> Hist {
    let mut c = Cfg::new();
    c.sof = vec![0, 1, 2, 2, 3];
    c.fac = 2;
    c.maxw = if rng.pc(10) { 200 } else { 40 };
    c.maxh = if rng.pc(10) { 200 } else { 40 };
    c.max_blocks = 40;
    c.restart = 30;
    c.content = rng.pick(&[0, 1, 3, 9]);
    let mut p = make_plan(rng, &c);
    if rng.pc(20) {
        // wild coefficients
        for q in p.qt.iter_mut() {
            *q = [65535; 64];
        }
    }
    let mut it = build(&p, rng);
    for m in meta_items(rng) {
        insert(&mut it, m, rng);
    }
    for _ in 0..rng.pick(&[0, 0, 1, 1, 2, 4]) {
        mutate_items(&mut it, rng);
    }
    let (f, st) = (rng.pick(&[0, 0, 20]), rng.pick(&[0, 0, 20]));
    let mut b = assemble(&it, rng, f, st);
    for _ in 0..rng.pick(&[0, 0, 1, 1, 3]) {
        mutate_bytes(&mut b, rng);
    }
    match rng.below(8) {
        0 => { let n = b.len(); b.truncate(rng.below(n + 1)) }
        1 => {
            // splice
            let n = b.len();
            let (x, y) = (rng.below(n), rng.below(n));
            let tail = b[y..].to_vec();
            b.truncate(x);
            b.extend(tail);
        }
        2 if rng.pc(30) => { let n = rng.below(60); b = rng.bytes(n); if rng.pc(80) { b.splice(0..0, [0xFF, 0xD8]); } }
        _ => {}
    }
    let mut calls = vec![];
    for _ in 0..1 + rng.below(4) {
        calls.push(match rng.below(10) {
            0 | 1 => s("read_info"),
            2 => s("info"),
            3 | 4 => { let r = |rng: &mut Rng| rng.pick(&[0, 1, 5, 65535, 30]); format!("scale {} {}", r(rng), r(rng)) }
            5 => format!("set_ct {}", rng.pick(&CTS)),
            6 => format!("set_limit {}", rng.pick(&[0, 10, 100000])),
            _ => s("decode"),
        });
    }
    calls.push(s("decode"));
    if rng.pc(30) {
        calls.push(s("decode"));
        calls.push(s("info"));
    }
    let mut h = hist("ret", b, calls);
    if rng.pc(30) {
        h.end = rng.pick(&KINDS).0.to_string();
    }
    h.chunk = rng.pick(&["a", "a", "a", "1", "r9", "i5"]).to_string();
    h
}

/// keep decode away from images the sandbox has no memory or the model no time for
fn guard(mut h: Hist) -> Hist {
    if let Some((w, h2, _)) = dims(&h.bytes) {
        if w * h2 > 60_000 {
            for c in h.calls.iter_mut() {
                if c == "decode" {
                    *c = "read_info".into();
                }
            }
        }
    }
    h
}

pub fn histories(prof: &str, seed: u64, n: usize) -> Vec<Hist> {
    let mut out: Vec<Hist> = vec![];
    let mut i = 0u64;
    let tag = prof.bytes().fold(0u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64));
    while out.len() < n {
        let mut rng = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(i).wrapping_add(tag << 32));
        let hs: Vec<Hist> = match prof {
            "P01" => vec![p01(&mut rng)],
            "P02" => vec![p02(&mut rng)],
            "P03" => vec![p03(&mut rng)],
            "P04" => vec![p04(&mut rng)],
            "P05" => vec![p05(&mut rng)],
            "P06" => vec![p06(&mut rng)],
            "P07" => vec![p07(&mut rng)],
            "P08" => vec![if rng.pc(25) { p08m(&mut rng) } else { p08(&mut rng) }],
            "P09" => p09(&mut rng),
            "P10" => vec![p10(&mut rng)],
            "P11" => vec![p11(&mut rng)],
            "P12" => vec![p12(&mut rng)],
            "P13" => vec![if rng.pc(40) { p13h(&mut rng) } else { p13(&mut rng) }],
            "P14" => vec![if rng.pc(25) { p14h(&mut rng) } else { p14(&mut rng) }],
            "P15" => vec![p15(&mut rng)],
            "P16" => vec![p16(&mut rng)],
            "P17" => vec![p17(&mut rng)],
            "P18" => vec![p18(&mut rng)],
            "P19" => vec![p19(&mut rng)],
            _ => panic!("unknown profile"),
        };
        for h in hs {
            let mut h = guard(h);
            h.id = format!("{}-{}-{}", prof, seed, out.len());
            out.push(h);
        }
        i += 1;
    }
    out.truncate(n);
    out
}
