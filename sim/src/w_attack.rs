//! Attacker world: damaged, forged and hostile bytes reach nodes of every build. C01, C02.
use crate::engine::{bad, Ctx, Res, V};
use crate::gen;
use crate::model::{self, Comp, Enc, Msg, Rr, Sp, F};
use crate::pk::Fl;
use crate::tape::{dict, Tape};
use crate::{full, plain, rt};

/// What a forger can put where.
pub fn forge(g: &mut Tape, c: &mut crate::engine::Tally) -> Vec<u8> {
    match g.below(20) {
        0..=10 => {
            let m = base(g);
            let comp = g.pick(&[Comp::None, Comp::Std, Comp::Wild, Comp::Wild]);
            let (mut out, spans) = {
                let mut e = Enc::new(comp, Some(g));
                e.msg(&m);
                (e.out, e.spans)
            };
            let k = match g.below(8) {
                0..=4 => 1,
                5 | 6 => 2,
                _ => 1 + g.idx(6),
            };
            for _ in 0..k {
                damage(g, &mut out, &spans, c);
            }
            out
        }
        11..=13 => bomb(g, c),
        14 => {
            c.count("fault random bytes");
            let n = g.len(600);
            let mut v = g.bytes(n);
            if v.len() >= 12 && g.pct(70) {
                // a plausible header
                let rc = g.below(16) as u8;
                v[3] = v[3] & 0xf0 | rc;
                for i in 0..4 {
                    v[4 + 2 * i] = 0;
                    v[5 + 2 * i] = g.below(4) as u8;
                }
            }
            v
        }
        15 | 16 => {
            c.count("fault spliced from two messages");
            let (a, b) = (base(g), base(g));
            let a = model::encode(&a, Comp::Wild, Some(g));
            let b = model::encode(&b, Comp::Wild, Some(g));
            let (i, j) = (g.idx(a.len() + 1), g.idx(b.len() + 1));
            let mut v = a[..i].to_vec();
            v.extend_from_slice(&b[j..]);
            v
        }
        17 => odd_record(g, c),
        _ => hostile_crypto(g, c),
    }
}

/// One record whose data is pieced together from interesting octets, runs and genuine parts.
fn odd_record(g: &mut Tape, c: &mut crate::engine::Tally) -> Vec<u8> {
    c.count("fault pieced-together record data");
    let mut v = vec![0u8; 12];
    v[7] = 1;
    v.extend_from_slice(g.pick(&[&[0u8][..], &[1, b'a', 0], &[63, 0xff]]));
    if v.len() == 14 {
        v.extend(std::iter::repeat(0xff).take(62));
        v.push(0);
    }
    let mut cfg = gen::cfg(g, true, true);
    let t = if g.pct(20) { g.pick(&[47u16, 62]) } else { model::TYPES[g.idx(model::TYPES.len())].0 };
    v.extend(t.to_be_bytes());
    v.extend([0, 1, 0, 0, 0, 0, 0, 0]);
    let s = v.len();
    if matches!(t, 47 | 62) && g.pct(70) {
        v.extend_from_slice(if t == 47 { &[0u8][..] } else { &[0, 0, 0, 1, 0, 3] });
        for _ in 0..1 + g.idx(3) {
            let num = g.pick(&[0u8, 0, 1, 2, 127, 128, 254, 255]);
            let l = g.pick(&[0u8, 1, 2, 31, 32, 33, 34, 64, 255]);
            v.extend([num, l]);
            let at = v.len();
            v.extend(std::iter::repeat(0).take(l as usize));
            for _ in 0..g.idx(3) {
                if l > 0 {
                    let i = if g.pct(60) { l as usize - 1 } else { g.idx(l as usize) };
                    v[at + i] |= 1 << g.below(8);
                }
            }
        }
    } else {
        let f = gen::rdata(g, &mut cfg, t);
        let whole = model::encode_rdata(t, &f);
        let mut from = 0;
        for _ in 0..1 + g.idx(10) {
            match g.below(4) {
                0 | 1 => {
                    // go on with the genuine data
                    let n = g.idx(whole.len() - from.min(whole.len()) + 1).min(if g.pct(50) { 4 } else { 400 });
                    v.extend_from_slice(&whole[from..from + n]);
                    from += n;
                }
                2 => v.push(g.pick(&[0u8, 1, 2, 3, 4, 5, 6, 7, 16, 20, 32, 33, 63, 64, 127, 128, 191, 192, 253, 254, 255])),
                _ => {
                    let b = g.pick(&[0u8, 1, 0x40, 0x61, 0x80, 0xc0, 0xff]);
                    let n = g.pick(&[2usize, 3, 4, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 255, 256]);
                    v.extend(std::iter::repeat(b).take(n));
                }
            }
            if g.pct(15) {
                from = (from + 1).min(whole.len());
            }
        }
        if g.pct(50) {
            v.extend_from_slice(&whole[from..]);
        }
    }
    let l = v.len() - s;
    let l = if g.pct(8) { l.saturating_sub(1 + g.idx(4)) } else { l };
    put(&mut v, s - 2, 2, l as u64);
    v
}

fn base(g: &mut Tape) -> Msg {
    let mut cfg = gen::cfg(g, true, true);
    cfg.max_rr = cfg.max_rr.min(6);
    cfg.max_blob = cfg.max_blob.min(300);
    gen::msg(g, &mut cfg)
}

fn put(v: &mut [u8], at: usize, len: usize, x: u64) {
    for i in 0..len {
        if at + i < v.len() {
            v[at + i] = (x >> (8 * (len - 1 - i))) as u8;
        }
    }
}

pub fn damage(g: &mut Tape, v: &mut Vec<u8>, spans: &[(usize, usize, Sp)], c: &mut crate::engine::Tally) {
    if v.is_empty() {
        return;
    }
    match g.below(16) {
        0..=7 if !spans.is_empty() => {
            // one field of the message gets another value
            let want = g.below(14);
            let cand: Vec<usize> = (0..spans.len())
                .filter(|i| match want {
                    0 | 1 => spans[*i].2 == Sp::RdLen,
                    2 | 3 => spans[*i].2 == Sp::InLen,
                    4 => spans[*i].2 == Sp::LabelLen,
                    5 => spans[*i].2 == Sp::Ptr,
                    6 => spans[*i].2 == Sp::Count,
                    7 => spans[*i].2 == Sp::Type,
                    8 => spans[*i].2 == Sp::Int,
                    9 => spans[*i].2 == Sp::Flags,
                    10 => spans[*i].2 == Sp::Data || spans[*i].2 == Sp::Label,
                    _ => true,
                })
                .collect();
            let i = if cand.is_empty() { g.idx(spans.len()) } else { cand[g.idx(cand.len())] };
            let (at, len, sp) = spans[i];
            if at + len > v.len() {
                return;
            }
            let old = v[at..at + len.min(8)].iter().fold(0u64, |a, b| a << 8 | *b as u64);
            let max = if len >= 8 { u64::MAX } else { (1u64 << (8 * len)) - 1 };
            let rest = (v.len() - at - len) as u64;
            let x = match sp {
                Sp::Ptr => {
                    c.count("fault forged compression pointer");
                    let here = at as u64;
                    0xC000
                        | match g.below(6) {
                            0 => here,
                            1 => here + 2,
                            2 => here.wrapping_sub(1 + g.below(8)),
                            3 => rest + here,
                            4 => g.below(0x4000),
                            _ => g.below(v.len() as u64 + 1),
                        } & 0x3fff
                }
                Sp::LabelLen => {
                    c.count("fault forged label length");
                    match g.below(6) {
                        0 => 0,
                        1 => 63,
                        2 => 64 + g.below(128),
                        3 => 0xC0 | g.below(64),
                        4 => old + 1,
                        _ => old.wrapping_sub(1) & 255,
                    }
                }
                Sp::Count => {
                    c.count("fault forged count");
                    match g.below(4) {
                        0 => old + 1,
                        1 => 0xffff,
                        2 => old.saturating_sub(1),
                        _ => g.num(0xffff),
                    }
                }
                Sp::RdLen | Sp::InLen => {
                    c.count("fault forged length");
                    match g.below(8) {
                        0 => 0,
                        1 => old + 1,
                        2 => old.saturating_sub(1),
                        3 => max,
                        4 => rest,
                        5 => rest + 1,
                        6 => g.below(old + 2),
                        _ => g.num(max),
                    }
                }
                Sp::Type => {
                    c.count("fault forged type");
                    if g.pct(80) {
                        model::TYPES[g.idx(model::TYPES.len())].0 as u64
                    } else {
                        g.num(max)
                    }
                }
                Sp::Data | Sp::Label => {
                    c.count("fault damaged data");
                    let k = at + g.idx(len);
                    v[k] = g.pick(&[0xff, 0xc0, 0x80, 0, 0xf5, 0x2e]);
                    return;
                }
                _ => {
                    c.count("fault forged number");
                    g.num(max)
                }
            };
            put(v, at, len, x & max);
        }
        8 | 9 => {
            c.count("fault bits flipped");
            let k = 1 + g.idx(4);
            for _ in 0..k {
                let i = g.idx(v.len());
                v[i] ^= 1 << g.below(8);
            }
        }
        10 => {
            c.count("fault byte replaced");
            let i = g.idx(v.len());
            v[i] = g.pick(&[0, 1, 0x3f, 0x40, 0x7f, 0x80, 0xc0, 0xff, 0xfe]);
        }
        11 => {
            c.count("fault cut off");
            let n = g.idx(v.len() + 1);
            v.truncate(n);
        }
        12 => {
            c.count("fault bytes removed");
            let i = g.idx(v.len());
            let n = (1 + g.len(20)).min(v.len() - i);
            v.drain(i..i + n);
        }
        13 => {
            c.count("fault bytes inserted");
            let i = g.idx(v.len() + 1);
            let n = 1 + g.len(20);
            let b = g.bytes(n);
            v.splice(i..i, b);
        }
        14 => {
            c.count("fault bytes repeated");
            let i = g.idx(v.len());
            let n = (1 + g.len(80)).min(v.len() - i);
            let b = v[i..i + n].to_vec();
            v.splice(i..i, b);
        }
        _ => {
            c.count("fault bytes appended");
            let n = 1 + g.len(40);
            let b = g.bytes(n);
            v.extend(b);
        }
    }
}

/// Messages made to be expensive: long names reached through pointers, pointer chains and loops,
/// counts without content, nested lengths.
/// A small message that is true up to some point and announces far more than it holds.
fn liar(g: &mut Tape, c: &mut crate::engine::Tally) -> Vec<u8> {
    c.count("fault small message announcing too much");
    let mut cfg = gen::cfg(g, true, true);
    cfg.max_q = 2;
    cfg.max_rr = 3;
    cfg.max_blob = 40;
    let m = gen::msg(g, &mut cfg);
    let comp = g.pick(&[Comp::None, Comp::Std, Comp::Wild]);
    let (mut v, spans) = {
        let mut e = Enc::new(comp, Some(g));
        e.msg(&m);
        (e.out, e.spans)
    };
    let lens: Vec<_> = spans.iter().filter(|x| matches!(x.2, Sp::Count | Sp::RdLen | Sp::InLen)).collect();
    for _ in 0..1 + g.idx(3) {
        let (at, len, sp) = *lens[if g.pct(60) { g.idx(4).min(lens.len() - 1) } else { g.idx(lens.len()) }];
        let max = (1u64 << (8 * len.min(4))) - 1;
        let x = match g.below(4) {
            0 | 1 => max,
            2 => max - g.below(max / 2 + 1),
            _ => max / 2 + 1,
        };
        if sp == Sp::Count || g.pct(50) {
            put(&mut v, at, len, x);
        }
    }
    match g.below(4) {
        0 => {
            let n = g.idx(v.len() + 1);
            v.truncate(n);
        }
        1 => {
            let n = g.len(300);
            let z = g.bytes(n);
            v.extend(z);
        }
        _ => (),
    }
    v
}

/// A message whose names are assembled over several pointers, with lengths around the limit.
fn chained(g: &mut Tape, c: &mut crate::engine::Tally) -> Vec<u8> {
    c.count("fault name assembled over pointers");
    let mut v = vec![0u8; 12];
    // label starts with the length of the name from there
    let mut at: Vec<(usize, usize)> = Vec::new();
    let ones = g.pct(25);
    let mut name = |g: &mut Tape, v: &mut Vec<u8>, want: usize| {
        let (to, have) = if at.is_empty() || g.pct(10) {
            (None, 1)
        } else {
            let (o, l) = at[if g.pct(50) { at.len() - 1 } else { g.idx(at.len()) }];
            (Some(o), l)
        };
        let mut left = want.saturating_sub(have);
        let mut mine = Vec::new();
        while left >= 2 && mine.len() < 140 {
            let mut l = if ones { 1 } else { g.pick(&[1usize, 2, 5, 30, 63, 63, 62]).min(left - 1) };
            if !ones && left - l - 1 == 1 {
                l = if l > 1 { l - 1 } else { 2.min(left - 1) };
            }
            mine.push((v.len(), left + have));
            v.push(l as u8);
            v.extend(std::iter::repeat(b'a' + g.below(3) as u8).take(l));
            left = left.saturating_sub(l + 1);
        }
        at.extend(mine);
        match to {
            Some(o) => v.extend((0xC000u16 | o as u16).to_be_bytes()),
            None => v.push(0),
        }
    };
    let want = |g: &mut Tape| match g.below(4) {
        0 => 254 + g.idx(4),
        1 => 256 + g.idx(200),
        _ => 2 + g.idx(253),
    };
    let qd = g.idx(4);
    put(&mut v, 4, 2, qd as u64);
    for _ in 0..qd {
        let w = want(g);
        name(g, &mut v, w);
        v.extend([0, 1, 0, 1]);
    }
    let an = 1 + g.idx(4);
    put(&mut v, 6, 2, an as u64);
    for _ in 0..an {
        let w = want(g);
        name(g, &mut v, w);
        let t = g.pick(&[2u16, 5, 6, 12, 14, 15, 33, 35, 45, 46, 47, 55, 64, 249, 250, 10]);
        v.extend(t.to_be_bytes());
        v.extend([0, 1, 0, 0, 0, 0, 0, 0]);
        let s = v.len();
        v.extend(match t {
            15 | 64 => &[0u8, 1][..],
            33 => &[0; 6],
            35 => &[0; 7],
            45 => &[1, 3, 1],
            46 => &[0, 1, 8, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
            55 => &[0, 2, 0, 0],
            _ => &[],
        });
        let n = match t {
            10 => 0,
            6 | 14 => 2,
            55 => g.idx(4),
            _ => 1,
        };
        for _ in 0..n {
            let w = want(g);
            name(g, &mut v, w);
        }
        v.extend(match t {
            6 => &[0u8; 20][..],
            249 => &[0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0],
            250 => &[0; 16],
            45 | 46 => &[7, 7, 7],
            _ => &[],
        });
        let l = v.len() - s;
        put(&mut v, s - 2, 2, l as u64);
    }
    v
}

/// Names that lead into octets which are no names: the header, and the data of opaque records that
/// hold pointers to themselves, to each other, onwards, or to the name that led there.
fn hidden(g: &mut Tape, c: &mut crate::engine::Tally) -> Vec<u8> {
    c.count("fault pointer into other octets");
    let mut v = vec![0u8; 12];
    let ptr = |t: usize| (0xC000u16 | (t as u16 & 0x3fff)).to_be_bytes();
    if g.pct(60) {
        let id = ptr(g.pick(&[0usize, 0, 2, 12, 1, 24, 40]));
        v[..2].copy_from_slice(&id);
    }
    if g.pct(20) {
        let f = ptr(g.pick(&[0usize, 2, 12]));
        v[2..4].copy_from_slice(&f);
    }
    let pad = g.pct(15);
    let n = 2 + g.idx(5);
    put(&mut v, 6, 2, n as u64);
    let mut spots = vec![0usize, 0, 2];
    for i in 0..n {
        let own = v.len();
        if i > 0 && g.pct(60) {
            if g.pct(40) {
                v.extend([1, b'a']);
            }
            let t = spots[g.idx(spots.len())];
            v.extend(ptr(t));
        } else {
            v.push(0);
        }
        let t = g.pick(&[10u16, 10, 10, 2, 16, 33, 55]);
        v.extend(t.to_be_bytes());
        v.extend([0, 1, 0, 0, 0, 0, 0, 0]);
        let s = v.len();
        match t {
            2 | 33 | 55 => {
                v.extend(match t {
                    33 => &[0u8; 6][..],
                    55 => &[0, 2, 0, 0],
                    _ => &[],
                });
                let t = spots[g.idx(spots.len())];
                v.extend(ptr(t));
            }
            _ => {
                if pad {
                    v.extend(std::iter::repeat(t as u8 & 0).take(g.idx(9000)));
                }
                for _ in 0..1 + g.idx(8) {
                    if t == 16 {
                        v.push(2);
                    }
                    let here = v.len();
                    spots.push(here);
                    let to = match g.below(7) {
                        0 => here,
                        1 => here + 2,
                        2 => here.saturating_sub(2),
                        3 => own,
                        4 => here + 1,
                        5 => s,
                        _ => spots[g.idx(spots.len())],
                    };
                    if t != 16 && g.pct(30) {
                        v.extend([1, b'b']);
                    }
                    v.extend(ptr(to));
                }
            }
        }
        let l = v.len() - s;
        put(&mut v, s - 2, 2, l as u64);
    }
    v
}

pub fn bomb(g: &mut Tape, c: &mut crate::engine::Tally) -> Vec<u8> {
    match g.below(20) {
        0..=4 => return liar(g, c),
        5..=8 => return chained(g, c),
        9 => return hidden(g, c),
        _ => (),
    }
    c.count("fault amplification message");
    let size = match g.below(6) {
        0 => 65_535,
        1 => 20_000,
        2 => 4_000,
        _ => 200 + g.idx(1500),
    };
    let mut v = vec![0u8; 12];
    let qd = g.pick(&[0u64, 1, 3, 0xffff]);
    put(&mut v, 4, 2, qd);
    let mut counts = [g.pick(&[0u64, 1, 0xffff]), g.pick(&[0, 1, 0xffff]), g.pick(&[0, 0xffff])];
    // a long name to point at
    let start = v.len();
    let lab = g.pick(&[1usize, 1, 2, 31, 63]);
    let labels = g.pick(&[127usize, 126, 128, 64, 4, 250]);
    for _ in 0..labels {
        if v.len() - start + lab + 1 > g.pick(&[254usize, 254, 255, 300]) {
            break;
        }
        v.push(lab as u8);
        v.extend(std::iter::repeat(b'x').take(lab));
    }
    let style = g.below(8);
    match style {
        0 => {
            // loop on itself
            let t = g.pick(&[start, v.len(), v.len() + 2, start + 1]);
            v.extend((0xC000u16 | (t as u16 & 0x3fff)).to_be_bytes());
        }
        1 => {
            // two names pointing at each other
            let t = v.len() + 2 + 5;
            v.extend((0xC000u16 | t as u16).to_be_bytes());
            v.extend([0, 1, 0, 1, 1]);
            v.extend((0xC000u16 | start as u16).to_be_bytes());
        }
        _ => v.push(0),
    }
    v.extend([0, 1, 0, 1]);
    if qd == 0 {
        // the name is the owner of a record instead
        let n = v.len();
        put(&mut v, n - 4, 2, 10);
        v.extend([0, 0, 0, 0, 0, 0]);
        counts[0] = counts[0].max(1);
    }
    let mut prev = start;
    let rtype = g.pick(&[2u64, 55, 6, 14, 10, 47, 64, 41, 16, 5, 250, 35, 42, 62, 64, 16, 12, 15, 33, 45, 46, 249]);
    let chain = g.pct(40);
    let mut k = 0u32;
    while v.len() < size {
        let here = v.len();
        let ptr = |t: usize| (0xC000u16 | (t as u16 & 0x3fff)).to_be_bytes();
        let target = if chain && prev < 0x3fff { prev } else { start + if g.pct(10) { g.idx(20) } else { 0 } };
        v.extend(ptr(target));
        prev = here;
        if k < qd as u32 {
            v.extend([0, 1, 0, 1]);
            k += 1;
            continue;
        }
        v.extend((rtype as u16).to_be_bytes());
        v.extend([0, 1, 0, 0, 0, 0]);
        let lenpos = v.len();
        v.extend([0, 0]);
        match rtype {
            2 | 5 | 12 => v.extend(ptr(start)),
            15 | 33 | 45 | 46 | 249 | 250 if g.pct(80) => {
                v.extend(match rtype {
                    15 => &[0u8, 1][..],
                    33 => &[0; 6],
                    45 => &[1, 3, 1],
                    46 => &[0, 1, 8, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
                    _ => &[],
                });
                v.extend(ptr(start));
                v.extend(match rtype {
                    249 => &[0u8, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0][..],
                    250 => &[0; 16],
                    45 | 46 => &[7, 7],
                    _ => &[],
                });
            }
            6 => {
                v.extend(ptr(start));
                v.extend(ptr(start));
                v.extend([0; 20]);
            }
            14 => {
                v.extend(ptr(start));
                v.extend(ptr(start));
            }
            55 => {
                v.extend([0, 2, 0, 0]);
                while v.len() + 2 < size && v.len() - lenpos < 60_000 {
                    v.extend(ptr(start));
                }
            }
            47 | 62 => {
                if rtype == 47 {
                    v.extend(ptr(start));
                } else {
                    v.extend([0, 0, 0, 1, 0, 0]);
                }
                let few = g.pct(50);
                let w = if few { 1 + g.below(4) } else { g.below(257) };
                let l = g.pick(&[0u8, 1, 32, 33, 255]);
                for i in 0..w {
                    let num = if few { g.pick(&[0u8, 1, 2, 127, 254, 255]) } else { i as u8 };
                    let l = if few { g.pick(&[0u8, 1, 31, 32, 33, 34, 64, 255]) } else { l };
                    v.extend([num, l]);
                    let at = v.len();
                    v.extend(std::iter::repeat(0).take(l as usize));
                    if l > 0 && num == 0 {
                        v[at] = 0x40;
                    }
                    if l > 0 && few && g.pct(50) {
                        let n = v.len();
                        v[n - 1] = g.pick(&[1u8, 0x80, 0x40, 0xff]);
                    }
                }
            }
            64 => {
                v.extend([0, 1]);
                v.extend(ptr(start));
                if g.pct(40) {
                    // as many parameters as fit, each as short as it can be
                    let n = size.saturating_sub(v.len()).min(65_000) / 4;
                    let from = g.pick(&[7u16, 100, 65280]);
                    let max = (65_535 - from) as usize + 1;
                    if n > max || g.pct(30) {
                        let key = g.pick(&[2u16, 65280, 65535]);
                        for _ in 0..n {
                            v.extend(key.to_be_bytes());
                            v.extend([0, 0]);
                        }
                    } else {
                        for i in 0..n {
                            v.extend((from + i as u16).to_be_bytes());
                            v.extend([0, 0]);
                        }
                    }
                }
                let n = g.idx(200);
                for i in 0..n {
                    v.extend((i as u16).to_be_bytes());
                    v.extend(g.pick(&[[0u8, 0], [0, 2], [0, 1], [255, 255]]));
                    if g.pct(50) {
                        v.extend([0, 9]);
                    }
                }
            }
            41 => {
                let most = size.saturating_sub(v.len()).min(65_000) / 4;
                let n = if g.pct(50) { most } else { g.idx(3000) };
                for i in 0..n {
                    v.extend((i as u16).to_be_bytes());
                    v.extend([0, 0]);
                }
            }
            16 => {
                let most = size.saturating_sub(v.len()).min(65_000);
                let n = if g.pct(50) { most } else { g.idx(5000) };
                let b = g.pick(&[0u8, 0, 1]);
                v.extend(std::iter::repeat(b).take(n));
            }
            _ => v.extend(g.bytes(8)),
        }
        let l = v.len() - lenpos - 2;
        put(&mut v, lenpos, 2, l as u64);
        if g.pct(2) {
            put(&mut v, lenpos, 2, 0xffff);
        }
    }
    for i in 0..3 {
        let x = counts[i];
        put(&mut v, 6 + 2 * i, 2, x);
    }
    v.truncate(65_535);
    v
}

fn hostile_key(g: &mut Tape, alg: u64) -> Vec<u8> {
    let fill = |g: &mut Tape, n: usize| -> Vec<u8> {
        match g.below(4) {
            0 => vec![0; n],
            1 => vec![0xff; n],
            2 => {
                let mut v = vec![0; n];
                if n > 0 {
                    v[n - 1] = g.below(5) as u8;
                }
                v
            }
            _ => g.bytes(n),
        }
    };
    match alg {
        1 | 5 | 8 | 10 => {
            let el = g.pick(&[0usize, 1, 3, 4, 5, 255, 256]);
            let ml = g.pick(&[0usize, 1, 2, 16, 64, 128, 129, 256, 512, 513]);
            let mut k = Vec::new();
            if el == 0 || el > 255 || g.pct(20) {
                k.push(0);
                k.extend((el as u16).to_be_bytes());
            } else {
                k.push(el as u8);
            }
            let e = fill(g, el);
            k.extend(e);
            let mut m = fill(g, ml);
            if g.pct(50) {
                if let Some(l) = m.last_mut() {
                    *l |= 1
                }
            }
            k.extend(m);
            k
        }
        3 => {
            let t = g.pick(&[0usize, 1, 8, 9, 255]);
            let mut k = vec![t as u8];
            for n in [20, 64 + 8 * t, 64 + 8 * t, 64 + 8 * t] {
                let f = fill(g, n);
                k.extend(f);
            }
            if g.pct(20) {
                let n = g.idx(k.len());
                k.truncate(n);
            }
            k
        }
        _ => {
            let n = g.pick(&[0usize, 1, 32, 57, 64, 65, 96, 97, 33]);
            let mut k = fill(g, n);
            if g.pct(20) && !k.is_empty() {
                k[0] = 4;
            }
            k
        }
    }
}

/// Records with a signature and a key an attacker made up.
fn hostile_crypto(g: &mut Tape, c: &mut crate::engine::Tally) -> Vec<u8> {
    c.count("fault hostile key and signature");
    let alg = g.pick(model::DNSSEC_ALGS);
    let key = hostile_key(g, alg);
    let n = match alg {
        1 | 5 | 8 | 10 => {
            let l = key.len();
            g.pick(&[l.saturating_sub(4), 0, 1, 128, 256, l])
        }
        3 => g.pick(&[41, 0, 40, 42]),
        _ => g.pick(&[64, 96, 114, 0, 1, 63]),
    };
    let mut sig = g.bytes(n);
    if alg == 3 && !sig.is_empty() && !key.is_empty() && g.pct(80) {
        sig[0] = key[0];
    }
    if g.pct(20) {
        sig.iter_mut().for_each(|b| *b = 0);
    }
    let mut cfg = gen::cfg(g, true, false);
    cfg.types = vec![1, 16, 2];
    let a = gen::rr(g, &mut cfg);
    let name = a.name.clone();
    let key = Rr { name: name.clone(), rtype: 48, class: 1, top: false, ttl: 5, rd: vec![F::N(0x100), F::N(3), F::N(alg), F::B(key)] };
    let sig = Rr {
        name,
        rtype: 46,
        class: 1,
        top: false,
        ttl: 5,
        rd: vec![F::N(a.rtype as u64), F::N(alg), F::N(g.below(4)), F::N(5), F::N(g.num(u32::MAX as u64)), F::N(g.num(u32::MAX as u64)), F::N(g.num(65535)), F::Name(vec![]), F::B(sig)],
    };
    let m = Msg { id: 1, flags: 0x8000, q: vec![], s: [vec![a, sig, key], vec![], vec![]] };
    model::encode(&m, Comp::Wild, Some(g))
}

fn utf8(v: &[String]) -> Result<(), V> {
    for s in v {
        if std::str::from_utf8(s.as_bytes()).is_err() {
            return bad("utf8", format!("text that is not valid UTF-8 is handed out: {}", model::short_hex(s.as_bytes())));
        }
    }
    Ok(())
}

enum Got {
    F(full::Packet),
    P(plain::Packet),
}

fn receive(c: &mut Ctx, fl: Fl, d: &[u8]) -> Result<Option<Got>, V> {
    let r = match fl {
        Fl::Plain => c.lib("decoding a message", || plain::decode(d))?.map(Got::P),
        _ => c.lib("decoding a message", || full::decode(d))?.map(Got::F),
    };
    match r {
        Ok(p) => {
            c.count("messages accepted");
            Ok(Some(p))
        }
        Err(e) => {
            c.count("messages refused");
            utf8(&[e])?;
            Ok(None)
        }
    }
}

/// C01: attackers and damage everywhere, victims use whatever they accept.
pub fn c01(c: &mut Ctx) -> Res {
    rt::set_odd(c.g.pct(50));
    let n = 1 + c.g.idx(3);
    let mut dump: Vec<u8> = Vec::new(); // the victims' store, one file
    for i in 0..n {
        let mut t = std::mem::take(&mut c.tally);
        let mut d = forge(&mut c.g, &mut t);
        c.tally = t;
        if !dump.is_empty() && c.g.pct(15) {
            c.count("fault damaged store read as a message");
            let at = c.g.idx(dump.len());
            d = dump[at..].to_vec();
        }
        c.ev_bytes(&d);
        c.log(|| format!("datagram {i}: {}", model::short_hex(&d)));
        c.nontrivial = true;
        let mut at = if c.g.pct(70) { Fl::Full } else { Fl::Plain };
        // travels on as long as nodes accept it
        for hop in 0..3 {
            let Some(p) = receive(c, at, &d)? else { break };
            c.log(|| format!("hop {hop}: accepted by {at:?}"));
            let mut texts = Vec::new();
            match &p {
                Got::F(p) => c.lib("using a received message", || full::use_up(p, true, &mut texts))?,
                Got::P(p) => c.lib("using a received message", || plain::use_up(p, true, &mut texts))?,
            }
            utf8(&texts)?;
            c.count("received messages used in every way");
            let comp = c.g.pct(50);
            let out = match &p {
                Got::F(p) => c.lib("forwarding", || if comp { full::comp_bytes(p) } else { full::plain_bytes(p) })?,
                Got::P(p) => c.lib("forwarding", || if comp { plain::comp_bytes(p) } else { plain::plain_bytes(p) })?,
            };
            c.ev_bytes(&out);
            dump.extend_from_slice(&out);
            d = out;
            if c.g.pct(30) {
                let mut t = std::mem::take(&mut c.tally);
                damage(&mut c.g, &mut d, &[], &mut t);
                c.tally = t;
                c.count("fault damaged again on the way");
            }
            at = if c.g.pct(50) { Fl::Full } else { Fl::Plain };
        }
        // parts of it, at any position
        let k = c.g.idx(4);
        for _ in 0..k {
            let kind = c.g.below(8);
            let pos = c.g.idx(d.len() + 1);
            let win = if c.g.pct(60) { Some(c.g.num(d.len() as u64 + 2) as usize) } else { None };
            let t = model::TYPES[c.g.idx(model::TYPES.len())].0;
            let pl = c.g.pct(30);
            let mut texts = Vec::new();
            let ok = c.lib("decoding a part", || if pl { plain::decode_part(&d, kind, pos, win, t, &mut texts) } else { full::decode_part(&d, kind, pos, win, t, &mut texts) })?;
            utf8(&texts)?;
            c.ev(ok as u64);
            c.count(if ok { "parts accepted" } else { "parts refused" });
        }
        let d2 = dict().ints.len() as u64;
        c.ev(d2);
    }
    rt::set_odd(false);
    Ok(())
}

const CPU_US: u64 = 400_000;
const CPU_ALLOC_NS: u64 = 700;

/// C02: bounded memory, bounded time, bounded names.
pub fn c02(c: &mut Ctx) -> Res {
    let n = 1 + c.g.idx(3);
    for i in 0..n {
        let mut t = std::mem::take(&mut c.tally);
        let d = if c.g.pct(60) { bomb(&mut c.g, &mut t) } else { forge(&mut c.g, &mut t) };
        c.tally = t;
        let mut d = d;
        if c.g.pct(20) {
            let mut t = std::mem::take(&mut c.tally);
            damage(&mut c.g, &mut d, &[], &mut t);
            c.tally = t;
        }
        d.truncate(65_535);
        c.ev_bytes(&d);
        c.log(|| format!("datagram {i} of {} bytes: {}", d.len(), model::short_hex(&d)));
        c.nontrivial = true;
        let limit = 4096 * d.len() as isize + (64 << 10);
        for pl in [false, true] {
            let base = rt::mem_base();
            rt::mem_cap(Some(2 * limit + (1 << 20)));
            let t0 = rt::thread_cpu_us();
            let allocs = rt::allocs();
            let r = if pl { c.lib("decoding", || plain::decode(&d).map(Got::P))? } else { c.lib("decoding", || full::decode(&d).map(Got::F))? };
            let mut spent = rt::thread_cpu_us() - t0;
            let made = rt::allocs() - allocs;
            rt::mem_cap(None);
            let used = rt::mem_peak() - base;
            c.max("peak memory in bytes per input byte", (used / (d.len() as isize).max(1)) as u64);
            c.max("allocations per input byte", made / (d.len() as u64).max(1));
            c.max("longest decoding in microseconds", spent);
            let cpu_limit = CPU_US + made * CPU_ALLOC_NS / 1000;
            c.max("processor time in percent of the limit", 100 * spent / cpu_limit);
            if used > limit {
                return bad("memory", format!("decoding {} bytes held {used} bytes of memory, more than {limit}", d.len()));
            }
            if made > 1000 * d.len() as u64 + 10_000 {
                return bad("work", format!("decoding {} bytes made {made} allocations", d.len()));
            }
            for _ in 0..4 {
                if spent <= cpu_limit {
                    break;
                }
                // once more, in case the machine was disturbed
                let t0 = rt::thread_cpu_us();
                if pl {
                    drop(c.lib("decoding", || plain::decode(&d))?);
                } else {
                    drop(c.lib("decoding", || full::decode(&d))?);
                }
                spent = spent.min(rt::thread_cpu_us() - t0);
            }
            if spent > cpu_limit {
                return bad("time", format!("decoding {} bytes took {spent} us of processor time", d.len()));
            }
            c.ev(r.is_ok() as u64);
            c.count(if r.is_ok() { "messages accepted" } else { "messages refused" });
            let names = match &r {
                Ok(Got::F(p)) => c.lib("reading names", || full::all_names(p))?,
                Ok(Got::P(p)) => c.lib("reading names", || plain::all_names(p))?,
                Err(_) => Vec::new(),
            };
            for n in &names {
                if model::wire_len(n) > 255 || n.iter().any(|l| l.len() > 63) {
                    return bad("name", format!("a decoded name takes {} bytes", model::wire_len(n)));
                }
            }
            if r.is_ok() {
                // pointers that loop or point forward, names that are too long
                let mut x = model::Dec::new(&d);
                if let Err(e) = x.msg() {
                    if e.contains("point backwards") || e.contains("name longer") {
                        return bad("pointer", format!("a message was accepted although: {e}"));
                    }
                }
            }
        }
    }
    Ok(())
}
