//! Generates message content the library's types can represent.
use crate::model::*;
use crate::tape::{dict, Tape};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone)]
pub struct Cfg {
    pub types: Vec<u16>,
    pub max_rr: usize,
    pub max_q: usize,
    pub max_blob: usize,
    pub dnssec: bool,
    /// generate the top bit of the class
    pub top: bool,
    pub pool: Vec<Name>,
    pub any_class: bool,
    /// type 0 gateways are encoded in the library's own dialect only
    pub gw_none: bool,
    pub empty_labels: bool,
    pub budget: usize,
}

/// Draws the shape of a run (swarm style).
pub fn cfg(g: &mut Tape, dnssec: bool, top: bool) -> Cfg {
    let all: Vec<u16> = TYPES.iter().filter(|t| dnssec || !t.2).map(|t| t.0).collect();
    let types = if g.pct(45) {
        all
    } else {
        let n = 1 + g.idx(4);
        (0..n).map(|_| all[g.idx(all.len())]).collect()
    };
    let max_rr = match g.below(8) {
        0..=3 => 2,
        4..=5 => 4,
        6 => 10,
        _ => 30,
    };
    let max_blob = match g.below(8) {
        0..=5 => 40,
        6 => 300,
        _ => 1200,
    };
    let mut c = Cfg {
        types,
        max_rr,
        max_q: 1 + g.idx(3),
        max_blob,
        dnssec,
        top,
        pool: Vec::new(),
        any_class: g.pct(30),
        gw_none: false,
        empty_labels: false,
        budget: 60_000,
    };
    let n = 1 + g.idx(4);
    for _ in 0..n {
        let x = fresh_name(g, &c);
        c.pool.push(x);
    }
    if g.below(40) == 39 {
        c.pool.extend(TWINS.iter().map(|l| vec![l.to_vec()]));
    }
    c
}

/// Two names that std's hasher with its fixed keys maps to the same 64 bits.
const TWINS: [[u8; 8]; 2] = [0x8f4c_4f88_5af4_27e7u64.to_be_bytes(), 0xb350_66ff_8d0e_a5ffu64.to_be_bytes()];

fn label(g: &mut Tape) -> Vec<u8> {
    match g.below(12) {
        0..=5 => {
            let n = 1 + g.idx(3);
            let b = b'a' + g.below(3) as u8;
            vec![b; n]
        }
        6 => {
            let v: &[&[u8]] = &[b"local", b"com", b"example", b"www", b"_tcp", b"COM", b"Local", b"*", b"x.y", b"\\", b"_dns-sd"];
            v[g.idx(v.len())].to_vec()
        }
        7 => {
            let n = [63usize, 62, 32, 31, 16][g.idx(5)];
            g.bytes(n)
        }
        8 => {
            let d = dict();
            let mut s = if d.strs.is_empty() { b"q".to_vec() } else { d.strs[g.idx(d.strs.len())].clone() };
            s.truncate(63);
            s.retain(|c| *c != b'.');
            if s.is_empty() {
                s.push(b'z');
            }
            s
        }
        9 => {
            let n = 1 + g.len(62);
            g.bytes(n.min(63))
        }
        10 => {
            let n = 1 + g.idx(4);
            let v: &[u8] = &[0, b'.', 0xff, 0xc0, 0x80, b'A', b'\n', b' '];
            (0..n).map(|_| v[g.idx(v.len())]).collect()
        }
        _ => {
            let b = g.u8();
            vec![b]
        }
    }
}

/// A name that differs from an earlier one in a single place.
fn near_name(g: &mut Tape, c: &Cfg) -> Name {
    let n = c.pool[g.idx(c.pool.len())].clone();
    near(g, n)
}
pub fn near(g: &mut Tape, mut n: Name) -> Name {
    for _ in 0..1 + g.idx(2) {
        let at = |g: &mut Tape, n: &Name| match g.below(3) {
            0 => n.len() - 1,
            _ => g.idx(n.len()),
        };
        if n.is_empty() {
            n.push(label(g));
        }
        match g.below(10) {
            8 => {
                // the same octets, one of them in the next label
                let i = g.idx(n.len());
                if i + 1 < n.len() && n[i].len() > 1 && n[i + 1].len() < 63 {
                    let b = n[i].pop().unwrap();
                    n[i + 1].insert(0, b);
                }
            }
            0 => {
                let i = at(g, &n);
                n[i] = label(g);
            }
            1 => {
                let i = at(g, &n);
                n.remove(i);
            }
            2 => n.push(label(g)),
            3 => {
                let i = at(g, &n);
                let j = g.idx(n.len());
                n.swap(i, j);
            }
            4 => {
                // one octet of one label
                let i = at(g, &n);
                let j = g.idx(n[i].len());
                n[i][j] = if g.pct(50) { n[i][j].wrapping_add(1) } else { n[i][j] ^ 0x20 };
            }
            5 => {
                // two labels in the place of one
                let i = at(g, &n);
                if n[i].len() > 1 {
                    let k = 1 + g.idx(n[i].len() - 1);
                    let t = n[i].split_off(k);
                    n.insert(i + 1, t);
                }
            }
            6 => {
                // one label in the place of two
                let i = g.idx(n.len());
                if i + 1 < n.len() && n[i].len() + n[i + 1].len() < 63 {
                    let t = n.remove(i + 1);
                    if g.pct(50) {
                        n[i].push(b'.');
                    }
                    n[i].extend(t);
                }
            }
            7 => {
                let i = at(g, &n);
                let l = n[i].clone();
                n.insert(i, l);
            }
            _ => {
                let i = at(g, &n);
                let b = n[i].last().copied().unwrap_or(b'a');
                if n[i].len() < 63 {
                    n[i].push(b);
                }
            }
        }
    }
    while wire_len(&n) > 255 {
        n.remove(0);
    }
    n
}

fn fresh_name(g: &mut Tape, c: &Cfg) -> Name {
    if !c.pool.is_empty() && g.pct(15) {
        return near_name(g, c);
    }
    let mut n: Name = if !c.pool.is_empty() && g.pct(60) {
        // share a suffix with an earlier name
        let p = &c.pool[g.idx(c.pool.len())];
        let k = g.idx(p.len() + 1);
        p[k..].to_vec()
    } else {
        Vec::new()
    };
    let add = match g.below(12) {
        0 => 0,
        1..=9 => 1 + g.idx(3),
        10 => g.idx(8),
        _ => g.idx(128),
    };
    for _ in 0..add {
        let l = label(g);
        n.insert(0, l);
        if wire_len(&n) > 255 {
            n.remove(0);
            break;
        }
    }
    // now and then as many labels as fit
    if g.below(40) == 39 {
        let keep = if g.pct(50) { 255 } else { g.range(1, 255) as usize };
        let b = g.u8();
        while wire_len(&n) + 2 <= keep {
            n.insert(0, vec![b]);
        }
    }
    // now and then exactly at the size limit
    if g.below(40) == 39 {
        while wire_len(&n) < 254 {
            let room = 255 - wire_len(&n);
            let l = (room - 1).min(63);
            if l == 0 {
                break;
            }
            n.insert(0, vec![b'm'; l]);
        }
    }
    n
}

pub fn name(g: &mut Tape, c: &mut Cfg) -> Name {
    let mut n = match g.below(10) {
        0..=4 if !c.pool.is_empty() => c.pool[g.idx(c.pool.len())].clone(),
        9 if g.pct(30) => Vec::new(),
        _ => {
            let n = fresh_name(g, c);
            if c.pool.len() < 40 {
                c.pool.push(n.clone());
            }
            n
        }
    };
    if c.empty_labels && g.pct(10) {
        let at = g.idx(n.len() + 1);
        n.insert(at, Vec::new());
    }
    n
}

fn utf8(g: &mut Tape, max: usize) -> Vec<u8> {
    let n = g.len(max);
    let mut v: Vec<u8> = match g.below(5) {
        0..=2 => {
            let b = g.bytes(n);
            b.iter().map(|x| x & 0x7f).collect()
        }
        3 => {
            let mut s = String::new();
            let parts = [
                "é", "水", "😀", "a", "\u{0}", "=", "\u{FFFD}", "\u{7ff}", "\u{FEFF}", "\u{200d}", "\r\n", " ", "\t", "\\", "\"", "\u{10ffff}",
                "\u{7f}", "\u{80}", "\u{301}", "A", "İ", ".", "\u{2028}", ";", "%",
            ];
            while s.len() < n {
                s.push_str(parts[g.idx(parts.len())]);
            }
            s.into_bytes()
        }
        _ => {
            let d = dict();
            if d.strs.is_empty() { b"k=v".to_vec() } else { d.strs[g.idx(d.strs.len())].clone() }
        }
    };
    while v.len() > max || std::str::from_utf8(&v).is_err() {
        v.pop();
    }
    v
}

fn types_set(g: &mut Tape, c: &Cfg) -> BTreeSet<u16> {
    let all: Vec<u16> = TYPES.iter().filter(|t| c.dnssec || !t.2).map(|t| t.0).collect();
    let n = match g.below(12) {
        0 => 0,
        1 => {
            // all, or all but one
            let mut s: BTreeSet<u16> = all.iter().copied().collect();
            if g.pct(50) {
                s.remove(&all[g.idx(all.len())]);
            }
            return s;
        }
        10 | 11 => g.idx(all.len() + 1),
        _ => 1 + g.idx(5),
    };
    (0..n).map(|_| all[g.idx(all.len())]).collect()
}

fn blob(g: &mut Tape, c: &Cfg) -> F {
    F::B(g.blob(c.max_blob))
}

fn params(g: &mut Tape) -> BTreeMap<u16, Vec<u8>> {
    let mut m = BTreeMap::new();
    let n = g.idx(6);
    for _ in 0..n {
        let k = match g.below(10) {
            0..=6 => g.below(7) as u16,
            7 => 65535,
            _ => {
                let k = 65280 + g.num(254) as u16;
                k.min(65534)
            }
        };
        let v = match k {
            0 => {
                let n = 1 + g.idx(4);
                let s: BTreeSet<u16> = (0..n)
                    .map(|_| match g.below(3) {
                        0 | 1 => 1 + g.below(6) as u16,
                        _ => 65280 + g.below(255) as u16,
                    })
                    .collect();
                s.iter().flat_map(|k| k.to_be_bytes()).collect()
            }
            1 => {
                let n = if g.below(16) == 15 { 1 + g.len(40) } else { 1 + g.idx(3) };
                let mut v = Vec::new();
                for _ in 0..n {
                    let mut b = g.blob(255);
                    if b.is_empty() {
                        b.push(b'h');
                    }
                    v.push(b.len() as u8);
                    v.extend(b);
                }
                v
            }
            2 | 65535 => Vec::new(),
            3 => g.bytes(2),
            4 => g.bytes(4),
            6 => g.bytes(16),
            _ => g.blob(300),
        };
        m.insert(k, v);
    }
    m
}

pub fn rdata(g: &mut Tape, c: &mut Cfg, t: u16) -> Vec<F> {
    let n8 = |g: &mut Tape| F::N(g.num(255));
    let n16 = |g: &mut Tape| F::N(g.num(65535));
    let n32 = |g: &mut Tape| F::N(g.num(u32::MAX as u64));
    match t {
        1 => vec![F::B(g.bytes(4))],
        2 | 5 | 12 => vec![F::Name(name(g, c))],
        6 => vec![F::Name(name(g, c)), F::Name(name(g, c)), n32(g), n32(g), n32(g), n32(g), n32(g)],
        11 => vec![F::B(g.bytes(4)), n8(g), blob(g, c)],
        13 => vec![F::B(g.blob(255)), F::B(g.blob(255))],
        14 => vec![F::Name(name(g, c)), F::Name(name(g, c))],
        15 => vec![n16(g), F::Name(name(g, c))],
        16 => {
            let n = match g.below(8) {
                0 => 0,
                7 => g.idx(30),
                _ => 1 + g.idx(3),
            };
            vec![F::List((0..n).map(|_| utf8(g, 255)).collect())]
        }
        28 => vec![F::B(g.bytes(16))],
        29 => vec![n8(g), n8(g), n8(g), n8(g), n32(g), n32(g), n32(g)],
        33 => vec![n16(g), n16(g), n16(g), F::Name(name(g, c))],
        35 => {
            let k = match g.below(10) {
                0 => 0,
                9 => g.len(255),
                _ => 1 + g.idx(3),
            };
            let fl: Vec<u8> = (0..k).map(|_| g.pick(b"SAUP")).collect();
            vec![n16(g), n16(g), F::B(fl), F::B(g.blob(255)), F::B(utf8(g, 255)), F::Name(name(g, c))]
        }
        41 => {
            let n = if g.below(16) == 15 { g.len(80) } else { g.idx(6) };
            let mut m = BTreeMap::new();
            for _ in 0..n {
                let k = g.num(65535) as u16;
                m.insert(k, g.blob(c.max_blob));
            }
            vec![F::Map(m)]
        }
        42 => {
            let fam = 1 + g.below(2);
            let full = if fam == 1 { 4 } else { 16 };
            let mut a = g.bytes(full);
            let z = g.idx(full + 1);
            for b in a.iter_mut().rev().take(z) {
                *b = 0;
            }
            vec![F::N(fam), n8(g), F::N(g.below(2)), F::B(a)]
        }
        43 | 59 => vec![n16(g), F::N(g.pick(DNSSEC_ALGS)), F::N(g.pick(DIGESTS)), blob(g, c)],
        44 => vec![F::N(g.below(6)), F::N(g.below(2)), blob(g, c)],
        45 => {
            let gt = if c.gw_none { g.below(4) } else { 1 + g.below(3) };
            let gw = match gt {
                0 => F::B(b".".to_vec()),
                1 => F::B(g.bytes(4)),
                2 => F::B(g.bytes(16)),
                _ => F::Name(name(g, c)),
            };
            vec![n8(g), F::N(gt), F::N(g.below(6)), gw, blob(g, c)]
        }
        46 => {
            let all: Vec<u64> = TYPES.iter().map(|t| t.0 as u64).collect();
            vec![F::N(g.pick(&all)), F::N(g.pick(DNSSEC_ALGS)), n8(g), n32(g), n32(g), n32(g), n16(g), F::Name(name(g, c)), blob(g, c)]
        }
        47 => vec![F::Name(name(g, c)), F::Set(types_set(g, c))],
        48 | 60 => {
            let p = if g.pct(15) { g.num(255) } else { 3 };
            let fl = if g.pct(25) { g.num(65535) } else { g.pick(&[0x100, 0x101, 0, 1]) };
            vec![F::N(fl), F::N(p), F::N(g.pick(DNSSEC_ALGS)), blob(g, c)]
        }
        49 => vec![F::N(g.below(3)), F::N(1), blob(g, c)],
        52 => vec![F::N(g.below(4)), F::N(g.below(2)), F::N(g.below(3)), blob(g, c)],
        55 => {
            let k = if g.below(16) == 15 { g.len(60) } else { g.idx(4) };
            vec![F::N(g.below(6)), F::B(g.blob(255)), blob(g, c), F::Names((0..k).map(|_| name(g, c)).collect())]
        }
        10 | 61 => vec![blob(g, c)],
        62 => vec![n32(g), F::N(g.below(4)), F::Set(types_set(g, c))],
        64 => vec![n16(g), F::Name(name(g, c)), F::Map(params(g))],
        108 => vec![F::B(g.bytes(6))],
        109 => vec![F::B(g.bytes(8))],
        249 => {
            let mode = g.num(65534).max(1);
            vec![F::Name(name(g, c)), n32(g), n32(g), F::N(mode), F::N(g.below(22)), blob(g, c), blob(g, c)]
        }
        250 => vec![F::Name(name(g, c)), F::N(g.num((1 << 48) - 1)), n16(g), blob(g, c), n16(g), F::N(g.pick(&[0, 16, 17, 18, 22])), blob(g, c)],
        256 => vec![n16(g), n16(g), blob(g, c)],
        257 => {
            let mut tag = utf8(g, 255);
            if tag.is_empty() {
                tag = b"issue".to_vec();
            }
            vec![F::N(g.below(2) << 7), F::B(tag), blob(g, c)]
        }
        _ => panic!("type {t}"),
    }
}

pub fn class(g: &mut Tape, c: &Cfg, t: u16) -> u16 {
    if t == T_OPT {
        return g.num(65535) as u16;
    }
    if c.any_class && g.pct(30) {
        (g.num(0x7fff)) as u16
    } else {
        g.pick(&[1, 1, 1, 1, 2, 3, 4])
    }
}

pub fn rr(g: &mut Tape, c: &mut Cfg) -> Rr {
    let t = c.types[g.idx(c.types.len())];
    let name = name(g, c);
    let class = class(g, c, t);
    let top = c.top && t != T_OPT && g.pct(40);
    let ttl = g.num(u32::MAX as u64) as u32;
    let rd = rdata(g, c, t);
    Rr { name, rtype: t, class, top, ttl, rd }
}

pub fn question(g: &mut Tape, c: &mut Cfg) -> Q {
    let qtype = if g.pct(20) {
        g.pick(QTYPES_EXTRA)
    } else {
        let all: Vec<u16> = TYPES.iter().filter(|t| c.dnssec || !t.2).map(|t| t.0).collect();
        all[g.idx(all.len())]
    };
    Q { name: name(g, c), qtype, class: g.pick(QCLASSES), top: c.top && g.pct(40) }
}

pub fn flags(g: &mut Tape) -> u16 {
    let f = match g.below(4) {
        0 => 0x0100,
        1 => 0x8180,
        _ => g.num(0xffff) as u16,
    };
    let rc = (f & 15).min(g.below(11) as u16);
    (f & 0xfff0) | rc
}

/// Makes the record equal, or nearly equal, to one that is in the message already.
pub fn again(g: &mut Tape, r: &mut Rr, m: &Msg) {
    let all: Vec<&Rr> = m.s.iter().flatten().collect();
    if all.is_empty() {
        return;
    }
    let i = if g.pct(60) { all.len() - 1 } else { g.idx(all.len()) };
    let o = all[i].clone();
    match g.below(8) {
        0..=3 => *r = o,
        4 => *r = Rr { ttl: r.ttl, ..o },
        5 => *r = Rr { name: r.name.clone(), ..o },
        6 => *r = Rr { top: r.top && o.rtype != T_OPT, ..o },
        _ if r.rtype == o.rtype => *r = Rr { rd: r.rd.clone(), ..o },
        _ => *r = o,
    }
}

/// A whole message, at most `budget` bytes without compression.
pub fn msg(g: &mut Tape, c: &mut Cfg) -> Msg {
    let mut m = Msg { id: g.num(65535) as u16, flags: flags(g), ..Default::default() };
    let mut used = 12;
    let nq = g.idx(c.max_q + 1);
    for _ in 0..nq {
        let mut q = question(g, c);
        if let (true, Some(l)) = (g.pct(8), m.q.last()) {
            q = l.clone();
        }
        used += wire_len(&q.name) + 4;
        m.q.push(q);
    }
    for s in 0..3 {
        let n = if g.pct(35) { 0 } else { g.idx(c.max_rr + 1) };
        for _ in 0..n {
            let mut r = rr(g, c);
            if g.pct(8) {
                again(g, &mut r, &m);
            }
            let l = wire_len(&r.name) + 10 + encode_rdata(r.rtype, &r.rd).len();
            if used + l > c.budget {
                break;
            }
            used += l;
            m.s[s].push(r);
        }
    }
    if c.budget >= 20_000 && used < 10_000 && g.below(150) == 0 {
        // more records than one octet counts
        let (s, n) = (g.idx(3), 200 + g.idx(200));
        for i in 0..n {
            m.s[s].push(Rr { name: Vec::new(), rtype: 10, class: 1, top: false, ttl: i as u32, rd: vec![F::B(vec![7; i % 2])] });
        }
    }
    m
}
