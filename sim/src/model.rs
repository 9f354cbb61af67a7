//! Content model of DNS messages and an independent reference codec (no code shared with the
//! library). It plays the foreign nodes and is the oracle for what is on the wire.
use crate::tape::Tape;
use std::collections::{BTreeMap, BTreeSet};

pub type Name = Vec<Vec<u8>>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum F {
    N(u64),
    Name(Name),
    B(Vec<u8>),
    Set(BTreeSet<u16>),
    Map(BTreeMap<u16, Vec<u8>>),
    List(Vec<Vec<u8>>),
    Names(Vec<Name>),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Q {
    pub name: Name,
    pub qtype: u16,
    pub class: u16,
    pub top: bool,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Rr {
    pub name: Name,
    pub rtype: u16,
    /// without the top bit, except for OPT where it is the whole payload size
    pub class: u16,
    pub top: bool,
    pub ttl: u32,
    pub rd: Vec<F>,
}
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Msg {
    pub id: u16,
    pub flags: u16,
    pub q: Vec<Q>,
    pub s: [Vec<Rr>; 3],
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    U8,
    U16,
    U32,
    U48,
    Name,
    Cs,
    CsList,
    Rest,
    Ip4,
    Ip6,
    Fix(usize),
    L16,
    Opt,
    Bitmap,
    Params,
    Apl,
    Ipsec,
    Hip,
}

pub const T_OPT: u16 = 41;
/// (type number, fields, needs the dnssec feature)
pub const TYPES: &[(u16, &[K], bool)] = &[
    (1, &[K::Ip4], false),
    (2, &[K::Name], false),
    (5, &[K::Name], false),
    (6, &[K::Name, K::Name, K::U32, K::U32, K::U32, K::U32, K::U32], false),
    (10, &[K::Rest], false),
    (11, &[K::Ip4, K::U8, K::Rest], false),
    (12, &[K::Name], false),
    (13, &[K::Cs, K::Cs], false),
    (14, &[K::Name, K::Name], false),
    (15, &[K::U16, K::Name], false),
    (16, &[K::CsList], false),
    (28, &[K::Ip6], false),
    (29, &[K::U8, K::U8, K::U8, K::U8, K::U32, K::U32, K::U32], false),
    (33, &[K::U16, K::U16, K::U16, K::Name], false),
    (35, &[K::U16, K::U16, K::Cs, K::Cs, K::Cs, K::Name], false),
    (41, &[K::Opt], false),
    (42, &[K::Apl], false),
    (43, &[K::U16, K::U8, K::U8, K::Rest], true),
    (44, &[K::U8, K::U8, K::Rest], false),
    (45, &[K::Ipsec], false),
    (46, &[K::U16, K::U8, K::U8, K::U32, K::U32, K::U32, K::U16, K::Name, K::Rest], true),
    (47, &[K::Name, K::Bitmap], true),
    (48, &[K::U16, K::U8, K::U8, K::Rest], true),
    (49, &[K::U16, K::U8, K::Rest], false),
    (52, &[K::U8, K::U8, K::U8, K::Rest], false),
    (55, &[K::Hip], false),
    (59, &[K::U16, K::U8, K::U8, K::Rest], true),
    (60, &[K::U16, K::U8, K::U8, K::Rest], true),
    (61, &[K::Rest], false),
    (62, &[K::U32, K::U16, K::Bitmap], false),
    (64, &[K::U16, K::Name, K::Params], false),
    (108, &[K::Fix(6)], false),
    (109, &[K::Fix(8)], false),
    (249, &[K::Name, K::U32, K::U32, K::U16, K::U16, K::L16, K::L16], false),
    (250, &[K::Name, K::U48, K::U16, K::L16, K::U16, K::U16, K::L16], false),
    (256, &[K::U16, K::U16, K::Rest], false),
    (257, &[K::U8, K::Cs, K::Rest], false),
];
/// Question types beyond the record types.
pub const QTYPES_EXTRA: &[u16] = &[252, 253, 254, 255];
pub const QCLASSES: &[u16] = &[1, 2, 3, 4, 254, 255];
pub const DNSSEC_ALGS: &[u64] = &[1, 3, 5, 8, 10, 13, 14, 15, 16, 252, 253, 254];
pub const DIGESTS: &[u64] = &[1, 2, 4, 5];

pub fn schema(t: u16) -> Option<&'static [K]> {
    TYPES.iter().find(|x| x.0 == t).map(|x| x.1)
}
pub fn is_dnssec(t: u16) -> bool {
    TYPES.iter().any(|x| x.0 == t && x.2)
}

pub fn wire_len(n: &Name) -> usize {
    1 + n.iter().filter(|l| !l.is_empty()).map(|l| l.len() + 1).sum::<usize>()
}
/// The name as it is on the wire: empty labels do not exist there.
pub fn norm(n: &Name) -> Name {
    n.iter().filter(|l| !l.is_empty()).cloned().collect()
}

// ---------------------------------------------------------------- reference encoder

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sp {
    Id,
    Flags,
    Count,
    LabelLen,
    Label,
    Ptr,
    Type,
    Class,
    Ttl,
    RdLen,
    InLen,
    Int,
    Data,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Comp {
    None,
    /// RFC 1035 types only, first occurrence
    Std,
    /// every name, any earlier occurrence picked by the tape
    Wild,
}

pub struct Enc<'t> {
    pub out: Vec<u8>,
    pub spans: Vec<(usize, usize, Sp)>,
    seen: BTreeMap<Name, Vec<usize>>,
    comp: Comp,
    tape: Option<&'t mut Tape>,
    pub rd_spans: Vec<(usize, usize)>,
    /// write options and parameters in any order
    pub shuffle: bool,
}

impl<'t> Enc<'t> {
    pub fn new(comp: Comp, tape: Option<&'t mut Tape>) -> Self {
        Enc { out: Vec::new(), spans: Vec::new(), seen: BTreeMap::new(), comp, tape, rd_spans: Vec::new(), shuffle: false }
    }
    fn sp(&mut self, len: usize, k: Sp) {
        self.spans.push((self.out.len(), len, k));
    }
    fn n(&mut self, v: u64, bytes: usize, k: Sp) {
        self.sp(bytes, k);
        for i in (0..bytes).rev() {
            self.out.push((v >> (8 * i)) as u8);
        }
    }
    fn b(&mut self, v: &[u8]) {
        if !v.is_empty() {
            self.sp(v.len(), Sp::Data);
            self.out.extend_from_slice(v);
        }
    }
    fn name(&mut self, n: &Name, compressible: bool) {
        let n = norm(n);
        let may = match self.comp {
            Comp::None => false,
            Comp::Std => compressible,
            Comp::Wild => true,
        };
        for i in 0..n.len() {
            let rest: Name = n[i..].to_vec();
            if may {
                let cand: Vec<usize> = self.seen.get(&rest).cloned().unwrap_or_default();
                if !cand.is_empty() {
                    let (use_it, c) = match (self.comp, self.tape.as_mut()) {
                        (Comp::Wild, Some(t)) => {
                            let u = !t.pct(20);
                            (u, cand[t.idx(cand.len())])
                        }
                        _ => (true, cand[0]),
                    };
                    if use_it {
                        if self.out.len() < 0x4000 {
                            self.seen.entry(rest).or_default().push(self.out.len());
                        }
                        self.n(0xC000 | c as u64, 2, Sp::Ptr);
                        return;
                    }
                }
            }
            if self.out.len() < 0x4000 {
                self.seen.entry(rest).or_default().push(self.out.len());
            }
            self.n(n[i].len() as u64, 1, Sp::LabelLen);
            self.sp(n[i].len(), Sp::Label);
            self.out.extend_from_slice(&n[i]);
        }
        self.n(0, 1, Sp::LabelLen);
    }
    pub fn rdata(&mut self, t: u16, f: &[F]) {
        let sch = schema(t).expect("type");
        let comp = matches!(t, 2 | 5 | 6 | 12 | 14 | 15);
        if sch.len() == 1 {
            match sch[0] {
                K::Apl => {
                    let (F::N(fam), F::N(pre), F::N(neg), F::B(addr)) = (&f[0], &f[1], &f[2], &f[3]) else { panic!("apl") };
                    let mut a = addr.clone();
                    if let Some(t) = self.tape.as_mut() {
                        // RFC 3123: trailing zero octets are left out
                        if self.comp == Comp::Wild && !t.pct(30) {
                            while a.last() == Some(&0) {
                                a.pop();
                            }
                        }
                    }
                    self.n(*fam, 2, Sp::Int);
                    self.n(*pre, 1, Sp::Int);
                    self.n(neg << 7 | a.len() as u64, 1, Sp::InLen);
                    self.b(&a);
                    return;
                }
                K::Ipsec => {
                    let (F::N(pre), F::N(gt), F::N(alg), gw, F::B(key)) = (&f[0], &f[1], &f[2], &f[3], &f[4]) else { panic!("ipsec") };
                    self.n(*pre, 1, Sp::Int);
                    self.n(*gt, 1, Sp::Int);
                    self.n(*alg, 1, Sp::Int);
                    match gw {
                        F::B(b) => self.b(b),
                        F::Name(n) => self.name(n, false),
                        _ => panic!("gateway"),
                    }
                    self.b(key);
                    return;
                }
                K::Hip => {
                    let (F::N(alg), F::B(hit), F::B(pk), F::Names(ns)) = (&f[0], &f[1], &f[2], &f[3]) else { panic!("hip") };
                    self.n(hit.len() as u64, 1, Sp::InLen);
                    self.n(*alg, 1, Sp::Int);
                    self.n(pk.len() as u64, 2, Sp::InLen);
                    self.b(hit);
                    self.b(pk);
                    for n in ns {
                        self.name(n, false);
                    }
                    return;
                }
                _ => (),
            }
        }
        // RFC 3403: the case of the flags is not significant
        let lower = t == 35 && self.comp == Comp::Wild && self.tape.as_mut().is_some_and(|t| t.pct(50));
        for (i, (k, v)) in sch.iter().zip(f).enumerate() {
            match (k, v) {
                (K::Cs, F::B(b)) if lower && i == 2 => {
                    self.n(b.len() as u64, 1, Sp::InLen);
                    self.b(&b.to_ascii_lowercase());
                }
                (K::U8, F::N(x)) => self.n(*x, 1, Sp::Int),
                (K::U16, F::N(x)) => self.n(*x, 2, Sp::Int),
                (K::U32, F::N(x)) => self.n(*x, 4, Sp::Int),
                (K::U48, F::N(x)) => self.n(*x, 6, Sp::Int),
                (K::Name, F::Name(n)) => self.name(n, comp),
                (K::Cs, F::B(b)) => {
                    self.n(b.len() as u64, 1, Sp::InLen);
                    self.b(b);
                }
                (K::CsList, F::List(l)) => {
                    for b in l {
                        self.n(b.len() as u64, 1, Sp::InLen);
                        self.b(b);
                    }
                }
                (K::Rest | K::Ip4 | K::Ip6 | K::Fix(_), F::B(b)) => self.b(b),
                (K::L16, F::B(b)) => {
                    self.n(b.len() as u64, 2, Sp::InLen);
                    self.b(b);
                }
                (K::Opt | K::Params, F::Map(m)) => {
                    let mut order: Vec<_> = m.iter().collect();
                    if self.shuffle {
                        if let Some(t) = self.tape.as_mut() {
                            for i in (1..order.len()).rev() {
                                order.swap(i, t.idx(i + 1));
                            }
                        }
                    }
                    for (c, b) in order {
                        self.n(*c as u64, 2, Sp::Int);
                        self.n(b.len() as u64, 2, Sp::InLen);
                        self.b(b);
                    }
                }
                (K::Bitmap, F::Set(s)) => {
                    let mut w: BTreeMap<u8, Vec<u8>> = BTreeMap::new();
                    for t in s {
                        let e = w.entry((t >> 8) as u8).or_default();
                        let i = (t & 255) as usize;
                        if e.len() <= i / 8 {
                            e.resize(i / 8 + 1, 0);
                        }
                        e[i / 8] |= 0x80 >> (i % 8);
                    }
                    for (n, b) in w {
                        self.n(n as u64, 1, Sp::Int);
                        self.n(b.len() as u64, 1, Sp::InLen);
                        self.b(&b);
                    }
                }
                x => panic!("schema {x:?}"),
            }
        }
    }
    fn rr(&mut self, r: &Rr) {
        self.name(&r.name, true);
        self.n(r.rtype as u64, 2, Sp::Type);
        self.n(r.class as u64 | if r.top { 0x8000 } else { 0 }, 2, Sp::Class);
        self.n(r.ttl as u64, 4, Sp::Ttl);
        let at = self.out.len();
        self.n(0, 2, Sp::RdLen);
        self.rdata(r.rtype, &r.rd);
        let l = self.out.len() - at - 2;
        self.rd_spans.push((at + 2, at + 2 + l));
        self.out[at] = (l >> 8) as u8;
        self.out[at + 1] = l as u8;
    }
    pub fn msg(&mut self, m: &Msg) {
        self.n(m.id as u64, 2, Sp::Id);
        self.n(m.flags as u64, 2, Sp::Flags);
        self.n(m.q.len() as u64, 2, Sp::Count);
        for s in &m.s {
            self.n(s.len() as u64, 2, Sp::Count);
        }
        for q in &m.q {
            self.name(&q.name, true);
            self.n(q.qtype as u64, 2, Sp::Type);
            self.n(q.class as u64 | if q.top { 0x8000 } else { 0 }, 2, Sp::Class);
        }
        for s in &m.s {
            for r in s {
                self.rr(r);
            }
        }
    }
}

pub fn encode(m: &Msg, comp: Comp, tape: Option<&mut Tape>) -> Vec<u8> {
    let mut e = Enc::new(comp, tape);
    e.msg(m);
    e.out
}
pub fn encode_rdata(t: u16, f: &[F]) -> Vec<u8> {
    let mut e = Enc::new(Comp::None, None);
    e.rdata(t, f);
    e.out
}
pub fn encode_name(n: &Name) -> Vec<u8> {
    let mut e = Enc::new(Comp::None, None);
    e.name(n, false);
    e.out
}

// ---------------------------------------------------------------- reference decoder

pub struct Dec<'a> {
    pub d: &'a [u8],
    pub p: usize,
    pub end: usize,
    pub ptrs: u64,
    /// number of bytes left over inside record data
    pub slack: u64,
    pub fail_in_rdata: bool,
    /// where (parts of) names begin; when set, pointers must refer to one of these
    pub starts: Option<BTreeSet<usize>>,
}
pub type R<T> = Result<T, String>;

impl<'a> Dec<'a> {
    pub fn new(d: &'a [u8]) -> Self {
        Dec { d, p: 0, end: d.len(), ptrs: 0, slack: 0, fail_in_rdata: false, starts: None }
    }
    fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if self.end - self.p < n {
            return Err(format!("short at {}", self.p));
        }
        self.p += n;
        Ok(&self.d[self.p - n..self.p])
    }
    fn n(&mut self, n: usize) -> R<u64> {
        Ok(self.take(n)?.iter().fold(0, |a, b| a << 8 | *b as u64))
    }
    pub fn name(&mut self) -> R<Name> {
        let mut out: Name = Vec::new();
        let (mut p, mut limit) = (self.p, self.p);
        let mut after = None;
        let mut size = 1;
        loop {
            if p >= self.end {
                return Err(format!("name runs out at {p}"));
            }
            if after.is_none() {
                if let Some(s) = self.starts.as_mut() {
                    s.insert(p);
                }
            }
            let l = self.d[p] as usize;
            match l {
                0 => {
                    self.p = after.unwrap_or(p + 1);
                    return Ok(out);
                }
                1..=63 => {
                    if p + 1 + l > self.end {
                        return Err(format!("label runs out at {p}"));
                    }
                    size += l + 1;
                    if size > 255 {
                        return Err(format!("name longer than 255 at {p}"));
                    }
                    out.push(self.d[p + 1..p + 1 + l].to_vec());
                    p += 1 + l;
                }
                0xC0..=0xFF => {
                    if p + 2 > self.end {
                        return Err(format!("pointer runs out at {p}"));
                    }
                    let t = (l & 0x3f) << 8 | self.d[p + 1] as usize;
                    if t >= limit {
                        return Err(format!("pointer at {p} does not point backwards: {t}"));
                    }
                    if let Some(s) = self.starts.as_ref() {
                        if !s.contains(&t) {
                            return Err(format!("pointer at {p} to {t}, where no name begins"));
                        }
                    }
                    self.ptrs += 1;
                    if after.is_none() {
                        after = Some(p + 2);
                    }
                    p = t;
                    limit = t;
                }
                _ => return Err(format!("reserved label type at {p}")),
            }
        }
    }
    pub fn rdata(&mut self, t: u16) -> R<Vec<F>> {
        let sch = schema(t).ok_or_else(|| format!("type {t}"))?;
        let mut out = Vec::new();
        for k in sch {
            match k {
                K::U8 => out.push(F::N(self.n(1)?)),
                K::U16 => out.push(F::N(self.n(2)?)),
                K::U32 => out.push(F::N(self.n(4)?)),
                K::U48 => out.push(F::N(self.n(6)?)),
                K::Name => out.push(F::Name(self.name()?)),
                K::Cs => {
                    let l = self.n(1)? as usize;
                    out.push(F::B(self.take(l)?.to_vec()));
                }
                K::CsList => {
                    let mut v = Vec::new();
                    while self.p < self.end {
                        let l = self.n(1)? as usize;
                        v.push(self.take(l)?.to_vec());
                    }
                    out.push(F::List(v));
                }
                K::Rest => {
                    let l = self.end - self.p;
                    out.push(F::B(self.take(l)?.to_vec()));
                }
                K::Ip4 => out.push(F::B(self.take(4)?.to_vec())),
                K::Ip6 => out.push(F::B(self.take(16)?.to_vec())),
                K::Fix(n) => out.push(F::B(self.take(*n)?.to_vec())),
                K::L16 => {
                    let l = self.n(2)? as usize;
                    out.push(F::B(self.take(l)?.to_vec()));
                }
                K::Opt | K::Params => {
                    let mut m = BTreeMap::new();
                    let mut last: Option<u16> = None;
                    while self.p < self.end {
                        let c = self.n(2)? as u16;
                        let l = self.n(2)? as usize;
                        let b = self.take(l)?.to_vec();
                        if m.insert(c, b).is_some() {
                            return Err(format!("duplicate key {c}"));
                        }
                        if *k == K::Params && last.map(|x| x >= c).unwrap_or(false) {
                            return Err("parameters out of order".into());
                        }
                        last = Some(c);
                    }
                    out.push(F::Map(m));
                }
                K::Bitmap => {
                    let mut s = BTreeSet::new();
                    let mut last: Option<u64> = None;
                    while self.p < self.end {
                        let w = self.n(1)?;
                        let l = self.n(1)? as usize;
                        if l == 0 || l > 32 {
                            return Err(format!("bitmap window of {l}"));
                        }
                        if last.map(|x| x >= w).unwrap_or(false) {
                            return Err("bitmap windows out of order".into());
                        }
                        last = Some(w);
                        let octets = self.take(l)?;
                        if octets[l - 1] == 0 {
                            return Err("bitmap window ends in an empty octet".into());
                        }
                        for (i, o) in octets.iter().enumerate() {
                            for bit in 0..8 {
                                if o & (0x80 >> bit) != 0 {
                                    s.insert((w * 256) as u16 + (8 * i + bit) as u16);
                                }
                            }
                        }
                    }
                    out.push(F::Set(s));
                }
                K::Apl => {
                    let fam = self.n(2)?;
                    let pre = self.n(1)?;
                    let c = self.n(1)?;
                    let mut a = self.take((c & 0x7f) as usize)?.to_vec();
                    let full = match fam {
                        1 => 4,
                        2 => 16,
                        _ => return Err("family".into()),
                    };
                    if a.len() > full {
                        return Err("address part too long".into());
                    }
                    a.resize(full, 0);
                    out.extend([F::N(fam), F::N(pre), F::N(c >> 7), F::B(a)]);
                }
                K::Ipsec => {
                    let pre = self.n(1)?;
                    let gt = self.n(1)?;
                    let alg = self.n(1)?;
                    let gw = match gt {
                        0 => F::B(self.take(1)?.to_vec()),
                        1 => F::B(self.take(4)?.to_vec()),
                        2 => F::B(self.take(16)?.to_vec()),
                        3 => F::Name(self.name()?),
                        _ => return Err("gateway type".into()),
                    };
                    let l = self.end - self.p;
                    out.extend([F::N(pre), F::N(gt), F::N(alg), gw, F::B(self.take(l)?.to_vec())]);
                }
                K::Hip => {
                    let hl = self.n(1)? as usize;
                    let alg = self.n(1)?;
                    let pl = self.n(2)? as usize;
                    let hit = self.take(hl)?.to_vec();
                    let pk = self.take(pl)?.to_vec();
                    let mut ns = Vec::new();
                    while self.p < self.end {
                        ns.push(self.name()?);
                    }
                    out.extend([F::N(alg), F::B(hit), F::B(pk), F::Names(ns)]);
                }
            }
        }
        if t == 35 {
            // RFC 3403: the case of the flags is not significant
            if let F::B(b) = &mut out[2] {
                b.make_ascii_uppercase();
            }
        }
        Ok(out)
    }
    fn rr(&mut self) -> R<Rr> {
        let name = self.name()?;
        let rtype = self.n(2)? as u16;
        let class = self.n(2)? as u16;
        let ttl = self.n(4)? as u32;
        let l = self.n(2)? as usize;
        if self.end - self.p < l {
            return Err(format!("record data runs out at {}", self.p));
        }
        let (outer, stop) = (self.end, self.p + l);
        self.end = stop;
        let rd = match self.rdata(rtype) {
            Ok(rd) => rd,
            Err(e) => {
                self.fail_in_rdata = true;
                return Err(format!("type {rtype}: {e}"));
            }
        };
        self.slack += (stop - self.p) as u64;
        self.p = stop;
        self.end = outer;
        let (class, top) = if rtype == T_OPT { (class, false) } else { (class & 0x7fff, class & 0x8000 != 0) };
        Ok(Rr { name, rtype, class, top, ttl, rd })
    }
    pub fn msg(&mut self) -> R<Msg> {
        let id = self.n(2)? as u16;
        let flags = self.n(2)? as u16;
        let c: Vec<u64> = (0..4).map(|_| self.n(2)).collect::<R<_>>()?;
        let mut m = Msg { id, flags, ..Default::default() };
        for _ in 0..c[0] {
            let name = self.name()?;
            let qtype = self.n(2)? as u16;
            let class = self.n(2)? as u16;
            m.q.push(Q { name, qtype, class: class & 0x7fff, top: class & 0x8000 != 0 });
        }
        for i in 0..3 {
            for _ in 0..c[i + 1] {
                let r = self.rr()?;
                m.s[i].push(r);
            }
        }
        Ok(m)
    }
}

/// Strict decoding: everything must be consumed.
pub fn decode_strict(d: &[u8]) -> R<(Msg, u64)> {
    let mut x = Dec::new(d);
    x.starts = Some(BTreeSet::new());
    let m = x.msg()?;
    if x.p != d.len() {
        return Err(format!("{} bytes after the message", d.len() - x.p));
    }
    if x.slack != 0 {
        return Err(format!("{} unused bytes in record data", x.slack));
    }
    Ok((m, x.ptrs))
}
pub fn decode_rdata(t: u16, d: &[u8]) -> R<Vec<F>> {
    let mut x = Dec::new(d);
    let r = x.rdata(t)?;
    if x.p != d.len() {
        return Err(format!("{} unused bytes in record data", d.len() - x.p));
    }
    Ok(r)
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{x:02x}"));
    }
    s
}
pub fn short_hex(b: &[u8]) -> String {
    if b.len() <= 160 {
        hex(b)
    } else {
        format!("{}..({} bytes)", hex(&b[..160]), b.len())
    }
}
pub fn unhex(s: &str) -> Vec<u8> {
    let b: Vec<u8> = s.bytes().filter(|c| c.is_ascii_hexdigit()).collect();
    b.chunks(2).filter_map(|c| u8::from_str_radix(std::str::from_utf8(c).ok()?, 16).ok()).collect()
}
/// First difference between two models, for reports.
pub fn diff(want: &Msg, got: &Msg) -> Option<String> {
    if want.id != got.id {
        return Some(format!("id {:#x} became {:#x}", want.id, got.id));
    }
    if want.flags != got.flags {
        return Some(format!("flags {:#06x} became {:#06x}", want.flags, got.flags));
    }
    if want.q.len() != got.q.len() {
        return Some(format!("{} questions became {}", want.q.len(), got.q.len()));
    }
    for (i, (a, b)) in want.q.iter().zip(&got.q).enumerate() {
        if a != b {
            return Some(format!("question {i}: {a:?} became {b:?}"));
        }
    }
    for s in 0..3 {
        if want.s[s].len() != got.s[s].len() {
            return Some(format!("section {s}: {} records became {}", want.s[s].len(), got.s[s].len()));
        }
        for (i, (a, b)) in want.s[s].iter().zip(&got.s[s]).enumerate() {
            if a != b {
                let mut t = format!("section {s} record {i} type {}: {a:?} became {b:?}", a.rtype);
                t.truncate(t.char_indices().nth(900).map(|x| x.0).unwrap_or(t.len()));
                return Some(t);
            }
        }
    }
    None
}

// ---------------------------------------------------------------- edits

#[derive(Clone, Debug)]
pub enum RrEd {
    Name(Name),
    AppendLabel(String),
    FirstLabel(Vec<u8>),
    Ttl(u32),
    Class(u16),
    Top(bool),
    /// new type and data; the flag picks set_data or data_mut
    Data(u16, Vec<F>, bool),
}
#[derive(Clone, Debug)]
pub enum QEd {
    Name(Name),
    Type(u16),
    Class(u16),
    Top(bool),
}
/// One call (or one usual idiom) of the message editing interface.
#[derive(Clone, Debug)]
pub enum Ed {
    Id(u16),
    Rd(bool),
    Tc(bool),
    Aa(bool),
    Op(u16),
    Qr(bool),
    Rc(u16),
    Ra(bool),
    AddQ(Q),
    SetQ(Vec<Q>),
    TakeQ,
    PushQ(Q),
    PopQ,
    ClearQ,
    MutQ(usize, QEd),
    Add(usize, Rr),
    Set(usize, Vec<Rr>),
    Take(usize),
    Mut(usize, usize, RrEd),
    Remove(usize, usize),
    Insert(usize, usize, Rr),
    Move(usize, usize),
    Reverse(usize),
    /// appends all entries of a section (0 questions, 1.. records) to another message's content
    Give(usize, Box<Msg>),
    /// header of a fresh query or reply (id, reply?, rd)
    Header(u16, bool, bool),
    /// header taken from another message holding these numbers of entries
    HeaderOf(Box<Msg>),
    Clone,
    Redecode(bool),
    /// encodes and throws the bytes away
    Encode(bool),
}

impl RrEd {
    pub fn apply(&self, r: &mut Rr, full: bool) {
        match self {
            RrEd::Name(n) => r.name = n.clone(),
            RrEd::AppendLabel(s) => r.name.push(s.clone().into_bytes()),
            RrEd::FirstLabel(b) => {
                if let Some(l) = r.name.first_mut() {
                    *l = b.clone()
                }
            }
            RrEd::Ttl(t) => r.ttl = *t,
            RrEd::Class(c) => {
                if r.rtype == T_OPT {
                    r.class = *c
                } else {
                    r.class = *c & 0x7fff
                }
            }
            RrEd::Top(b) => {
                if full && r.rtype != T_OPT {
                    r.top = *b
                }
            }
            RrEd::Data(t, f, _) => {
                if (r.rtype == T_OPT) == (*t == T_OPT) {
                    r.rtype = *t;
                    r.rd = f.clone();
                }
            }
        }
    }
}
impl Ed {
    /// Meaning of the call on the list model. `full`: the build knows the top bit.
    pub fn apply(&self, m: &mut Msg, full: bool) {
        let bit = |m: &mut Msg, b: u16, v: bool| if v { m.flags |= b } else { m.flags &= !b };
        match self {
            Ed::Id(x) => m.id = *x,
            Ed::Rd(v) => bit(m, 0x100, *v),
            Ed::Tc(v) => bit(m, 0x200, *v),
            Ed::Aa(v) => bit(m, 0x400, *v),
            Ed::Op(o) => m.flags = m.flags & !0x7800 | o << 11,
            Ed::Qr(v) => {
                bit(m, 0x8000, *v);
                if !*v {
                    m.flags &= !0x8f;
                }
            }
            Ed::Rc(c) => {
                m.flags = m.flags & !0xf | c;
                if *c != 0 {
                    m.flags |= 0x8000;
                }
            }
            Ed::Ra(v) => {
                bit(m, 0x80, *v);
                if *v {
                    m.flags |= 0x8000;
                }
            }
            Ed::AddQ(q) | Ed::PushQ(q) => m.q.push(q.clone()),
            Ed::SetQ(v) => m.q = v.clone(),
            Ed::TakeQ | Ed::ClearQ => m.q.clear(),
            Ed::PopQ => {
                m.q.pop();
            }
            Ed::MutQ(i, e) => {
                if let Some(q) = m.q.get_mut(*i) {
                    match e {
                        QEd::Name(n) => q.name = n.clone(),
                        QEd::Type(t) => q.qtype = *t,
                        QEd::Class(c) => q.class = *c,
                        QEd::Top(b) => q.top = *b && full,
                    }
                }
            }
            Ed::Add(s, r) => m.s[*s].push(r.clone()),
            Ed::Set(s, v) => m.s[*s] = v.clone(),
            Ed::Take(s) => m.s[*s].clear(),
            Ed::Mut(s, i, e) => {
                if let Some(r) = m.s[*s].get_mut(*i) {
                    e.apply(r, full)
                }
            }
            Ed::Remove(s, i) => {
                if *i < m.s[*s].len() {
                    m.s[*s].remove(*i);
                }
            }
            Ed::Insert(s, i, r) => {
                let i = (*i).min(m.s[*s].len());
                m.s[*s].insert(i, r.clone());
            }
            Ed::Move(a, b) => {
                let v = std::mem::take(&mut m.s[*a]);
                m.s[*b] = v;
            }
            Ed::Reverse(s) => m.s[*s].reverse(),
            Ed::Give(s, o) => {
                if *s == 0 {
                    m.q.extend(o.q.iter().cloned());
                } else {
                    m.s[s - 1].extend(o.s[s - 1].iter().cloned());
                }
            }
            Ed::Header(id, reply, rd) => {
                m.id = *id;
                m.flags = if *reply { 0x8000 } else { (*rd as u16) << 8 };
            }
            Ed::HeaderOf(o) => {
                m.id = o.id;
                m.flags = o.flags;
            }
            Ed::Clone | Ed::Encode(_) => (),
            // empty labels do not exist on the wire
            Ed::Redecode(_) => {
                m.q.iter_mut().for_each(|q| q.name = norm(&q.name));
                for s in m.s.iter_mut() {
                    for r in s.iter_mut() {
                        r.name = norm(&r.name);
                        for f in r.rd.iter_mut() {
                            match f {
                                F::Name(n) => *n = norm(n),
                                F::Names(ns) => ns.iter_mut().for_each(|n| *n = norm(n)),
                                _ => (),
                            }
                        }
                    }
                }
            }
        }
    }
}
/// The content with names as they are on the wire.
pub fn on_wire(m: &Msg) -> Msg {
    let mut m = m.clone();
    Ed::Redecode(false).apply(&mut m, true);
    m
}

// ---------------------------------------------------------------- read cursor

#[derive(Clone, Debug)]
pub enum Cur {
    U8,
    U16,
    U32,
    /// a record type
    Typed,
    Cs,
    Text,
    Name,
    Bytes(usize),
    Peek(usize),
    Skip(usize),
    Seek(usize),
    Window(usize, Vec<Cur>),
}
#[derive(Clone, Debug)]
pub struct CurGot {
    pub out: Option<F>,
    pub pos: usize,
    pub rest: usize,
    pub all: Vec<u8>,
}
