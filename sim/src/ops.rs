//! Self-contained library calls whose result is a text, for C08 and C16.
use crate::engine::Ctx;
use crate::gen::{self, Cfg};
use crate::model::{self, Comp, Cur, Ed, Msg, Name, F};
use crate::sec::{self, Set};
use crate::w_sign;
use crate::{full, plain, rt, w_attack, w_cursor, w_edit};
use maybe_dns::rdata as rd;
use std::fmt::Write as _;
use std::time::{Duration, SystemTime, UNIX_EPOCH};

#[derive(Clone, Debug)]
pub enum What {
    /// decode, read, print, copy, compare, re-encode
    Decode(Vec<u8>),
    Part { d: Vec<u8>, kind: u64, at: usize, win: Option<usize>, t: u16 },
    /// build, edit, read, encode
    Build(Msg, Vec<Ed>),
    Sign { key: Vec<F>, private: Vec<u8>, set: Set, inc: u64, exp: u64 },
    Verify { sig: Vec<F>, key: Vec<F>, set: Set, reorder: bool },
    Ds { owner: Name, key: Vec<F>, t: u8 },
    Cursor { d: Vec<u8>, at: usize, ops: Vec<Cur> },
    Names(Vec<Name>),
    Data(u16, Vec<Vec<F>>),
    /// use of a message that every thread can see
    Shared(usize, u8),
}
#[derive(Clone, Debug)]
pub struct Op {
    pub plain: bool,
    pub ent: u64,
    pub what: What,
}

pub struct Shared {
    full: full::Packet,
    plain: Option<plain::Packet>,
}
pub fn share(m: &Msg, both: bool) -> Shared {
    Shared { full: full::make(m), plain: both.then(|| plain::make(m)) }
}

/// Debug dumps list unordered options in any order.
fn loose(s: &str) -> String {
    if !s.contains("Opt(") {
        return s.to_string();
    }
    let mut b = s.as_bytes().to_vec();
    b.sort();
    format!("{} characters {:x}", b.len(), hash(&b))
}
pub fn hash(b: &[u8]) -> u64 {
    let mut h = b.len() as u64;
    for c in b.chunks(8) {
        let mut a = [0u8; 8];
        a[..c.len()].copy_from_slice(c);
        h = rt::mix(h ^ u64::from_le_bytes(a));
    }
    h
}

macro_rules! flavour {
    ($s:expr, $n:ident, $e:expr) => {
        if $s.plain {
            use plain as $n;
            $e
        } else {
            use full as $n;
            $e
        }
    };
}

/// Work of the harness itself: no seam of the library is watched meanwhile.
fn quiet<T>(f: impl FnOnce() -> T) -> T {
    let l = rt::set_in_lib(false);
    let r = f();
    rt::set_in_lib(l);
    r
}
fn texts(o: &mut String, v: &[String]) {
    quiet(|| v.iter().for_each(|s| o.push_str(&loose(s))));
}
fn bytes(o: &mut String, b: Vec<u8>) {
    quiet(|| o.push_str(&model::hex(&b)));
}
fn debug(o: &mut String, x: impl std::fmt::Debug) {
    quiet(|| {
        let _ = write!(o, "{x:?}");
    });
}

macro_rules! use_shared {
    ($n:ident, $p:expr, $how:expr, $o:ident) => {{
        let p = $p;
        match $how {
            0 => bytes(&mut $o, $n::plain_bytes(p)),
            1 => bytes(&mut $o, $n::comp_bytes(p)),
            2 => {
                debug(&mut $o, $n::observe(p));
            }
            3 => {
                let q = p.clone();
                bytes(&mut $o, $n::comp_bytes(&q));
                let _ = write!($o, "{}", &q == p);
            }
            4 => texts(&mut $o, &[format!("{p:?}")]),
            _ => {
                let mut v = Vec::new();
                $n::use_up(p, true, &mut v);
                texts(&mut $o, &v);
            }
        }
    }};
}

impl Op {
    /// The call and its result. Runs inside the library scope.
    pub fn run(&self, shared: &[Shared]) -> String {
        let mut o = String::new();
        match &self.what {
            What::Decode(d) => flavour!(self, n, match n::decode(d) {
                Err(e) => o.push_str(&e),
                Ok(p) => {
                    debug(&mut o, n::observe(&p));
                    let mut v = Vec::new();
                    n::use_up(&p, true, &mut v);
                    texts(&mut o, &v);
                    bytes(&mut o, n::plain_bytes(&p));
                    bytes(&mut o, n::comp_bytes(&p));
                }
            }),
            What::Part { d, kind, at, win, t } => flavour!(self, n, {
                let mut v = Vec::new();
                let ok = n::decode_part(d, *kind, *at, *win, *t, &mut v);
                let _ = write!(o, "{ok}");
                texts(&mut o, &v);
            }),
            What::Build(m, eds) => flavour!(self, n, {
                let mut p = n::make(m);
                for e in eds {
                    p = n::edit(p, e);
                    if eds.len() < 4 {
                        bytes(&mut o, n::comp_bytes(&p));
                    }
                }
                debug(&mut o, n::observe(&p));
                bytes(&mut o, n::plain_bytes(&p));
                bytes(&mut o, n::comp_bytes(&p));
            }),
            What::Sign { key, private, set, inc, exp } => {
                let k = w_sign::dnskey(key);
                let at = |s: &u64| UNIX_EPOCH + Duration::from_secs(*s);
                let before: SystemTime = UNIX_EPOCH - Duration::from_secs(5);
                let (i, e) = (if *inc == 0 { before } else { at(inc) }, at(exp));
                match w_sign::with_set(set, |s| rd::Rrsig::from_dnskey(&k, s, &i, &e, private)) {
                    Err(e) => {
                        let _ = write!(o, "{e}");
                    }
                    Ok(s) => {
                        let f = w_sign::fields(&s);
                        let alg = w_sign::num(&f[1]);
                        let _ = write!(o, "{:?}", &f[..8]);
                        if matches!(alg, 3 | 13 | 14) {
                            // a fresh random number is part of these
                            let l = rt::set_in_lib(false);
                            let d = sec::signed_data(&f, set);
                            let ok = sec::verify(alg as u8, w_sign::key_bytes(key), &d, w_sign::sig_bytes(&f));
                            rt::set_in_lib(l);
                            let _ = write!(o, "a signature of {} bytes that a validator {}", w_sign::sig_bytes(&f).len(), if ok { "accepts" } else { "refuses" });
                        } else {
                            let _ = write!(o, "{:?}", f[8]);
                        }
                    }
                }
            }
            What::Verify { sig, key, set, reorder } => {
                let (r, k) = (w_sign::rrsig(sig), w_sign::dnskey(key));
                let v = w_sign::with_set(set, |s| {
                    if *reorder {
                        let mut s = s.clone();
                        s.canonical_reorder();
                        r.verify(&k, &s)
                    } else {
                        r.verify(&k, s)
                    }
                });
                let _ = match v {
                    Ok(x) => write!(o, "{x}"),
                    Err(e) => write!(o, "{e}"),
                };
            }
            What::Ds { owner, key, t } => {
                let k = w_sign::dnskey(key);
                match rd::Ds::try_from_dnskey(&full::fqdn(owner), &k, (*t).try_into().expect("digest type")) {
                    Ok(d) => {
                        let _ = write!(o, "{} {:?}", d.hex_digest(), full::observe_rdata(&maybe_dns::RecordData::DS(d)).1);
                    }
                    Err(e) => {
                        let _ = write!(o, "{e}");
                    }
                }
            }
            What::Cursor { d, at, ops } => flavour!(self, n, {
                let got = n::cursor_from(d, *at, ops);
                debug(&mut o, got.iter().map(|g| (&g.out, g.pos, g.rest)).collect::<Vec<_>>());
            }),
            What::Names(v) => flavour!(self, n, {
                let f: Vec<_> = v.iter().map(n::fqdn).collect();
                for a in &f {
                    let _ = write!(o, "{a} {a:?} {:?} {} {} ", n::name_of(a), a.is_root(), a.is_link_local());
                    for b in &f {
                        let _ = write!(o, "{:?}{}", a.cmp(b), a == b);
                    }
                }
            }),
            What::Data(t, v) => flavour!(self, n, {
                let mut out = Vec::new();
                for f in v {
                    n::one_rdata(*t, f, &mut out);
                }
                texts(&mut o, &out);
            }),
            What::Shared(i, how) => {
                if self.plain {
                    use_shared!(plain, shared[*i].plain.as_ref().expect("plain build"), how, o)
                } else {
                    use_shared!(full, &shared[*i].full, how, o)
                }
            }
        }
        o
    }
    pub fn label(&self) -> String {
        let f = if self.plain { "plain" } else { "full" };
        match &self.what {
            What::Decode(d) => format!("decode({f}) {} bytes {}", d.len(), model::short_hex(d)),
            What::Part { d, kind, at, .. } => format!("decode part {kind} at {at}({f}) of {} bytes", d.len()),
            What::Build(m, e) => format!("build({f}) {} questions, {:?} records, {} edits", m.q.len(), m.s.each_ref().map(|s| s.len()), e.len()),
            What::Sign { set, key, .. } => format!("sign {} records of type {} with algorithm {:?}", set.rds.len(), set.rtype, key[2]),
            What::Verify { set, key, .. } => format!("verify {} records of type {} with algorithm {:?}", set.rds.len(), set.rtype, key[2]),
            What::Ds { t, .. } => format!("delegation digest {t}"),
            What::Cursor { ops, .. } => format!("{} cursor operations({f})", ops.len()),
            What::Data(t, v) => format!("{} pieces of data of type {t}({f})", v.len()),
            What::Names(v) => format!("{} names({f})", v.len()),
            What::Shared(i, h) => format!("use {h} of shared message {i}({f})"),
        }
    }
}
/// A name a badly keyed store might confuse with the given one.
fn near(c: &mut Ctx, n: &Name) -> Name {
    let mut n = n.clone();
    if n.is_empty() {
        return vec![b"a".to_vec()];
    }
    let i = c.g.idx(n.len());
    match c.g.below(6) {
        0 => n.reverse(),
        1 => {
            n.remove(i);
        }
        2 => {
            let l = n[i].len();
            if l > 0 {
                n[i][l - 1] ^= 1;
            }
        }
        3 => n[i].make_ascii_uppercase(),
        4 => n.rotate_left(1),
        _ => {
            // the same letters, other labels
            if n.len() > 1 && n[0].len() + n[1].len() < 63 {
                let x = n.remove(0);
                n[0].splice(0..0, x);
            }
        }
    }
    n
}
fn vary(c: &mut Ctx, cfg: &mut Cfg, m: &Msg) -> Msg {
    let mut m = m.clone();
    match c.g.below(8) {
        0 | 1 => (),
        2..=4 => {
            for _ in 0..1 + c.g.idx(2) {
                let e = w_edit::edit(c, cfg, &m);
                e.apply(&mut m, true);
            }
            m.flags = full::visible_flags(m.flags) & 0xffff;
        }
        _ => {
            // the same record with other data
            let k: usize = m.s.iter().map(|s| s.len()).sum();
            if k > 0 && c.g.pct(50) {
                let i = c.g.idx(k);
                let r = m.s.iter_mut().flatten().nth(i).unwrap();
                r.rd = gen::rdata(&mut c.g, cfg, r.rtype);
            }
            let n = m.q.len() + m.s.iter().map(|s| s.len()).sum::<usize>();
            if n > 0 {
                let i = c.g.idx(n);
                let mut names: Vec<&mut Name> = m.q.iter_mut().map(|q| &mut q.name).collect();
                for s in m.s.iter_mut() {
                    names.extend(s.iter_mut().map(|r| &mut r.name));
                }
                let x = near(c, names[i]);
                *names[i] = x;
            }
        }
    }
    m
}

pub struct Plan {
    pub shared: Vec<Msg>,
    /// no DNSSEC types: both builds can hold the messages
    pub both: bool,
    pub ops: Vec<Op>,
}

/// Draws calls that resemble each other. Does not touch the library.
pub fn draw(c: &mut Ctx, n: usize, heavy: bool) -> Plan {
    let both = c.g.pct(40);
    let mut cfg = gen::cfg(&mut c.g, !both, false);
    cfg.max_rr = cfg.max_rr.min(4);
    cfg.max_q = cfg.max_q.min(2);
    cfg.max_blob = cfg.max_blob.min(120);
    cfg.budget = cfg.budget.min(4000);
    cfg.empty_labels = false;
    cfg.gw_none = false;
    if c.g.pct(35) {
        // everything is about one type
        let all: Vec<u16> = model::TYPES.iter().filter(|t| !both || !t.2).map(|t| t.0).collect();
        cfg.types = vec![all[c.g.idx(all.len())]];
    }
    let mut base = gen::msg(&mut c.g, &mut cfg);
    for s in base.s.iter_mut() {
        s.iter_mut().for_each(|r| r.top = false);
    }
    let shared: Vec<Msg> = (0..1 + c.g.idx(2)).map(|_| vary(c, &mut cfg, &base)).collect();
    // one signer
    let alg = if heavy { w_sign::alg(c) } else { c.g.pick(&[15u8, 13, 16, 8]) };
    let key = w_sign::key(c, alg, true);
    let flags = w_sign::key_flags(c);
    let mut f = w_sign::cfg(c);
    f.pool = cfg.pool.clone();
    let set = w_sign::set(c, &mut f, false);
    let signer = gen::name(&mut c.g, &mut f);
    let kf = w_sign::key_fields(flags, alg, &key.public);
    let sig = w_sign::ref_sign(c, flags, alg, key, &set, &signer);
    let only_plain = both && c.g.pct(20);
    let kinds: Vec<u64> = match c.g.below(8) {
        0 => vec![0, 1, 2, 3],
        1 => vec![4, 5, 6],
        2 => vec![3],
        3 => vec![2, 3, 8],
        4 => vec![0, 1, 1, 7],
        5 => vec![9],
        6 => vec![9, 2, 0, 3],
        _ => (0..10).collect(),
    };
    let mut ops = Vec::new();
    for _ in 0..n {
        let pl = only_plain || both && c.g.pct(30);
        let ent = 1 + c.g.below(1 << 30);
        let what = match kinds[c.g.idx(kinds.len())] {
            0 => {
                let m = vary(c, &mut cfg, &base);
                let how = c.g.pick(&[Comp::None, Comp::Std, Comp::Wild]);
                What::Decode(model::encode(&m, how, Some(&mut c.g)))
            }
            1 => {
                let m = vary(c, &mut cfg, &base);
                let mut t = std::mem::take(&mut c.tally);
                let d = match c.g.below(4) {
                    0 => {
                        let mut d = model::encode(&m, Comp::Std, None);
                        let n = c.g.idx(d.len());
                        d.truncate(n);
                        d
                    }
                    1 => w_attack::forge(&mut c.g, &mut t),
                    _ => {
                        let (mut d, spans) = {
                            let mut e = model::Enc::new(Comp::Std, None);
                            e.msg(&m);
                            (e.out, e.spans)
                        };
                        let ptr: Vec<_> = spans.iter().filter(|s| s.2 == model::Sp::Ptr).copied().collect();
                        if !ptr.is_empty() && c.g.pct(40) {
                            w_attack::damage(&mut c.g, &mut d, &ptr, &mut t);
                        } else {
                            w_attack::damage(&mut c.g, &mut d, &spans, &mut t);
                        }
                        d
                    }
                };
                c.tally = t;
                if d.len() > 3000 {
                    What::Decode(d[..3000].to_vec())
                } else if c.g.pct(60) {
                    What::Decode(d)
                } else {
                    let at = if c.g.pct(50) { 12.min(d.len()) } else { c.g.idx(d.len() + 1) };
                    let kind = c.g.below(6);
                    let t = cfg.types[c.g.idx(cfg.types.len())];
                    let win = if c.g.pct(30) { Some(c.g.idx(64)) } else { None };
                    What::Part { d, kind, at, win, t }
                }
            }
            2 => {
                let m = vary(c, &mut cfg, &base);
                let mut eds = Vec::new();
                let mut n = m.clone();
                for _ in 0..c.g.idx(4) {
                    let e = w_edit::edit(c, &mut cfg, &n);
                    e.apply(&mut n, !pl);
                    eds.push(e);
                }
                What::Build(m, eds)
            }
            3 => What::Shared(c.g.idx(shared.len()), c.g.below(6) as u8),
            4 => {
                let mut k = kf.clone();
                let mut p = key.private.clone();
                let mut s = set.clone();
                let (mut inc, exp) = (1_700_000_000 + c.g.below(1000), 1_800_000_000);
                match c.g.below(8) {
                    0 => {
                        let l = p.len() / 2;
                        p.truncate(l);
                    }
                    1 => {
                        let i = c.g.idx(p.len());
                        p[i] ^= 1 << c.g.below(8);
                    }
                    2 => inc = 0,
                    3 => s.ttl ^= 1 << c.g.below(31),
                    4 => {
                        s.name = near(c, &s.name);
                    }
                    5 => k[0] = F::N(w_sign::key_flags(c) as u64),
                    6 => k[2] = F::N(c.g.pick(model::DNSSEC_ALGS)),
                    _ => (),
                }
                What::Sign { key: k, private: p, set: s, inc, exp }
            }
            5 => {
                let (mut k, mut g, mut s) = (kf.clone(), sig.clone(), set.clone());
                match c.g.below(9) {
                    0 => {
                        // another key with the same tag
                        let mut b = w_sign::key_bytes(&k).to_vec();
                        if b.len() > 8 {
                            let i = 4 + 2 * c.g.idx((b.len() - 6) / 2);
                            b.swap(i, i - 2);
                            b.swap(i + 1, i - 1);
                        }
                        k[3] = F::B(b);
                    }
                    1 => {
                        let mut b = w_sign::sig_bytes(&g).to_vec();
                        let i = c.g.idx(b.len());
                        b[i] ^= 1 << c.g.below(8);
                        g[8] = F::B(b);
                    }
                    2 => s.ttl ^= 1 << c.g.below(31),
                    3 => s.name = near(c, &s.name),
                    4 => {
                        s.rds.pop();
                    }
                    5 => {
                        let r = gen::rdata(&mut c.g, &mut f, s.dtype);
                        let i = c.g.idx(s.rds.len());
                        s.rds[i] = r;
                    }
                    6 => g[5] = F::N(w_sign::num(&g[5]) ^ 1),
                    _ => (),
                }
                What::Verify { sig: g, key: k, set: s, reorder: c.g.pct(50) }
            }
            6 => {
                let mut k = kf.clone();
                let mut owner = signer.clone();
                match c.g.below(4) {
                    0 => k[0] = F::N(w_sign::num(&k[0]) ^ 1),
                    1 => owner = near(c, &owner),
                    2 => {
                        let mut b = w_sign::key_bytes(&k).to_vec();
                        let i = c.g.idx(b.len());
                        b[i] ^= 1;
                        k[3] = F::B(b);
                    }
                    _ => (),
                }
                What::Ds { owner, key: k, t: c.g.pick(&[1, 2, 4, 5]) }
            }
            7 => {
                let d = model::encode(&base, Comp::Std, None);
                let at = c.g.idx(d.len().min(14) + 1);
                let ops = w_cursor::ops(&mut c.g, d.len(), 1);
                What::Cursor { d, at, ops }
            }
            9 => {
                let t = cfg.types[c.g.idx(cfg.types.len())];
                let k = 1 + c.g.idx(2);
                What::Data(t, (0..k).map(|_| gen::rdata(&mut c.g, &mut cfg, t)).collect())
            }
            _ => {
                let a = gen::name(&mut c.g, &mut cfg);
                let b = near(c, &a);
                let d = gen::name(&mut c.g, &mut cfg);
                What::Names(vec![a, b, d])
            }
        };
        ops.push(Op { plain: pl && !matches!(what, What::Sign { .. } | What::Verify { .. } | What::Ds { .. }), ent, what });
    }
    Plan { shared, both, ops }
}
