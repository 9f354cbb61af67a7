//! Signer, relays with stores, attacker, validators. C09, C10, C11, C12, C15.
use crate::engine::{bad, Ctx, Res, V};
use crate::full;
use crate::gen::{self, Cfg};
use crate::model::{self, Msg, Name, Rr, F};
use crate::pk::{Fl, Pk};
use crate::rt;
use crate::sec::{self, Key, Set};
use maybe_dns::{rdata as rd, RecordData, RecordType, ResourceRecordSet};
use std::collections::BTreeMap;
use std::time::{Duration, SystemTime, UNIX_EPOCH};

pub fn alg(c: &mut Ctx) -> u8 {
    match c.g.below(3) {
        0 => c.g.pick(&[15, 13, 16]),
        _ => c.g.pick(sec::SIGNING),
    }
}
pub fn key(c: &mut Ctx, alg: u8, lib: bool) -> &'static Key {
    let v = sec::keys_of(alg, lib);
    let k = &sec::pool()[v[c.g.idx(v.len())]];
    if alg == 1 || alg == 5 {
        // big keys are slow with these
        if sec::bits(k) > 1100 && !c.g.pct(20) {
            return &sec::pool()[v[0]];
        }
    }
    k
}
pub fn key_flags(c: &mut Ctx) -> u16 {
    match c.g.below(6) {
        0..=2 => 0x100,
        3 => 0x101,
        4 => 0,
        _ => c.g.num(0xffff) as u16,
    }
}
pub fn key_fields(flags: u16, alg: u8, public: &[u8]) -> Vec<F> {
    vec![F::N(flags as u64), F::N(3), F::N(alg as u64), F::B(public.to_vec())]
}

pub fn cfg(c: &mut Ctx) -> Cfg {
    let mut f = gen::cfg(&mut c.g, true, false);
    f.types.retain(|t| !matches!(t, 41 | 249 | 250));
    if f.types.is_empty() {
        f.types.push(1);
    }
    f.max_blob = f.max_blob.min(300);
    f.empty_labels = false;
    f
}
fn same_wire(t: u16, a: &[F], b: &[F]) -> bool {
    model::encode_rdata(t, a) == model::encode_rdata(t, b)
}
pub fn set(c: &mut Ctx, f: &mut Cfg, low: bool) -> Set {
    let t = f.types[c.g.idx(f.types.len())];
    let mut name = gen::name(&mut c.g, f);
    if c.g.pct(8) && model::wire_len(&name) < 250 {
        name.insert(0, b"*".to_vec());
    }
    let n = match c.g.below(8) {
        0..=2 => 1,
        3..=5 => 2,
        6 => 3 + c.g.idx(3),
        _ => 6 + c.g.idx(15),
    };
    let mut s = Set { name, rtype: t, dtype: t, class: gen::class(&mut c.g, f, t) & 0x7fff, ttl: c.g.num(u32::MAX as u64) as u32, rds: Vec::new() };
    for _ in 0..n {
        let mut r = gen::rdata(&mut c.g, f, t);
        if low {
            sec::lower_rd(&mut r);
        }
        if !s.rds.iter().any(|x| same_wire(t, x, &r)) {
            s.rds.push(r);
        }
    }
    if c.g.below(120) == 119 {
        // many small records, or one as large as a message can carry
        s.dtype = 10;
        s.rtype = 10;
        s.rds.clear();
        if c.g.pct(60) {
            let n = 21 + c.g.idx(300);
            let n = if c.g.pct(50) { n } else { c.g.pick(&[255, 256, 257, 300, 512, 700]) };
            let w = 2 + c.g.idx(3);
            let odd = 1 | c.g.below(1 << 30);
            for i in 0..n as u64 {
                // all different, in no order
                let x = ((i * odd) as u16).to_be_bytes();
                let mut r = vec![b'r'; w];
                r[w - 2..].copy_from_slice(&x);
                s.rds.push(vec![F::B(r)]);
            }
        } else {
            let n = c.g.pick(&[4_096usize, 16_384, 32_767, 32_768, 60_000]);
            let b = c.g.u8();
            s.rds.push(vec![F::B(vec![b; n])]);
            if n < 30_000 {
                s.rds.push(vec![F::B(vec![b; n + 1])]);
            }
        }
    }
    if low {
        s.name = sec::lower(&s.name);
    }
    // data that only differs late or is a prefix of other data
    if s.rds.len() == 1 && matches!(t, 10 | 16 | 61) && c.g.pct(40) {
        let mut a = s.rds[0].clone();
        match &mut a[0] {
            F::B(b) => b.push(c.g.u8()),
            F::List(l) => l.push(vec![b'x'; c.g.idx(3)]),
            _ => (),
        }
        s.rds.push(a);
    }
    s
}

/// A value of the library built from a set; `f` gets the borrowed view the library wants.
pub fn with_set<T>(s: &Set, f: impl FnOnce(&ResourceRecordSet) -> T) -> T {
    let name = full::fqdn(&s.name);
    let rds: Vec<RecordData> = s.rds.iter().map(|r| full::rdata(s.dtype, r)).collect();
    let set = ResourceRecordSet::new(&name, RecordType::try_from(s.rtype).expect("type"), full::class(s.class), s.ttl, rds.iter().collect());
    f(&set)
}
pub fn dnskey(k: &[F]) -> rd::DnsKey {
    match full::rdata(48, k) {
        RecordData::DNSKEY(k) => k,
        _ => panic!("key"),
    }
}
pub fn rrsig(f: &[F]) -> rd::Rrsig {
    match full::rdata(46, f) {
        RecordData::RRSIG(k) => k,
        _ => panic!("signature"),
    }
}
/// The library's signature as the fields an independent reader sees.
pub fn fields(s: &rd::Rrsig) -> Vec<F> {
    full::observe_rdata(&RecordData::RRSIG(s.clone())).1
}
pub fn when(c: &mut Ctx) -> (SystemTime, SystemTime) {
    let now = 1_700_000_000 + c.g.below(400_000_000);
    let len = match c.g.below(16) {
        0 => 0,
        1 => 1,
        2 => return (UNIX_EPOCH + Duration::from_secs(now), UNIX_EPOCH + Duration::from_secs(now - 1 - c.g.below(100_000))),
        _ => c.g.below(60 * 86400),
    };
    (UNIX_EPOCH + Duration::from_secs(now), UNIX_EPOCH + Duration::from_secs(now + len))
}
pub fn lib_sign(c: &mut Ctx, key: &[F], private: &[u8], s: &Set, inc: &SystemTime, exp: &SystemTime) -> Result<Result<Vec<F>, String>, V> {
    c.lib("signing", || {
        let k = dnskey(key);
        with_set(s, |set| rd::Rrsig::from_dnskey(&k, set, inc, exp, private)).map(|r| fields(&r)).map_err(full::report)
    })
}
pub fn lib_verify(c: &mut Ctx, sig: &[F], key: &[F], s: &Set, reorder: bool) -> Result<Result<bool, String>, V> {
    c.lib("verifying", || {
        let (r, k) = (rrsig(sig), dnskey(key));
        with_set(s, |set| {
            if reorder {
                let mut set = set.clone();
                set.canonical_reorder();
                r.verify(&k, &set)
            } else {
                r.verify(&k, set)
            }
        })
        .map_err(full::report)
    })
}
pub fn ref_sign(c: &mut Ctx, flags: u16, alg: u8, key: &Key, s: &Set, signer: &Name) -> Vec<F> {
    let now = 1_700_000_000 + c.g.below(400_000_000);
    let len = if c.g.pct(10) { 0 } else { c.g.below(60 * 86400) };
    let tag = sec::key_tag(flags, 3, alg, &key.public);
    let mut f = vec![
        F::N(s.rtype as u64),
        F::N(alg as u64),
        F::N(sec::labels(&s.name)),
        F::N(s.ttl as u64),
        F::N((now + len) & 0xffff_ffff),
        F::N(now & 0xffff_ffff),
        F::N(tag as u64),
        F::Name(signer.clone()),
        F::B(Vec::new()),
    ];
    let d = sec::signed_data(&f, s);
    f[8] = F::B(sec::sign(alg, key, &d));
    f
}
pub fn sig_bytes(f: &[F]) -> &[u8] {
    match &f[8] {
        F::B(b) => b,
        _ => panic!("signature"),
    }
}
pub fn num(f: &F) -> u64 {
    match f {
        F::N(n) => *n,
        _ => panic!("number"),
    }
}
pub fn key_bytes(f: &[F]) -> &[u8] {
    match &f[3] {
        F::B(b) => b,
        _ => panic!("key"),
    }
}
fn ref_verify(sig: &[F], key: &[F], s: &Set) -> bool {
    let d = sec::signed_data(sig, s);
    num(&sig[1]) == num(&key[2]) && sec::verify(num(&key[2]) as u8, key_bytes(key), &d, sig_bytes(sig))
}

// ---------------------------------------------------------------- transport

#[derive(Clone)]
pub struct Flight {
    /// what travels: (message index, hop)
    pub part: usize,
    pub hop: usize,
    pub bytes: Vec<u8>,
}

/// A node passes a message on: decode, perhaps reorder and store, encode.
fn relay(c: &mut Ctx, fl: Fl, bytes: &[u8], reorder: bool) -> Result<Vec<u8>, V> {
    let k = match Pk::decode(c, fl, bytes)? {
        Ok(k) => k,
        Err(e) => return bad("refused", format!("a {fl:?} relay refuses an undamaged message: {e}; {}", model::short_hex(bytes))),
    };
    let mut k = k;
    if reorder {
        // rotate the answers, as resolvers do
        let seed = 1 + c.g.below(1 << 30);
        k = match k {
            Pk::Full(mut p) => {
                let p = c.lib("reordering", || {
                    let mut v = p.take_answers();
                    shuffle(&mut v, seed);
                    p.set_answers(v);
                    p
                })?;
                Pk::Full(p)
            }
            Pk::Foreign(mut m) => {
                shuffle(&mut m.s[0], seed);
                Pk::Foreign(m)
            }
            x => x,
        };
    }
    let comp = c.g.pct(50);
    let mut w = k.encode(c, comp)?;
    if c.g.pct(20) {
        c.count("fault relay restarted from its store");
        let k = match Pk::decode(c, fl, &w)? {
            Ok(k) => k,
            Err(e) => return bad("refused", format!("a {fl:?} relay cannot read its own store: {e}")),
        };
        let comp = c.g.pct(50);
        w = k.encode(c, comp)?;
    }
    Ok(w)
}
fn shuffle<T>(v: &mut [T], mut s: u64) {
    for i in (1..v.len()).rev() {
        s = rt::mix(s);
        v.swap(i, (s % (i as u64 + 1)) as usize);
    }
}

struct Validator {
    fl: Fl,
    parts: Vec<bool>,
    got: Vec<Rr>,
    raw: Vec<maybe_dns::ResourceRecord>,
    checked: u64,
}

pub fn c09(c: &mut Ctx) -> Res {
    rt::set_entropy(1 + c.g.below(1 << 40));
    let foreign_signer = c.g.pct(35);
    let nv = 1 + c.g.idx(2);
    let mut vals: Vec<Validator> = Vec::new();
    for _ in 0..nv {
        let fl = if foreign_signer || !c.g.pct(30) { Fl::Full } else { Fl::Foreign };
        vals.push(Validator { fl, parts: Vec::new(), got: Vec::new(), raw: Vec::new(), checked: 0 });
    }
    let low = foreign_signer || vals.iter().any(|v| v.fl == Fl::Foreign);
    let mut f = cfg(c);
    let a = alg(c);
    let k = key(c, a, !foreign_signer);
    let flags = key_flags(c);
    let s = set(c, &mut f, low);
    let kf = key_fields(flags, a, &k.public);
    c.log(|| format!("{} signs {} {:?} records of type {} at {:?}, algorithm {a}, key {}", if foreign_signer { "foreign node" } else { "library" }, s.rds.len(), s.class, s.rtype, s.name, k.kind));
    let signer = if c.g.pct(50) || s.name.is_empty() { s.name.clone() } else { s.name[1..].to_vec() };
    let sig = if foreign_signer {
        ref_sign(c, flags, a, k, &s, &signer)
    } else {
        let (i, e) = when(c);
        match lib_sign(c, &kf, &k.private, &s, &i, &e)? {
            Ok(x) => x,
            Err(e) => return bad("unsigned", format!("signing with a good key of algorithm {a} ({}) fails: {e}", k.kind)),
        }
    };
    c.ev(a as u64);
    c.ev_bytes(&model::encode_rdata(46, &sig[..8].iter().cloned().chain([F::B(vec![])]).collect::<Vec<_>>()));
    // messages: set, signature and key in one or several
    let np = 1 + c.g.idx(3);
    let mut parts: Vec<Msg> = (0..np).map(|i| Msg { id: i as u16, flags: 0x8400, ..Default::default() }).collect();
    let mk = |t: u16, rd: Vec<F>| Rr { name: s.name.clone(), rtype: t, class: s.class, top: false, ttl: s.ttl, rd };
    let mut rrs: Vec<Rr> = s.rds.iter().map(|r| mk(s.rtype, r.clone())).collect();
    let sigrr = mk(46, sig.clone());
    let keyrr = Rr { name: signer.clone(), rtype: 48, class: 1, top: false, ttl: 3600, rd: kf.clone() };
    if c.g.pct(30) {
        // other names around it
        for _ in 0..c.g.idx(3) {
            let mut r = gen::rr(&mut c.g, &mut f);
            if !matches!(r.rtype, 46 | 48) && (r.name != s.name || r.rtype != s.rtype) {
                r.top = false;
                let p = c.g.idx(np);
                parts[p].s[2].push(r);
            }
        }
    }
    shuffle(&mut rrs, c.g.below(1 << 30));
    for r in rrs {
        let p = c.g.idx(np);
        parts[p].s[0].push(r);
    }
    let p = c.g.idx(np);
    parts[p].s[0].push(sigrr.clone());
    let p = c.g.idx(np);
    let sct = c.g.pick(&[0, 2]);
    parts[p].s[sct].push(keyrr.clone());
    // network
    let mut now = 0u64;
    let mut seq = 0u64;
    let mut q: BTreeMap<(u64, u64), (usize, usize, usize, Vec<u8>)> = BTreeMap::new();
    let loss = c.g.pick(&[0, 0, 10, 40]);
    let dup = c.g.pick(&[0, 20]);
    let jitter = 1 + c.g.pick(&[100, 1_000_000]);
    let calm = 3_000_000;
    let hops: Vec<Vec<Fl>> = (0..nv)
        .map(|_| {
            let n = c.g.idx(4);
            (0..n).map(|_| c.g.pick(&[Fl::Full, Fl::Foreign, Fl::Full])).collect()
        })
        .collect();
    let sender = if foreign_signer { Fl::Foreign } else { Fl::Full };
    let origin = |c: &mut Ctx, p: usize| -> Result<Vec<u8>, V> {
        let pk = Pk::make(c, sender, &parts[p])?;
        let comp = c.g.pct(50);
        pk.encode(c, comp)
    };
    for v in &mut vals {
        v.parts = vec![false; np];
    }
    for v in 0..nv {
        for p in 0..np {
            let b = origin(c, p)?;
            seq += 1;
            q.insert((c.g.below(jitter), seq), (v, p, 0, b));
        }
    }
    let mut steps = 0;
    while let Some(((t, _), (v, p, hop, bytes))) = q.pop_first() {
        now = now.max(t);
        steps += 1;
        if steps > 400 {
            break;
        }
        if now < calm && c.g.pct(loss) {
            c.count("fault message lost");
            c.ev(1);
            let b = origin(c, p)?;
            seq += 1;
            q.insert((now + 500_000 + c.g.below(jitter), seq), (v, p, 0, b));
            continue;
        }
        if now < calm && c.g.pct(dup) {
            c.count("fault duplicated");
            c.ev(2);
            seq += 1;
            q.insert((now + 1 + c.g.below(jitter), seq), (v, p, hop, bytes.clone()));
        }
        if hop < hops[v].len() {
            let re = c.g.pct(50);
            let w = relay(c, hops[v][hop], &bytes, re)?;
            c.count("messages relayed");
            seq += 1;
            q.insert((now + 1 + c.g.below(jitter), seq), (v, p, hop + 1, w));
            continue;
        }
        // arrival
        let val = &mut vals[v];
        match val.fl {
            Fl::Foreign => match model::decode_strict(&bytes) {
                Err(e) => return bad("wire", format!("validator cannot read a message: {e}; {}", model::short_hex(&bytes))),
                Ok((m, _)) => {
                    for r in m.s.iter().flatten() {
                        if !val.got.contains(r) {
                            val.got.push(r.clone());
                        }
                    }
                }
            },
            _ => match c.lib("decoding", || full::decode(&bytes))? {
                Err(e) => return bad("refused", format!("validator refuses an undamaged message: {e}; {}", model::short_hex(&bytes))),
                Ok(pk) => c.lib("collecting", || {
                    for r in pk.answers().iter().chain(pk.authorities()).chain(pk.additionals()) {
                        if !val.raw.contains(r) {
                            val.raw.push(r.clone());
                        }
                    }
                })?,
            },
        }
        val.parts[p] = true;
        c.ev(100 + v as u64 * 10 + p as u64);
        if val.parts.iter().all(|x| *x) {
            let reorder = c.g.pct(30);
            validate(c, val, &s, &sig, &kf, k.kind, reorder)?;
        }
    }
    if let Some(i) = vals.iter().position(|v| v.checked == 0) {
        if steps <= 400 {
            return bad("HARNESS", format!("validator {i} never got everything"));
        }
    }
    c.sim_us += now;
    Ok(())
}

fn is(r: (u16, &[F]), t: u16, want: &[F]) -> bool {
    r.0 == t && same_wire(t, r.1, want)
}
/// A validator that has received everything looks up what it needs and checks the signature.
fn validate(c: &mut Ctx, val: &mut Validator, s: &Set, sig: &[F], key: &[F], kind: &str, reorder: bool) -> Res {
    let at = format!("algorithm {} ({kind}), {} records of type {} at {:?}", num(&key[2]), s.rds.len(), s.rtype, s.name);
    if val.fl == Fl::Foreign {
        let has = |t: u16, f: &[F]| val.got.iter().any(|r| is((r.rtype, &r.rd), t, f));
        let own: Vec<&Rr> = val.got.iter().filter(|r| r.name == model::norm(&s.name) && s.rds.iter().any(|x| is((r.rtype, &r.rd), s.rtype, x))).collect();
        if !has(46, sig) || !has(48, key) || own.len() < s.rds.len() {
            return bad("lost", format!("{at}: a foreign validator does not find the signature, the key or all records as they were sent"));
        }
        let got = Set { class: own[0].class, ttl: own[0].ttl, ..s.clone() };
        c.count("checked by a foreign validator");
        if !ref_verify(sig, key, &got) {
            return bad("rejected-abroad", format!("{at}: a standards-conforming validator rejects the signature"));
        }
    } else {
        let raw = &val.raw;
        let name = full::fqdn(&s.name);
        let verdict = c.lib("verifying", || {
            let (mut sg, mut ky, mut own) = (None, None, Vec::new());
            for r in raw {
                let (t, f) = full::observe_rdata(r.data());
                if let (RecordData::RRSIG(x), true) = (r.data(), is((t, &f), 46, sig)) {
                    sg = Some(x);
                }
                if let (RecordData::DNSKEY(x), true) = (r.data(), is((t, &f), 48, key)) {
                    ky = Some(x);
                }
                if r.name() == &name && s.rds.iter().any(|x| is((t, &f), s.rtype, x)) && !own.iter().any(|o: &&maybe_dns::ResourceRecord| o.data() == r.data()) {
                    own.push(r);
                }
            }
            let (Some(sg), Some(ky)) = (sg, ky) else { return Err("signature or key are not among the received records".to_string()) };
            if own.len() != s.rds.len() {
                return Err(format!("{} of {} records received as sent", own.len(), s.rds.len()));
            }
            let mut set = ResourceRecordSet::new(own[0].name(), *own[0].record_type(), *own[0].class(), own[0].time_to_live(), own.iter().map(|r| r.data()).collect());
            if reorder {
                set.canonical_reorder();
            }
            match sg.verify(ky, &set) {
                Ok(true) => Ok(()),
                Ok(false) => Err("verify says false".into()),
                Err(e) => Err(format!("verify fails: {e}")),
            }
        })?;
        if let Err(e) = verdict {
            return bad("rejected", format!("{at}: a genuine signature is not accepted: {e}"));
        }
        c.count("checked by the library");
    }
    val.checked += 1;
    c.nontrivial = true;
    Ok(())
}

// ---------------------------------------------------------------- attacker

#[derive(Clone)]
struct Case {
    s: Set,
    sig: Vec<F>,
    key: Vec<F>,
}
/// What the signature depends on, with the letters of names folded: two cases with the same view
/// are the same to a validator.
fn view(k: &Case) -> (Vec<u8>, Vec<u8>, u64, Vec<u8>) {
    let mut s = k.s.clone();
    s.name = sec::lower(&s.name);
    s.rds.iter_mut().for_each(|r| sec::lower_rd(r));
    let mut sig = k.sig.clone();
    sec::lower_rd(&mut sig);
    (sec::signed_data(&sig, &s), sig_bytes(&k.sig).to_vec(), num(&k.key[2]), key_bytes(&k.key).to_vec())
}
fn mutate_bytes(c: &mut Ctx, b: &mut Vec<u8>) {
    match c.g.below(8) {
        0 | 1 | 2 if !b.is_empty() => {
            let i = c.g.idx(b.len());
            b[i] ^= 1 << c.g.below(8);
        }
        3 if !b.is_empty() => {
            let n = 1 + c.g.idx(b.len().min(4));
            b.truncate(b.len() - n);
        }
        4 => b.push(c.g.u8()),
        5 => b.iter_mut().for_each(|x| *x = 0),
        6 if b.len() > 1 => {
            let i = c.g.idx(b.len() - 1);
            b.swap(i, i + 1);
        }
        7 => b.clear(),
        _ => b.push(0),
    }
}
fn other_num(c: &mut Ctx, v: u64, bits: u32) -> u64 {
    let m = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
    match c.g.below(4) {
        0 => v ^ 1 << c.g.below(bits as u64),
        1 => v.wrapping_add(1) & m,
        2 => v.wrapping_sub(1) & m,
        _ => c.g.num(m),
    }
}
fn other_name(c: &mut Ctx, f: &mut Cfg, n: &Name) -> Name {
    let mut n = n.clone();
    match c.g.below(6) {
        0 if !n.is_empty() => {
            let i = c.g.idx(n.len());
            let j = c.g.idx(n[i].len().max(1)).min(n[i].len().saturating_sub(1));
            if !n[i].is_empty() {
                n[i][j] = n[i][j].wrapping_add(1);
            }
        }
        1 if !n.is_empty() => {
            n.remove(0);
        }
        2 if model::wire_len(&n) < 250 => n.insert(0, vec![b'a' + c.g.u8() % 26]),
        3 if n.len() > 1 => {
            let a = n.remove(0);
            n.push(a);
        }
        4 if !n.is_empty() && model::wire_len(&n) < 250 => {
            // a dot inside a label or a split label
            let i = c.g.idx(n.len());
            if n[i].len() > 1 {
                let k = 1 + c.g.idx(n[i].len() - 1);
                let b = n[i].split_off(k);
                n.insert(i + 1, b);
            }
        }
        _ => n = gen::name(&mut c.g, f),
    }
    sec::lower(&n)
}
const RECORD_TYPES: &[u16] = &[1, 2, 5, 6, 10, 12, 15, 16, 28, 33, 43, 46, 47, 48, 52, 59, 60, 64, 257];

fn tamper(c: &mut Ctx, f: &mut Cfg, k: &mut Case, old: Option<&Case>) -> &'static str {
    let t = k.s.rtype;
    match c.g.below(30) {
        0 | 1 => {
            let n = other_name(c, f, &k.s.name);
            k.s.name = n;
            "owner name"
        }
        2 => {
            k.s.rtype = c.g.pick(RECORD_TYPES);
            if c.g.pct(50) {
                k.sig[0] = F::N(k.s.rtype as u64);
            }
            "type of the set"
        }
        3 => {
            k.s.class = (other_num(c, k.s.class as u64, 15)) as u16;
            "class"
        }
        4 | 5 => {
            k.s.ttl = other_num(c, k.s.ttl as u64, 32) as u32;
            if c.g.pct(40) {
                k.sig[3] = F::N(k.s.ttl as u64);
            }
            "time-to-live"
        }
        6 | 7 => {
            let r = gen::rdata(&mut c.g, f, k.s.dtype);
            if !k.s.rds.iter().any(|x| same_wire(k.s.dtype, x, &r)) {
                let at = c.g.idx(k.s.rds.len() + 1);
                k.s.rds.insert(at, r);
            }
            "record added"
        }
        8 | 9 => {
            if !k.s.rds.is_empty() {
                let i = c.g.idx(k.s.rds.len());
                k.s.rds.remove(i);
            }
            "record removed"
        }
        10..=12 => {
            if !k.s.rds.is_empty() {
                let i = c.g.idx(k.s.rds.len());
                let r = gen::rdata(&mut c.g, f, k.s.dtype);
                if c.g.pct(40) || !change_field(c, &mut k.s.rds[i]) {
                    k.s.rds[i] = r;
                }
            }
            "record data"
        }
        13 => {
            // two records become one with the same bytes in a row
            if k.s.rds.len() > 1 && matches!(t, 10 | 61) && k.s.dtype == t {
                let mut w: Vec<Vec<u8>> = k.s.rds.iter().map(|r| model::encode_rdata(t, r)).collect();
                w.sort();
                let mut m = w.remove(0);
                m.extend(model::encode_name(&k.s.name));
                m.extend(t.to_be_bytes());
                m.extend(k.s.class.to_be_bytes());
                m.extend(k.s.ttl.to_be_bytes());
                if c.g.pct(50) {
                    m.extend((w[0].len() as u16).to_be_bytes());
                }
                m.extend(w.remove(0));
                k.s.rds = vec![vec![F::B(m)]];
                k.s.rds.extend(w.into_iter().map(|x| vec![F::B(x)]));
            } else if t == 16 && !k.s.rds.is_empty() {
                // strings glued or split
                if let F::List(l) = &mut k.s.rds[0][0] {
                    if l.len() > 1 && l[0].len() + l[1].len() < 256 {
                        let b = l.remove(1);
                        l[0].extend(b);
                    } else if let Some(x) = l.first_mut() {
                        if x.len() > 1 && x.is_ascii() {
                            let b = x.split_off(1);
                            l.insert(1, b);
                        }
                    }
                }
            }
            "records glued"
        }
        14 => {
            k.sig[0] = F::N(c.g.pick(RECORD_TYPES) as u64);
            "covered type"
        }
        15 => {
            let a = c.g.pick(model::DNSSEC_ALGS);
            match c.g.below(10) {
                0..=5 => {
                    k.sig[1] = F::N(a);
                    k.key[2] = F::N(a);
                }
                6..=7 => k.sig[1] = F::N(a),
                _ => k.key[2] = F::N(a),
            }
            "algorithm"
        }
        16 => {
            k.sig[2] = F::N(other_num(c, num(&k.sig[2]), 8));
            "labels"
        }
        17 => {
            k.sig[3] = F::N(other_num(c, num(&k.sig[3]), 32));
            "original time-to-live"
        }
        18 => {
            k.sig[4] = F::N(other_num(c, num(&k.sig[4]), 32));
            "expiration"
        }
        19 => {
            k.sig[5] = F::N(other_num(c, num(&k.sig[5]), 32));
            "inception"
        }
        20 => {
            k.sig.swap(4, 5);
            "inception and expiration exchanged"
        }
        21 => {
            k.sig[6] = F::N(other_num(c, num(&k.sig[6]), 16));
            "key tag"
        }
        22 => {
            if let F::Name(n) = k.sig[7].clone() {
                k.sig[7] = F::Name(other_name(c, f, &n));
            }
            "signer's name"
        }
        23..=25 => {
            if let F::B(mut b) = k.sig[8].clone() {
                mutate_bytes(c, &mut b);
                k.sig[8] = F::B(b);
            }
            "signature bytes"
        }
        26 => {
            if let F::B(mut b) = k.key[3].clone() {
                mutate_bytes(c, &mut b);
                // an all-zero key is no key: with it anyone can make signatures
                if b.iter().any(|x| *x != 0) {
                    k.key[3] = F::B(b);
                }
            }
            "public key bytes"
        }
        27 => {
            // another key, of this or another algorithm
            let a = if c.g.pct(70) { num(&k.key[2]) as u8 } else { c.g.pick(sec::SIGNING) };
            let v = sec::keys_of(a, false);
            if !v.is_empty() {
                let o = &sec::pool()[v[c.g.idx(v.len())]];
                k.key[3] = F::B(o.public.clone());
                k.key[2] = F::N(a as u64);
                if c.g.pct(50) {
                    k.sig[1] = F::N(a as u64);
                }
                if c.g.pct(50) {
                    k.sig[6] = F::N(sec::key_tag(num(&k.key[0]) as u16, 3, a, &o.public) as u64);
                }
            }
            "another key"
        }
        _ => {
            // parts of another genuine signature
            if let Some(o) = old {
                match c.g.below(6) {
                    0 => k.s = o.s.clone(),
                    1 => k.sig = o.sig.clone(),
                    2 => k.sig[8] = o.sig[8].clone(),
                    3 => {
                        let i = c.g.idx(9);
                        k.sig[i] = o.sig[i].clone();
                    }
                    4 => k.key = o.key.clone(),
                    _ => {
                        k.s.rds = o.s.rds.clone();
                        k.s.dtype = o.s.dtype;
                    }
                }
            }
            "parts of another signature"
        }
    }
}
/// Changes one number, name or byte inside record data where any value is representable.
fn change_field(c: &mut Ctx, r: &mut [F]) -> bool {
    let i = c.g.idx(r.len().max(1));
    if r.len() < 2 {
        if let Some(F::B(b)) = r.get_mut(0) {
            if !b.is_empty() {
                let j = c.g.idx(b.len());
                b[j] ^= 1 << c.g.below(8);
                return true;
            }
        }
        return false;
    }
    match &mut r[i] {
        F::Name(n) if !n.is_empty() && !n[0].is_empty() => {
            n[0][0] = n[0][0].wrapping_add(1);
            true
        }
        _ => false,
    }
}

pub fn c10(c: &mut Ctx) -> Res {
    rt::set_entropy(1 + c.g.below(1 << 40));
    let foreign = c.g.pct(50);
    let mut f = cfg(c);
    let a = alg(c);
    let k = key(c, a, !foreign);
    let flags = key_flags(c);
    let kf = key_fields(flags, a, &k.public);
    let mut make = |c: &mut Ctx, f: &mut Cfg, t: Option<&Set>| -> Result<Option<Case>, V> {
        let mut s = set(c, f, true);
        if let Some(o) = t {
            // a later version of the same set
            if c.g.pct(70) {
                let (n, rds) = (o.name.clone(), s.rds.clone());
                let dt = s.rtype;
                s = Set { name: n, ..o.clone() };
                if dt == o.rtype {
                    s.rds = rds;
                } else if c.g.pct(50) {
                    s.ttl = s.ttl.wrapping_add(1);
                }
            }
        }
        let sig = if foreign {
            let signer = s.name.clone();
            ref_sign(c, flags, a, k, &s, &signer)
        } else {
            let (i, e) = when(c);
            match lib_sign(c, &kf, &k.private, &s, &i, &e)? {
                Ok(x) => x,
                Err(_) => return Ok(None),
            }
        };
        Ok(Some(Case { s, sig, key: kf.clone() }))
    };
    let Some(good) = make(c, &mut f, None)? else {
        c.count("signing failed");
        return Ok(());
    };
    let old = if c.g.pct(40) { make(c, &mut f, Some(&good.s))? } else { None };
    c.log(|| format!("{} signs {} records of type {} at {:?}, algorithm {a}, key {}", if foreign { "foreign node" } else { "library" }, good.s.rds.len(), good.s.rtype, good.s.name, k.kind));
    c.ev(a as u64);
    if lib_verify(c, &good.sig, &good.key, &good.s, false)? != Ok(true) {
        // not this property's business
        c.count("genuine signature not accepted");
        return Ok(());
    }
    let base = view(&good);
    let other = old.as_ref().map(view);
    let n = 4 + c.g.idx(12);
    for _ in 0..n {
        let mut bad_case = good.clone();
        let mut what = Vec::new();
        let wire = c.g.pct(40);
        let flips = wire && c.g.pct(50);
        if !flips {
            let m = match c.g.below(6) {
                0..=3 => 1,
                4 => 2,
                _ => 3,
            };
            for _ in 0..m {
                what.push(tamper(c, &mut f, &mut bad_case, old.as_ref()));
            }
        }
        let got: Option<(Case, Result<bool, String>)> = if wire {
            if bad_case.s.rtype != bad_case.s.dtype || bad_case.s.rds.is_empty() {
                continue;
            }
            let s = &bad_case.s;
            let mut m = Msg { flags: 0x8400, ..Default::default() };
            for r in &s.rds {
                m.s[0].push(Rr { name: s.name.clone(), rtype: s.rtype, class: s.class, top: false, ttl: s.ttl, rd: r.clone() });
            }
            m.s[1].push(Rr { name: s.name.clone(), rtype: 46, class: 1, top: false, ttl: 60, rd: bad_case.sig.clone() });
            m.s[2].push(Rr { name: s.name.clone(), rtype: 48, class: 1, top: false, ttl: 60, rd: bad_case.key.clone() });
            let mut w = model::encode(&m, if c.g.pct(50) { model::Comp::Wild } else { model::Comp::None }, Some(&mut c.g));
            if flips {
                let n = 1 + c.g.idx(3);
                for _ in 0..n {
                    let i = 12 + c.g.idx(w.len() - 12);
                    w[i] ^= 1 << c.g.below(8);
                }
                what.push("bits on the wire");
                c.count("fault bits flipped on the wire");
            }
            receive_tampered(c, &w)?
        } else {
            let r = c.g.pct(20);
            let v = lib_verify(c, &bad_case.sig, &bad_case.key, &bad_case.s, r)?;
            Some((bad_case, v))
        };
        let Some((case, verdict)) = got else {
            c.count("tampered message refused when decoded");
            continue;
        };
        let v = view(&case);
        if v == base || other.as_ref() == Some(&v) {
            c.count("alteration without effect");
            continue;
        }
        c.count("fault tampered");
        for w in &what {
            c.count(w);
        }
        c.ev(verdict.is_ok() as u64);
        c.ev_bytes(&v.0);
        c.ev_bytes(&v.3);
        c.nontrivial = true;
        if verdict == Ok(true) {
            return bad(
                "accepted",
                format!("algorithm {a} ({}): verification succeeds although this was altered: {}; signed: {:?} {:?}; presented: {:?} {:?}", k.kind, what.join(", "), good.s, &good.sig[..8], case.s, &case.sig[..8]),
            );
        }
    }
    Ok(())
}

/// The validator's view of a message with the set in the answers, the signature in the authority
/// and the key in the additional section.
fn receive_tampered(c: &mut Ctx, w: &[u8]) -> Result<Option<(Case, Result<bool, String>)>, V> {
    c.lib("verifying a received message", || {
        let Ok(p) = full::decode(w) else { return None };
        let (Some(RecordData::RRSIG(sig)), Some(RecordData::DNSKEY(key))) = (p.authorities().first().map(|r| r.data()), p.additionals().first().map(|r| r.data())) else { return None };
        let first = p.answers().first()?;
        let own: Vec<&maybe_dns::ResourceRecord> = p.answers().iter().filter(|r| r.name() == first.name() && r.record_type() == first.record_type()).collect();
        let set = ResourceRecordSet::new(first.name(), *first.record_type(), *first.class(), first.time_to_live(), own.iter().map(|r| r.data()).collect());
        let v = sig.verify(key, &set).map_err(full::report);
        let seen: Vec<Rr> = own.iter().map(|r| full::observe_rr(r)).collect();
        if seen[0].rtype == 41 {
            return None;
        }
        let s = Set { name: seen[0].name.clone(), rtype: seen[0].rtype, dtype: seen[0].rtype, class: seen[0].class, ttl: seen[0].ttl, rds: seen.iter().map(|r| r.rd.clone()).collect() };
        let key = full::observe_rdata(&RecordData::DNSKEY(key.clone())).1;
        Some((Case { s, sig: fields(sig), key }, v))
    })
}

// ---------------------------------------------------------------- randomness failures

pub fn c11(c: &mut Ctx) -> Res {
    // the process's hash seeds were drawn long ago
    let _warm: std::collections::HashMap<u8, u8> = std::collections::HashMap::new();
    rt::set_entropy(1 + c.g.below(1 << 40));
    let mut f = cfg(c);
    let a = if c.g.pct(30) { c.g.pick(&[13, 14, 8, 10]) } else { alg(c) };
    let k = key(c, a, true);
    let flags = key_flags(c);
    let kf = key_fields(flags, a, &k.public);
    if c.g.below(40) == 39 {
        // an algorithm there is no signer for
        let a = c.g.pick(&[252, 253, 254]);
        let s = set(c, &mut f, true);
        let (i, e) = when(c);
        let kf = key_fields(flags, a, &k.public);
        if let Ok(sig) = lib_sign(c, &kf, &k.private, &s, &i, &e)? {
            return bad("unusable", format!("signing with algorithm {a} returned a signature nobody can verify: {:?}", sig[8]));
        }
        c.count("unknown algorithm refused");
    }
    let rounds = 1 + c.g.idx(4);
    for round in 0..rounds {
        let s = set(c, &mut f, true);
        let (i, e) = when(c);
        let bad_key = c.g.pct(15);
        let mut faults = [0u8; 16];
        let steady = c.g.pct(40);
        if steady {
            // the source is gone
            let kind = c.g.pick(&[4, 5, 7]);
            faults = [kind; 16];
            let from = c.g.idx(3);
            faults[..from].fill(0);
        } else {
            for x in faults.iter_mut().take(12) {
                if c.g.pct(40) {
                    *x = c.g.pick(&[1, 2, 3, 4, 5, 7]);
                }
            }
        }
        let mut private = k.private.clone();
        if bad_key {
            match c.g.below(4) {
                0 => private.clear(),
                1 => {
                    let n = c.g.idx(private.len());
                    private.truncate(n);
                }
                2 => {
                    let o = &sec::pool()[c.g.idx(sec::pool().len())];
                    private = o.private.clone();
                }
                _ => {
                    let i = c.g.idx(private.len().min(40));
                    private[i] ^= 1 << c.g.below(8);
                }
            }
            c.count("fault damaged private key");
        }
        c.log(|| format!("round {round}: algorithm {a} key {}{} random source faults {faults:?}", k.kind, if bad_key { " damaged" } else { "" }));
        rt::set_entropy_faults(faults);
        let before = rt::entropy_faults_fired();
        let r = lib_sign(c, &kf, &private, &s, &i, &e);
        let fired = rt::entropy_faults_fired() - before;
        rt::set_entropy_faults([0; 16]);
        c.add("fault random source failed or short", fired);
        let r = r?;
        c.ev(r.is_ok() as u64);
        c.ev(fired);
        c.ev_bytes(&faults);
        c.ev(s.rds.len() as u64 ^ (s.rtype as u64) << 8 ^ (s.ttl as u64) << 24);
        c.nontrivial = true;
        if bad_key {
            c.count(if r.is_ok() { "signed with a damaged key" } else { "damaged key refused" });
        } else {
            match &r {
                Ok(sig) => {
                    c.count("signed");
                    if !ref_verify(sig, &kf, &s) {
                        return bad("unusable", format!("algorithm {a} ({}): signing under a failing random source returned a signature that a standards-conforming validator rejects", k.kind));
                    }
                    if lib_verify(c, sig, &kf, &s, false)? != Ok(true) {
                        return bad("unusable", format!("algorithm {a} ({}): signing under a failing random source returned a signature that does not verify", k.kind));
                    }
                }
                Err(_) if fired == 0 => return bad("error", format!("algorithm {a} ({}): signing failed although the random source worked: {:?}", k.kind, r.as_ref().err())),
                Err(_) => c.count("refused with an error"),
            }
        }
        // restored
        if c.g.pct(60) {
            match lib_sign(c, &kf, &k.private, &s, &i, &e)? {
                Err(e) => return bad("stuck", format!("algorithm {a} ({}): signing still fails after the random source recovered: {e}", k.kind)),
                Ok(sig) => {
                    c.count("signed after recovery");
                    if lib_verify(c, &sig, &kf, &s, false)? != Ok(true) {
                        return bad("unusable", format!("algorithm {a} ({}): the signature made after the random source recovered does not verify", k.kind));
                    }
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- validity window

fn clock_time(c: &mut Ctx, base: i64) -> i64 {
    match c.g.below(8) {
        0..=2 => base + c.g.below(10_000_000) as i64,
        3 => base - c.g.below(10_000_000) as i64,
        4 => c.g.num(u32::MAX as u64) as i64,
        5 => (1i64 << 32) + c.g.num(u32::MAX as u64) as i64 - (1 << 31),
        6 if c.g.pct(50) => c.g.num(1 << 61) as i64,
        6 => c.g.num(1 << 40) as i64,
        _ => -(c.g.num(1 << 33) as i64),
    }
}
fn system_time(secs: i64, nanos: u32) -> SystemTime {
    let t = if secs >= 0 { UNIX_EPOCH + Duration::from_secs(secs as u64) } else { UNIX_EPOCH - Duration::from_secs(secs.unsigned_abs()) };
    t + Duration::from_nanos(nanos as u64)
}

pub fn c12(c: &mut Ctx) -> Res {
    rt::set_entropy(1 + c.g.below(1 << 40));
    let mut f = cfg(c);
    let a = if c.g.pct(70) { 15 } else { alg(c) };
    let k = key(c, a, true);
    let flags = key_flags(c);
    let kf = key_fields(flags, a, &k.public);
    // the signer's clock: drifts, is set forward and back
    let mut clock: i64 = c.g.pick(&[1_700_000_000, 0, 4_294_967_000, 2_147_483_000]);
    let n = 1 + c.g.idx(4);
    for _ in 0..n {
        let jump = clock_time(c, clock);
        if (jump - clock).abs() > 20_000_000 {
            c.count("fault clock jumped");
        } else {
            c.count("fault clock skewed");
        }
        clock = jump;
        c.sim_us += 1_000_000;
        let mut inc = clock - c.g.num(100_000) as i64;
        let mut exp = match c.g.below(5) {
            0..=2 => clock + c.g.num(90 * 86400) as i64,
            3 => clock_time(c, clock),
            _ => inc,
        };
        if c.g.pct(10) {
            std::mem::swap(&mut inc, &mut exp);
        }
        let ni = if c.g.pct(40) { c.g.num(999_999_999) as u32 } else { 0 };
        let ne = if c.g.pct(40) { c.g.num(999_999_999) as u32 } else { 0 };
        let s = set(c, &mut f, true);
        rt::set_clock(clock.max(0));
        c.log(|| format!("signer's clock {clock}: inception {inc}.{ni:09} expiration {exp}.{ne:09}, {} records of type {} at {:?}, algorithm {a}", s.rds.len(), s.rtype, s.name));
        let r = lib_sign(c, &kf, &k.private, &s, &system_time(inc, ni), &system_time(exp, ne))?;
        c.ev(r.is_ok() as u64);
        c.ev(inc as u64);
        c.ev(exp as u64);
        c.nontrivial = true;
        let early = inc < 0 || exp < 0;
        match r {
            Err(_) if early => c.count("time before 1970 refused"),
            Err(e) => return bad("refused", format!("signing with inception {inc} and expiration {exp} fails: {e}")),
            Ok(_) if early => return bad("before 1970", format!("a signature was made for inception {inc}.{ni:09}, expiration {exp}.{ne:09}")),
            Ok(sig) => {
                let want = |i: usize| -> F {
                    match i {
                        0 => F::N(s.rtype as u64),
                        1 => F::N(a as u64),
                        2 => F::N(sec::labels(&s.name)),
                        3 => F::N(s.ttl as u64),
                        4 => F::N(exp as u64 & 0xffff_ffff),
                        5 => F::N(inc as u64 & 0xffff_ffff),
                        6 => F::N(sec::key_tag(flags, 3, a, &k.public) as u64),
                        _ => F::Name(model::norm(&s.name)),
                    }
                };
                let names = ["covered type", "algorithm", "labels", "original time-to-live", "expiration", "inception", "key tag", "signer's name"];
                // over the wire, then read by an independent decoder
                let m = Msg { flags: 0x8400, s: [vec![Rr { name: s.name.clone(), rtype: 46, class: 1, top: false, ttl: s.ttl, rd: sig.clone() }], vec![], vec![]], ..Default::default() };
                let pk = Pk::make(c, Fl::Full, &m)?;
                let comp = c.g.pct(50);
                let mut w = pk.encode(c, comp)?;
                let hops = c.g.idx(3);
                for _ in 0..hops {
                    let fl = c.g.pick(&[Fl::Full, Fl::Foreign]);
                    w = relay(c, fl, &w, false)?;
                }
                let seen = match model::decode_strict(&w) {
                    Ok((m, _)) if m.s[0].len() == 1 && m.s[0][0].rtype == 46 => m.s[0][0].rd.clone(),
                    Ok(_) => return bad("lost", "the signature record did not arrive".to_string()),
                    Err(e) => return bad("wire", format!("the signature record cannot be read: {e}")),
                };
                for i in 0..8 {
                    if seen[i] != want(i) {
                        return bad(
                            &format!("field {}", names[i]),
                            format!("{} is {:?}, should be {:?} (inception {inc}.{ni:09}, expiration {exp}.{ne:09}, clock {clock}, {} labels {:?}, algorithm {a})", names[i], seen[i], want(i), s.name.len(), s.name),
                        );
                    }
                }
                if seen[8] != sig[8] {
                    return bad("signature", "the signature changed on the way".to_string());
                }
                c.count("windows compared");
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- delegation

pub fn c15(c: &mut Ctx) -> Res {
    rt::set_entropy(1 + c.g.below(1 << 40));
    let mut f = cfg(c);
    let low = c.g.pct(50);
    let mut owner = gen::name(&mut c.g, &mut f);
    if low {
        owner = sec::lower(&owner);
    }
    // keys the child had one after another
    let n = 1 + c.g.idx(3);
    let mut keys: Vec<(Vec<F>, Option<&'static Key>)> = Vec::new();
    for _ in 0..n {
        let flags = key_flags(c);
        if c.g.pct(50) {
            let a = alg(c);
            let k = key(c, a, true);
            keys.push((key_fields(flags, a, &k.public), Some(k)));
        } else {
            let a = c.g.pick(model::DNSSEC_ALGS) as u8;
            let l = match c.g.below(6) {
                0 => c.g.idx(4),
                1..=3 => c.g.idx(80),
                4 => c.g.idx(600),
                _ => c.g.idx(8000),
            };
            let fill = c.g.below(4);
            let b: Vec<u8> = match fill {
                0 => vec![0xff; l],
                1 => vec![c.g.u8(); l],
                _ => {
                    let s = c.g.below(1 << 40);
                    (0..l).map(|i| rt::mix(s ^ i as u64) as u8).collect()
                }
            };
            keys.push((key_fields(flags, a, &b), None));
        }
        if c.g.pct(30) {
            // a near miss: the same key with one bit changed, or another flag
            let (mut k, _) = keys[keys.len() - 1].clone();
            if c.g.pct(30) {
                k[0] = F::N(num(&k[0]) ^ c.g.pick(&[1, 0x100, 0x80]));
            } else if let F::B(b) = &mut k[3] {
                if !b.is_empty() {
                    let i = c.g.idx(b.len());
                    b[i] ^= 1 << c.g.below(8);
                }
            }
            keys.push((k, None));
            c.count("near-miss keys");
        }
    }
    let refkey = |k: &[F]| sec::key_rdata(num(&k[0]) as u16, 3, num(&k[2]) as u8, key_bytes(k));
    let reftag = |k: &[F]| sec::key_tag(num(&k[0]) as u16, 3, num(&k[2]) as u8, key_bytes(k));
    // the parent's records, computed when each key was current
    let mut ds: Vec<(usize, u64, Vec<F>)> = Vec::new();
    for (i, (k, _)) in keys.iter().enumerate() {
        for _ in 0..1 + c.g.idx(2) {
            let t = c.g.pick(model::DIGESTS);
            let want = vec![F::N(reftag(k) as u64), k[2].clone(), F::N(t), F::B(sec::digest(t, &owner, &refkey(k)))];
            let got = c.lib("computing a delegation record", || {
                let d = (t as u8).try_into().expect("digest type");
                rd::Ds::try_from_dnskey(&full::fqdn(&owner), &dnskey(k), d).map(|d| full::observe_rdata(&RecordData::DS(d)).1).map_err(full::report)
            })?;
            c.count("delegation records compared");
            c.nontrivial = true;
            match got {
                Err(e) => return bad("refused", format!("no delegation record for key {} with digest type {t}: {e}", model::short_hex(&refkey(k)))),
                Ok(g) if g != want => return bad("differs", format!("delegation record of key {} at {owner:?}, digest type {t}: {g:?}, independent computation {want:?}", model::short_hex(&refkey(k)))),
                Ok(g) => ds.push((i, t, g)),
            }
        }
    }
    // parent and child records travel over different routes, late, twice, in any order
    let mut events: Vec<(u64, bool, usize)> = Vec::new();
    for i in 0..ds.len() {
        let n = 1 + c.g.idx(2);
        for _ in 0..n {
            events.push((c.g.below(1_000_000), true, i));
        }
    }
    for i in 0..keys.len() {
        let n = 1 + c.g.idx(2);
        if n > 1 {
            c.count("fault duplicated");
        }
        for _ in 0..n {
            events.push((c.g.below(1_000_000), false, i));
        }
    }
    events.sort();
    let mut have_ds: Vec<(usize, rd::Ds)> = Vec::new();
    let mut have_keys: Vec<(usize, rd::DnsKey)> = Vec::new();
    for (t, parent, i) in events {
        c.sim_us = c.sim_us.max(t);
        let cds = c.g.pct(25);
        let (ty, rdf) = match (parent, cds) {
            (true, false) => (43, ds[i].2.clone()),
            (true, true) => (59, ds[i].2.clone()),
            (false, false) => (48, keys[i].0.clone()),
            (false, true) => (60, keys[i].0.clone()),
        };
        c.ev(t ^ ty as u64);
        let m = Msg { flags: 0x8400, s: [vec![Rr { name: owner.clone(), rtype: ty, class: 1, top: false, ttl: 300, rd: rdf }], vec![], vec![]], ..Default::default() };
        let fl = c.g.pick(&[Fl::Full, Fl::Foreign]);
        let pk = Pk::make(c, fl, &m)?;
        let comp = c.g.pct(50);
        let mut w = pk.encode(c, comp)?;
        for _ in 0..c.g.idx(3) {
            let fl = c.g.pick(&[Fl::Full, Fl::Foreign]);
            w = relay(c, fl, &w, false)?;
        }
        let d = c.lib("decoding", || full::decode(&w).map(|p| p.answers().iter().map(|r| (r.name().clone(), r.data().clone())).collect::<Vec<_>>()))?;
        let Ok(v) = d else { return bad("refused", format!("the validator refuses a message: {}", model::short_hex(&w))) };
        let mut owner_seen = None;
        for (n, r) in v {
            owner_seen = Some(n);
            match r {
                RecordData::DS(x) | RecordData::CDS(x) => have_ds.push((i, x)),
                RecordData::DNSKEY(x) | RecordData::CDNSKEY(x) => have_keys.push((i, x)),
                _ => return bad("changed", "another record type arrived".to_string()),
            }
        }
        let Some(owner_seen) = owner_seen else { return bad("lost", "the record did not arrive".to_string()) };
        // every pair the validator can form so far
        for (di, d) in &have_ds {
            for (ki, k) in &have_keys {
                let (of, dt, want) = &ds[*di];
                // identical keys are one key
                let same_key = refkey(&keys[*of].0) == refkey(&keys[*ki].0);
                let r = c.lib("matching a key with a delegation record", || {
                    let dt = (*dt as u8).try_into().expect("digest type");
                    rd::Ds::try_from_dnskey(&owner_seen, k, dt).map(|x| (x.digest == d.digest, x.key_tag == d.key_tag, &x == d)).map_err(full::report)
                })?;
                let Ok((dig, tag, all)) = r else { return bad("refused", format!("digest type {dt} refused at the validator")) };
                c.count("key and delegation record matched up");
                if same_key && !(dig && tag && all) {
                    return bad("no match", format!("the key does not match its own delegation record after transport: digest {dig}, tag {tag}; {want:?}"));
                }
                if !same_key && dig {
                    return bad("false match", format!("the digest of {} matches another key {}", model::short_hex(&refkey(&keys[*of].0)), model::short_hex(&refkey(&keys[*ki].0))));
                }
                if !same_key {
                    c.count("outdated delegation record met a newer key");
                }
                // another owner
                if same_key && c.g.pct(20) {
                    let o2 = other_name(c, &mut f, &owner);
                    if sec::lower(&o2) != sec::lower(&owner) {
                        let r = c.lib("matching at another owner", || {
                            let dt = (*dt as u8).try_into().expect("digest type");
                            rd::Ds::try_from_dnskey(&full::fqdn(&o2), k, dt).map(|x| x.digest == d.digest)
                        })?;
                        if matches!(r, Ok(true)) {
                            return bad("false match", format!("the delegation record of {owner:?} matches the key at {o2:?}"));
                        }
                        c.count("matched against another owner");
                    }
                }
            }
        }
    }
    // the tag in a signature equals the one in the delegation record
    for (k, pool) in &keys {
        let Some(p) = pool else { continue };
        let s = set(c, &mut f, true);
        let (i, e) = when(c);
        if let Ok(sig) = lib_sign(c, k, &p.private, &s, &i, &e)? {
            c.count("signature tags compared");
            if num(&sig[6]) != reftag(k) as u64 {
                return bad("tag", format!("the signature carries key tag {}, the delegation record {}", num(&sig[6]), reftag(k)));
            }
        }
        break;
    }
    Ok(())
}
