//! Editors work on messages with arbitrary histories. C06 and C07.
use crate::engine::{bad, Ctx, Res, V};
use crate::gen::{self, Cfg};
use crate::model::{self, Comp, Ed, Enc, Msg, QEd, RrEd};
use crate::pk::{expected, must_encode, Fl, Pk};
use crate::{full, plain, rt};

fn size(m: &Msg) -> usize {
    model::encode(m, Comp::None, None).len()
}

/// A record, often one that is in the message already.
fn some_rr(g: &mut crate::tape::Tape, cfg: &mut Cfg, m: &Msg) -> model::Rr {
    let mut r = gen::rr(g, cfg);
    if g.pct(20) {
        gen::again(g, &mut r, m);
    }
    r
}
fn some_q(g: &mut crate::tape::Tape, cfg: &mut Cfg, m: &Msg) -> model::Q {
    let q = gen::question(g, cfg);
    match m.q.last() {
        Some(l) if g.pct(20) => l.clone(),
        _ => q,
    }
}
/// More entries than fit one octet, all tiny.
fn many(g: &mut crate::tape::Tape) -> Vec<model::Rr> {
    let n = 100 + g.idx(300);
    let name: model::Name = if g.pct(50) { Vec::new() } else { vec![vec![b'm']] };
    (0..n).map(|i| model::Rr { name: name.clone(), rtype: 10, class: 1, top: false, ttl: i as u32, rd: vec![model::F::B(vec![i as u8; i % 3])] }).collect()
}
fn some_rrs(g: &mut crate::tape::Tape, cfg: &mut Cfg, m: &Msg) -> Vec<model::Rr> {
    let mut tmp = Msg::default();
    if g.pct(4) {
        return many(g);
    }
    for _ in 0..g.idx(4) {
        let r = if tmp.s[0].is_empty() { some_rr(g, cfg, m) } else { some_rr(g, cfg, &tmp) };
        tmp.s[0].push(r);
    }
    std::mem::take(&mut tmp.s[0])
}
fn some_qs(g: &mut crate::tape::Tape, cfg: &mut Cfg, m: &Msg) -> Vec<model::Q> {
    let mut tmp = Msg { q: m.q.iter().rev().take(1).cloned().collect(), ..Default::default() };
    let mut v = Vec::new();
    if g.pct(4) {
        let mut q = some_q(g, cfg, m);
        q.name.truncate(1);
        let n = 100 + g.idx(300);
        return (0..n).map(|i| if i % 3 == 0 { model::Q { name: Vec::new(), ..q.clone() } } else { q.clone() }).collect();
    }
    for _ in 0..g.idx(4) {
        let q = some_q(g, cfg, &tmp);
        tmp.q.push(q.clone());
        v.push(q);
    }
    v
}

/// One editing call that makes sense for the content.
pub fn edit(c: &mut Ctx, cfg: &mut Cfg, m: &Msg) -> Ed {
    let g = &mut c.g;
    let small = size(m) < 40_000;
    let s = g.idx(3);
    let n = m.s[s].len();
    let nq = m.q.len();
    match g.below(40) {
        0 => Ed::Id(g.num(65535) as u16),
        1 => Ed::Rd(g.pct(50)),
        2 => Ed::Tc(g.pct(50)),
        3 => Ed::Aa(g.pct(50)),
        4 => Ed::Op(g.below(4) as u16),
        5 => Ed::Qr(g.pct(50)),
        6 => Ed::Rc(g.below(11) as u16),
        7 => Ed::Ra(g.pct(50)),
        8 | 9 if small => Ed::AddQ(some_q(g, cfg, m)),
        10 if small => {
            Ed::SetQ(some_qs(g, cfg, m))
        }
        11 => Ed::TakeQ,
        12 if small => Ed::PushQ(some_q(g, cfg, m)),
        13 => Ed::PopQ,
        14 => Ed::ClearQ,
        15 | 16 if nq > 0 => {
            let i = g.idx(nq);
            Ed::MutQ(
                i,
                match g.below(4) {
                    0 => QEd::Name(gen::name(g, cfg)),
                    1 => QEd::Type(gen::question(g, cfg).qtype),
                    2 => QEd::Class(g.pick(model::QCLASSES)),
                    _ => QEd::Top(cfg.top && g.pct(60)),
                },
            )
        }
        17..=20 if small => Ed::Add(s, some_rr(g, cfg, m)),
        21 if small => {
            Ed::Set(s, some_rrs(g, cfg, m))
        }
        22 => Ed::Take(s),
        23 | 24 | 33..=37 if n > 0 && small => {
            let i = g.idx(n);
            let r = &m.s[s][i];
            Ed::Mut(
                s,
                i,
                match g.below(8) {
                    0 => RrEd::Name(gen::name(g, cfg)),
                    1 if model::wire_len(&r.name) < 240 => RrEd::AppendLabel(g.pick(&["x", "local", "", "a-b"]).to_string()),
                    2 if model::wire_len(&r.name) < 180 && r.name.first().is_some_and(|l| !l.is_empty()) => {
                        let n = 1 + g.idx(20);
                        RrEd::FirstLabel(g.bytes(n))
                    }
                    3 => RrEd::Class(gen::class(g, cfg, r.rtype)),
                    4 => RrEd::Top(cfg.top && g.pct(60)),
                    5 | 6 => {
                        let t = cfg.types[g.idx(cfg.types.len())];
                        let f = gen::rdata(g, cfg, t);
                        RrEd::Data(t, f, g.pct(50))
                    }
                    _ => RrEd::Ttl(g.num(u32::MAX as u64) as u32),
                },
            )
        }
        25 if n > 0 => Ed::Remove(s, g.idx(n)),
        26 if small => Ed::Insert(s, g.idx(n + 1), some_rr(g, cfg, m)),
        27 => Ed::Move(s, g.idx(3)),
        28 => Ed::Reverse(s),
        29 => Ed::Header(g.num(65535) as u16, g.pct(50), g.pct(50)),
        30 => Ed::Clone,
        31 => Ed::Redecode(g.pct(50)),
        32 => Ed::Encode(g.pct(50)),
        _ => {
            let mut small = Cfg { max_rr: 2, max_blob: 20, ..cfg.clone() };
            small.empty_labels = false;
            let mut o = gen::msg(g, &mut small);
            o.flags = g.pick(&[0x100, 0x8180, 0, 0x8583]);
            if g.pct(50) || size(m) > 20_000 {
                Ed::HeaderOf(Box::new(o))
            } else {
                Ed::Give(g.idx(4), Box::new(o))
            }
        }
    }
}

/// Accessors, plain and compressed form against the list model.
fn inspect(c: &mut Ctx, k: &Pk, m: &Msg, who: &str) -> Res {
    let got = model::on_wire(&k.observe(c)?);
    let want = expected(k.flavour(), m);
    if let Some(d) = model::diff(&want, &got) {
        return bad("accessors", format!("{who}: accessors show something else than the calls made: {d}"));
    }
    let p = k.encode(c, false)?;
    let z = k.encode(c, true)?;
    c.ev_bytes(&p);
    c.ev_bytes(&z);
    must_encode(k.flavour(), &p, m, &format!("{who}, plain form"))?;
    must_encode(k.flavour(), &z, m, &format!("{who}, compressed form"))?;
    c.count("states compared");
    c.nontrivial = true;
    Ok(())
}

struct Doc {
    k: Pk,
    m: Msg,
    /// last durable copy
    disk: Option<(Vec<u8>, Msg)>,
}

pub fn c06(c: &mut Ctx) -> Res {
    let dnssec = c.g.pct(50);
    let top = c.g.pct(40);
    let mut cfg = gen::cfg(&mut c.g, dnssec, top);
    cfg.max_rr = cfg.max_rr.min(4);
    cfg.max_blob = cfg.max_blob.min(300);
    cfg.empty_labels = c.g.pct(30);
    let n = 1 + c.g.idx(2);
    let mut docs = Vec::new();
    for _ in 0..n {
        let fl = if dnssec { Fl::Full } else { c.g.pick(&[Fl::Full, Fl::Plain]) };
        let mut cf = cfg.clone();
        cf.top &= fl == Fl::Full;
        let (k, m) = match c.g.below(6) {
            0..=3 => {
                let how = c.g.below(4);
                let id = c.g.num(65535) as u16;
                let rd = c.g.pct(50);
                let nq = c.g.idx(3);
                let qs: Vec<_> = (0..nq).map(|_| gen::question(&mut c.g, &mut cf)).collect();
                let k = match fl {
                    Fl::Plain => Pk::Plain(c.lib("starting a message", || plain::start(how, id, rd, &qs))?),
                    _ => Pk::Full(c.lib("starting a message", || full::start(how, id, rd, &qs))?),
                };
                let mut m = Msg::default();
                match how {
                    0 | 2 => {
                        m.id = id;
                        m.flags = (rd as u16) << 8;
                        if how == 2 {
                            m.q = qs;
                        }
                    }
                    1 => {
                        m.id = id;
                        m.flags = 0x8000;
                    }
                    _ => (),
                }
                (k, m)
            }
            4 => {
                let m = gen::msg(&mut c.g, &mut cf);
                (Pk::make(c, fl, &m)?, m)
            }
            _ => {
                // received from another implementation
                cf.empty_labels = false;
                let m = gen::msg(&mut c.g, &mut cf);
                let w = model::encode(&m, Comp::Wild, Some(&mut c.g));
                match Pk::decode(c, fl, &w)? {
                    Ok(k) => (k, m),
                    Err(e) => return bad("refused", format!("a well-formed message is refused: {e}")),
                }
            }
        };
        inspect(c, &k, &m, "new message")?;
        docs.push(Doc { k, m, disk: None });
    }
    let most = if c.g.pct(10) { 40 } else { 10 };
    let steps = 1 + c.g.idx(most);
    let often = c.g.pick(&[100, 100, 40, 15]);
    for i in 0..steps {
        let d = c.g.idx(n);
        let doc = &mut docs[d];
        let is_full = doc.k.flavour() == Fl::Full;
        let mut cf = cfg.clone();
        cf.top &= is_full;
        match c.g.below(20) {
            0 => {
                // checkpoint
                let comp = c.g.pct(50);
                let b = doc.k.encode(c, comp)?;
                doc.disk = Some((b, doc.m.clone()));
                c.count("checkpoints written");
                continue;
            }
            1 => {
                if let Some((b, m)) = &doc.disk {
                    c.count("fault crashed and reloaded the last checkpoint");
                    c.log(|| format!("step {i}: message {d} is lost in a crash and reloaded"));
                    let fl = doc.k.flavour();
                    match Pk::decode(c, fl, b)? {
                        Ok(k) => {
                            doc.k = k;
                            doc.m = model::on_wire(m);
                        }
                        Err(e) => return bad("refused", format!("a checkpoint is refused: {e}")),
                    }
                }
            }
            _ => {
                let e = edit(c, &mut cf, &doc.m);
                cfg.pool = cf.pool;
                c.log(|| format!("step {i}: message {d}: {}", format!("{e:?}").chars().take(160).collect::<String>()));
                c.count(name(&e));
                doc.k = doc.k.clone().edit(c, &e)?;
                e.apply(&mut doc.m, is_full);
            }
        }
        if i + 1 == steps || c.g.pct(often) {
            // every message, so that an edit of one that shows in another is seen
            for (j, d) in docs.iter().enumerate() {
                inspect(c, &d.k, &d.m, &format!("message {j} after step {i}"))?;
            }
        }
    }
    Ok(())
}
fn name(e: &Ed) -> &'static str {
    match e {
        Ed::AddQ(_) | Ed::SetQ(_) | Ed::PushQ(_) => "edits adding or setting questions",
        Ed::TakeQ | Ed::ClearQ | Ed::PopQ => "edits removing questions",
        Ed::MutQ(..) => "edits of a question",
        Ed::Add(..) | Ed::Set(..) | Ed::Insert(..) | Ed::Give(..) => "edits adding or setting records",
        Ed::Take(_) | Ed::Remove(..) => "edits removing records",
        Ed::Mut(..) => "edits of a record",
        Ed::Move(..) | Ed::Reverse(_) => "edits moving records",
        Ed::Clone | Ed::Redecode(_) | Ed::Encode(_) => "copies, encodings and decodings in between",
        _ => "edits of the header",
    }
}

// ---------------------------------------------------------------- C07

/// What a process is told to do to arrive at the content.
#[derive(Clone, Debug)]
enum Way {
    Build,
    /// entry by entry, with edits in between that are undone again
    Steps(Vec<Ed>),
    Received(Vec<u8>),
    /// build, then encode and decode this often, alternating as the bits say
    Loop(u64, u32),
}
struct Made {
    k: Pk,
    plain: Vec<u8>,
    comp: Vec<u8>,
}

fn process(fl: Fl, m: &Msg, way: &Way) -> Result<Made, V> {
    // a context only to run library code; no choices are made in here
    let mut c = Ctx::new(crate::tape::Tape::replay(Vec::new()), false, false);
    let c = &mut c;
    let k = match way {
        Way::Build => Pk::make(c, fl, m)?,
        Way::Steps(eds) => {
            let mut k = Pk::make(c, fl, &Msg { id: m.id, flags: m.flags, ..Default::default() })?;
            for e in eds {
                k = k.edit(c, e)?;
            }
            k
        }
        Way::Received(b) => match Pk::decode(c, fl, b)? {
            Ok(k) => k,
            Err(e) => return bad("refused", format!("a well-formed message is refused: {e}")),
        },
        Way::Loop(bits, n) => {
            let mut k = Pk::make(c, fl, m)?;
            for i in 0..*n {
                let b = k.encode(c, bits >> i & 1 == 1)?;
                k = match Pk::decode(c, fl, &b)? {
                    Ok(k) => k,
                    Err(e) => return bad("refused", format!("own encoding refused: {e}")),
                };
            }
            k
        }
    };
    let plain = k.encode(c, false)?;
    let comp = k.encode(c, true)?;
    // once more: encoding does not change anything
    if k.encode(c, false)? != plain || k.encode(c, true)? != comp {
        return bad("unstable", "encoding the same message twice gives different bytes");
    }
    for b in [&plain, &comp] {
        match Pk::decode(c, fl, b)? {
            Err(e) => return bad("refused", format!("own encoding refused: {e}")),
            Ok(d) => {
                if !equal(c, &d, &k)? {
                    return bad("unequal", format!("decoding the encoding of a message gives an unequal message: {}", model::short_hex(b)));
                }
                if d.encode(c, false)? != plain {
                    return bad("bytes", "a decoded message encodes (plain) differently from the original");
                }
                if d.encode(c, true)? != comp {
                    return bad("bytes", "a decoded message encodes (compressed) differently from the original");
                }
            }
        }
    }
    Ok(Made { k, plain, comp })
}
fn equal(c: &mut Ctx, a: &Pk, b: &Pk) -> Result<bool, V> {
    c.lib("comparing", || match (a, b) {
        (Pk::Full(a), Pk::Full(b)) => a == b && b == a && !(a != b),
        (Pk::Plain(a), Pk::Plain(b)) => a == b && b == a && !(a != b),
        _ => true,
    })
}

/// Edits that add the content to an empty message, with detours that are undone.
fn detour(c: &mut Ctx, cfg: &mut Cfg, m: &Msg) -> Vec<Ed> {
    let mut v = Vec::new();
    for q in &m.q {
        if c.g.pct(20) {
            v.push(Ed::PushQ(gen::question(&mut c.g, cfg)));
            v.push(Ed::PopQ);
        }
        v.push(if c.g.pct(50) { Ed::AddQ(q.clone()) } else { Ed::PushQ(q.clone()) });
    }
    for s in 0..3 {
        if m.s[s].is_empty() {
            continue;
        }
        if c.g.pct(30) {
            v.push(Ed::Set(s, m.s[s].clone()));
            continue;
        }
        for (i, r) in m.s[s].iter().enumerate() {
            if c.g.pct(20) {
                v.push(Ed::Add(s, gen::rr(&mut c.g, cfg)));
                if c.g.pct(30) {
                    v.push(Ed::Redecode(c.g.pct(50)));
                }
                v.push(Ed::Remove(s, i));
            }
            v.push(Ed::Add(s, r.clone()));
            if c.g.pct(10) {
                v.push(Ed::Clone);
            }
        }
        if c.g.pct(20) {
            v.push(Ed::Reverse(s));
            v.push(Ed::Reverse(s));
        }
    }
    v
}

pub fn c07(c: &mut Ctx) -> Res {
    let dnssec = c.g.pct(50);
    let top = c.g.pct(30);
    let mut cfg = gen::cfg(&mut c.g, dnssec, top);
    cfg.max_rr = cfg.max_rr.min(6);
    if c.g.pct(40) {
        cfg.types = vec![41, 64, 41, 62, 2, 6];
    }
    let mut m = gen::msg(&mut c.g, &mut cfg);
    // the flags a builder can set, so that every way leads to them
    m.flags = c.g.pick(&[0x0100, 0x8180, 0x8583, 0x8000, 0, 0x8f80, 0x9a00]);
    m.flags = full::visible_flags(m.flags);
    let n = 2 + c.g.idx(3);
    let mut plans = Vec::new();
    for _ in 0..n {
        let fl = if dnssec || top { Fl::Full } else { c.g.pick(&[Fl::Full, Fl::Plain]) };
        let way = match c.g.below(5) {
            0 => Way::Build,
            1 => {
                let mut cf = cfg.clone();
                cf.top &= fl == Fl::Full;
                Way::Steps(detour(c, &mut cf, &m))
            }
            2 => {
                let mut e = Enc::new(c.g.pick(&[Comp::None, Comp::Std, Comp::Wild]), Some(&mut c.g));
                e.shuffle = true;
                e.msg(&m);
                Way::Received(e.out)
            }
            3 => Way::Loop(c.g.below(256), 1 + c.g.below(5) as u32),
            _ => Way::Build,
        };
        let seed = 1 + c.g.below(1 << 32);
        let perm = c.g.below(1 << 32);
        plans.push((fl, way, seed, perm));
    }
    c.log(|| format!("content {}", model::short_hex(&model::encode(&m, Comp::None, None))));
    let mut made: Vec<Made> = Vec::new();
    for (i, (fl, way, seed, perm)) in plans.iter().enumerate() {
        c.log(|| format!("process {i}: {fl:?} build, hash seed {seed}, {}", format!("{way:?}").chars().take(100).collect::<String>()));
        c.count("processes with their own hash seed");
        let (fl, seed, perm, m) = (*fl, *seed, *perm, &m);
        let r = std::thread::scope(|s| {
            s.spawn(move || {
                // each process has its own entropy, hence its own hash seeds
                rt::set_entropy(seed);
                rt::set_perm(perm);
                process(fl, m, way)
            })
            .join()
        });
        match r {
            Ok(x) => made.push(x?),
            Err(_) => return bad("HARNESS", "process thread"),
        }
        c.nontrivial = true;
        c.ev_bytes(&made[i].plain);
        c.ev_bytes(&made[i].comp);
        if i > 0 {
            let (a, b) = (&made[0], &made[i]);
            if a.plain != b.plain {
                return bad("bytes", format!("processes 0 and {i} encode the same content differently: {} and {}", model::short_hex(&a.plain), model::short_hex(&b.plain)));
            }
            if a.comp != b.comp {
                return bad("bytes", format!("processes 0 and {i} encode the same content differently (compressed): {} and {}", model::short_hex(&a.comp), model::short_hex(&b.comp)));
            }
            if !equal(c, &a.k, &b.k)? {
                return bad("unequal", format!("the messages of processes 0 and {i} have the same content but are not equal"));
            }
            c.count("pairs of processes compared");
        }
    }
    for _ in 0..1 + c.g.idx(3) {
        neighbour(c, &m, &made[0])?;
    }
    Ok(())
}
/// Another message that is almost the same: only when it has the same encoding may it compare equal.
fn neighbour(c: &mut Ctx, m: &Msg, a: &Made) -> Res {
    let fl = a.k.flavour();
    let near = match c.g.below(3) {
        0 => {
            let mut b = a.plain.clone();
            for _ in 0..1 + c.g.idx(2) {
                let i = c.g.idx(b.len());
                match c.g.below(4) {
                    0 => b[i] ^= 0x20,
                    1 => b[i] = b[i].wrapping_add(1),
                    2 if i > 0 => b.swap(i - 1, i),
                    _ => b[i] ^= 1 << c.g.below(8),
                }
            }
            match Pk::decode(c, fl, &b)? {
                Ok(k) => k,
                Err(_) => return Ok(()),
            }
        }
        1 => {
            let mut m = m.clone();
            let mut names: Vec<&mut model::Name> = m.q.iter_mut().map(|q| &mut q.name).collect();
            for r in m.s.iter_mut().flatten() {
                names.push(&mut r.name);
                for f in r.rd.iter_mut() {
                    match f {
                        model::F::Name(n) => names.push(n),
                        _ => (),
                    }
                }
            }
            if names.is_empty() {
                return Ok(());
            }
            let i = c.g.idx(names.len());
            let n = std::mem::take(names[i]);
            *names[i] = gen::near(&mut c.g, n);
            Pk::make(c, fl, &m)?
        }
        _ => {
            let mut m = m.clone();
            let i = c.g.idx(3);
            let n = m.s[i].len();
            if n == 0 {
                return Ok(());
            }
            let (j, k) = (c.g.idx(n), c.g.idx(n));
            match c.g.below(4) {
                0 => m.s[i].swap(j, k),
                1 => m.s[i].insert(k, m.s[i][j].clone()),
                2 => {
                    let r = m.s[i].remove(j);
                    m.s[(i + 1) % 3].push(r);
                }
                _ => drop(m.s[i].remove(j)),
            }
            Pk::make(c, fl, &m)?
        }
    };
    let same = c.lib("comparing", || match (&a.k, &near) {
        (Pk::Full(a), Pk::Full(b)) => a == b || b == a || !(a != b),
        (Pk::Plain(a), Pk::Plain(b)) => a == b || b == a || !(a != b),
        _ => false,
    })?;
    c.count("neighbouring messages compared");
    if same {
        let b = near.encode(c, false)?;
        if b != a.plain {
            return bad("confused", format!("two messages compare equal but are encoded differently: {} and {}", model::short_hex(&a.plain), model::short_hex(&b)));
        }
    }
    Ok(())
}
