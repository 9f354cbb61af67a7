//! Resolver network: client - relays with stores - authority. C03, C04, C13.
use crate::engine::{bad, Ctx, Res, V};
use crate::gen::{self, Cfg};
use crate::model::{self, Ed, Msg, RrEd};
use crate::pk::{expected, must_encode, Fl, Pk};
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Mode {
    Route,
    Compress,
    Mixed,
}

#[derive(Clone)]
struct Packet {
    bytes: Vec<u8>,
    ghost: Msg,
    tx: usize,
    reply: bool,
}
enum Ev {
    Deliver(usize, Packet),
    Retry(usize),
    Crash(usize),
    Restart(usize),
}
struct Stored {
    tx: usize,
    bytes: Vec<u8>,
    ghost: Msg,
    /// how much of the record reached the disk
    durable: usize,
    parts: bool,
}
struct Node {
    fl: Fl,
    up: bool,
    pending: BTreeMap<u16, (u16, usize)>,
    cache: BTreeMap<usize, usize>, // tx -> index into disk
    disk: Vec<Stored>,
    name: String,
}
struct World {
    mode: Mode,
    now: u64,
    seq: u64,
    q: BTreeMap<(u64, u64), Ev>,
    nodes: Vec<Node>,
    loss: u64,
    dup: u64,
    damage: u64,
    jitter: u64,
    part: (u64, u64, usize),
    calm: u64,
    comp_pct: u64,
    cfg: Cfg,
}

impl World {
    fn at(&mut self, t: u64, e: Ev) {
        self.seq += 1;
        self.q.insert((t, self.seq), e);
    }
    fn send(&mut self, c: &mut Ctx, from: usize, to: usize, p: Packet) {
        let stormy = self.now < self.calm;
        let mut copies = 1;
        if stormy {
            if c.g.pct(self.loss) {
                c.count("fault message lost");
                c.log(|| format!("{:>8} {from}->{to} lost", self.now));
                c.ev(1);
                return;
            }
            let cut = from.min(to);
            if self.now >= self.part.0 && self.now < self.part.1 && cut == self.part.2 {
                c.count("fault cut by a partition");
                c.ev(2);
                return;
            }
            if c.g.pct(self.damage) {
                // a checksum failure: the datagram never reaches the program
                c.count("fault damaged and dropped by checksum");
                c.ev(3);
                return;
            }
            if c.g.pct(self.dup) {
                c.count("fault duplicated");
                copies = 2;
            }
        }
        for _ in 0..copies {
            let d = 200 + if stormy { c.g.below(self.jitter) } else { 0 };
            if d > 50_000 {
                c.count("fault delayed past other messages");
            }
            self.at(self.now + d, Ev::Deliver(to, p.clone()));
        }
    }

    /// Decode at a node and compare with what was sent.
    fn receive(&mut self, c: &mut Ctx, n: usize, p: &Packet, place: &str) -> Result<Pk, V> {
        let fl = self.nodes[n].fl;
        let at = format!("{} {place}", self.nodes[n].name);
        match Pk::decode(c, fl, &p.bytes)? {
            Err(e) => bad("refused", format!("{at} ({fl:?} build) refuses an undamaged message: {e}; {}", model::short_hex(&p.bytes))),
            Ok(k) => {
                k.must_show(c, &p.ghost, &at)?;
                c.count("messages read and compared");
                c.nontrivial = true;
                Ok(k)
            }
        }
    }
    /// Encode at a node; what is on the wire must be the ghost content.
    fn emit(&mut self, c: &mut Ctx, n: usize, k: &Pk, ghost: &mut Msg) -> Result<Vec<u8>, V> {
        let fl = self.nodes[n].fl;
        let comp = c.g.pct(self.comp_pct);
        let at = self.nodes[n].name.clone();
        let w = k.encode(c, comp)?;
        c.ev_bytes(&w);
        if fl == Fl::Foreign {
            *ghost = model::on_wire(ghost);
            return Ok(w);
        }
        let (on_wire, ptrs) = must_encode(fl, &w, ghost, &at)?;
        c.add("compression pointers checked", ptrs);
        if self.mode == Mode::Compress {
            let pl = k.encode(c, false)?;
            let cp = k.encode(c, true)?;
            let (a, _) = must_encode(fl, &pl, ghost, &at)?;
            let (b, ptrs) = must_encode(fl, &cp, ghost, &at)?;
            if let Some(d) = model::diff(&a, &b) {
                return bad("differ", format!("{at}: compressed form says something else than the plain form: {d}"));
            }
            if cp.len() > pl.len() {
                return bad("longer", format!("{at}: compressed form has {} bytes, plain form {}", cp.len(), pl.len()));
            }
            if pl.len() > 0x4000 {
                c.count("messages beyond the pointer range");
            }
            c.add("compression pointers checked", ptrs);
            // both forms read back equal by both builds
            for (what, w) in [("plain", &pl), ("compressed", &cp)] {
                match Pk::decode(c, fl, w)? {
                    Err(e) => return bad("refused", format!("{at}: own {what} form refused: {e}")),
                    Ok(k) => k.must_show(c, ghost, &format!("{at}, own {what} form"))?,
                }
            }
        }
        *ghost = on_wire;
        Ok(w)
    }

    fn relay_edits(&mut self, c: &mut Ctx, n: usize, mut k: Pk, ghost: &mut Msg, reply: bool) -> Result<Pk, V> {
        let full = self.nodes[n].fl != Fl::Plain;
        let mut eds: Vec<Ed> = Vec::new();
        if reply && ghost.flags & 0x8000 != 0 && c.g.pct(50) {
            eds.push(Ed::Ra(true));
        }
        if c.g.pct(40) {
            let k = c.g.idx(3);
            for _ in 0..k {
                let s = c.g.idx(3);
                let n = ghost.s[s].len();
                eds.push(match c.g.below(9) {
                    0 => Ed::Rd(c.g.pct(50)),
                    1 => Ed::Tc(c.g.pct(50)),
                    2 => Ed::Aa(c.g.pct(50)),
                    3 if n > 0 => Ed::Mut(s, c.g.idx(n), RrEd::Ttl(c.g.num(u32::MAX as u64) as u32)),
                    4 if n > 0 && self.cfg.top => Ed::Mut(s, c.g.idx(n), RrEd::Top(c.g.pct(50))),
                    5 if !ghost.q.is_empty() && self.cfg.top => {
                        let i = c.g.idx(ghost.q.len());
                        Ed::MutQ(i, model::QEd::Top(c.g.pct(50)))
                    }
                    6 if model::encode(ghost, model::Comp::None, None).len() < 50_000 => {
                        let mut cc = self.cfg.clone();
                        cc.top &= full;
                        Ed::Add(2, gen::rr(&mut c.g, &mut cc))
                    }
                    7 if n > 0 => Ed::Remove(s, c.g.idx(n)),
                    _ => Ed::Encode(c.g.pct(50)),
                });
            }
        }
        for e in &eds {
            c.log(|| format!("{:>8} {} edits {}", self.now, self.nodes[n].name, format!("{e:?}").chars().take(120).collect::<String>()));
            k = k.edit(c, e)?;
            e.apply(ghost, full);
        }
        Ok(k)
    }

    fn store(&mut self, c: &mut Ctx, n: usize, tx: usize, k: &Pk, ghost: &Msg) -> Result<(), V> {
        let mut g = ghost.clone();
        let bytes = self.emit(c, n, k, &mut g)?;
        let durable = if self.now < self.calm && c.g.pct(15) {
            c.count("fault torn or lost write at a crash");
            c.g.idx(bytes.len() + 1)
        } else {
            bytes.len()
        };
        let i = self.nodes[n].disk.len();
        self.nodes[n].disk.push(Stored { tx, bytes, ghost: g, durable, parts: false });
        self.nodes[n].cache.insert(tx, i);
        Ok(())
    }
}

fn flavour(c: &mut Ctx, dnssec: bool, mode: Mode) -> Fl {
    match (mode, dnssec) {
        (Mode::Mixed, _) => c.g.pick(&[Fl::Full, Fl::Plain, Fl::Foreign, Fl::Full, Fl::Plain]),
        (Mode::Compress, true) => c.g.pick(&[Fl::Full, Fl::Full, Fl::Full, Fl::Foreign]),
        (Mode::Compress, false) => c.g.pick(&[Fl::Full, Fl::Plain, Fl::Foreign]),
        (_, true) => c.g.pick(&[Fl::Full, Fl::Foreign]),
        (_, false) => c.g.pick(&[Fl::Full, Fl::Plain, Fl::Foreign]),
    }
}

/// Names so that suffixes are met beyond the pointer range.
fn big(c: &mut Ctx, cfg: &mut Cfg, m: &mut Msg) {
    if c.g.pct(40) {
        // names right at the last offset a pointer can express
        let delta = if c.g.pct(50) { c.g.pick(&[0i64, -1, -2, 1, -3]) } else { 3 - c.g.idx(70) as i64 };
        let mut left = (0x4000 + delta - 12) as usize;
        m.q.clear();
        m.s = Default::default();
        while left > 0 {
            let mut n = left.min(600 + c.g.idx(6000));
            if left - n < 11 {
                n = left;
            }
            let fill = c.g.u8();
            m.s[0].push(model::Rr { name: Vec::new(), rtype: 10, class: 1, top: false, ttl: 0, rd: vec![model::F::B(vec![fill; n - 11])] });
            left -= n;
        }
        let k = 2 + c.g.idx(8);
        let s = 1 + c.g.idx(2);
        for _ in 0..k {
            let r = gen::rr(&mut c.g, cfg);
            m.s[s].push(r);
        }
        return;
    }
    let target = 14_000 + c.g.idx(40_000);
    let mut len = model::encode(m, model::Comp::None, None).len();
    let filler = gen::Cfg { max_blob: 1200, ..cfg.clone() };
    let mut cc = filler;
    // bulk first, then records that share names
    while len < target {
        let mut r = gen::rr(&mut c.g, cfg);
        if c.g.pct(60) && cfg.types.contains(&10) {
            r.rtype = 10;
            let n = 600 + c.g.idx(3000);
            let fill = c.g.u8();
            r.rd = vec![model::F::B(vec![fill; n])];
            r.class &= 0x7fff;
        }
        let l = model::wire_len(&r.name) + 10 + model::encode_rdata(r.rtype, &r.rd).len();
        if len + l > 60_000 {
            break;
        }
        len += l;
        m.s[0].push(r);
    }
    let k = 1 + c.g.idx(8);
    for _ in 0..k {
        let r = gen::rr(&mut c.g, &mut cc);
        let l = model::wire_len(&r.name) + 10 + model::encode_rdata(r.rtype, &r.rd).len();
        if len + l < 62_000 {
            len += l;
            m.s[2].push(r);
        }
    }
}

pub fn run(c: &mut Ctx, mode: Mode) -> Res {
    let dnssec = mode != Mode::Mixed && c.g.pct(60);
    let relays = c.g.idx(4);
    let mut nodes = Vec::new();
    for i in 0..relays + 2 {
        let fl = flavour(c, dnssec, mode);
        let name = if i == 0 {
            "client".to_string()
        } else if i == relays + 1 {
            "authority".to_string()
        } else {
            format!("relay {i}")
        };
        nodes.push(Node { fl, up: true, pending: BTreeMap::new(), cache: BTreeMap::new(), disk: Vec::new(), name });
    }
    // top bits only when some node can set them
    let top = match mode {
        Mode::Mixed => true,
        _ => c.g.pct(25),
    };
    let mut cfg = gen::cfg(&mut c.g, dnssec, top);
    if mode == Mode::Mixed && c.g.pct(30) && !cfg.types.contains(&41) {
        cfg.types.push(41);
    }
    let stormy = c.g.pct(70);
    let mut w = World {
        mode,
        now: 0,
        seq: 0,
        q: BTreeMap::new(),
        nodes,
        loss: if stormy { c.g.below(50) } else { 0 },
        dup: if stormy { c.g.below(40) } else { 0 },
        damage: if stormy { c.g.below(20) } else { 0 },
        jitter: 1 + c.g.pick(&[1_000, 100_000, 1_000_000]),
        part: (0, 0, 0),
        calm: if stormy { 1_000_000 + c.g.below(6_000_000) } else { 0 },
        comp_pct: match mode {
            Mode::Compress => 90,
            _ => c.g.pick(&[0, 50, 100]),
        },
        cfg,
    };
    let last = w.nodes.len() - 1;
    if stormy && c.g.pct(40) {
        let a = c.g.below(w.calm);
        w.part = (a, a + c.g.below(2_000_000), c.g.idx(last));
    }
    if stormy && relays > 0 {
        for _ in 0..c.g.idx(4) {
            let n = 1 + c.g.idx(relays);
            let t = c.g.below(w.calm);
            w.at(t, Ev::Crash(n));
        }
    }
    c.log(|| format!("nodes {:?}; calm after {} us", w.nodes.iter().map(|n| format!("{}:{:?}", n.name, n.fl)).collect::<Vec<_>>(), w.calm));
    // transactions
    let ntx = 1 + c.g.idx(2);
    let mut requests = Vec::new();
    let mut replies: Vec<Msg> = Vec::new();
    for t in 0..ntx {
        let mut cfg = w.cfg.clone();
        let mut mk = |c: &mut Ctx, fl: Fl, big_ok: bool| {
            let mut cc = cfg.clone();
            // an honest sender of a build without the bit cannot ask for it
            cc.top &= fl != Fl::Plain;
            // an empty gateway has a dialect of its own; only library nodes agree on it
            let mut m = gen::msg(&mut c.g, &mut cc);
            if big_ok && mode == Mode::Compress && c.g.pct(12) {
                big(c, &mut cc, &mut m);
            } else if big_ok && mode == Mode::Route && c.g.pct(3) {
                big(c, &mut cc, &mut m);
            }
            cfg.pool = cc.pool;
            m
        };
        let first = w.nodes[0].fl;
        let auth = w.nodes[last].fl;
        let mut q = mk(c, first, false);
        q.flags &= 0x7fff;
        q.flags &= !0x8f;
        let a = mk(c, auth, true);
        requests.push(q);
        replies.push(a);
        w.at(t as u64 * 1000, Ev::Retry(t));
    }
    let mut done: Vec<bool> = vec![false; ntx];
    let mut tries = vec![0u32; ntx];
    let mut made: Vec<Option<(Pk, Msg)>> = (0..ntx).map(|_| None).collect();
    let mut steps = 0u64;
    while let Some((&(t, s), _)) = w.q.iter().next() {
        let ev = w.q.remove(&(t, s)).unwrap();
        w.now = t;
        steps += 1;
        match ev {
            Ev::Crash(n) => {
                if !w.nodes[n].up {
                    continue;
                }
                c.count("fault node crashed");
                c.ev(10 + n as u64);
                c.log(|| format!("{t:>8} {} crashes", w.nodes[n].name));
                let nd = &mut w.nodes[n];
                nd.up = false;
                nd.pending.clear();
                nd.cache.clear();
                let back = t + 1000 + c.g.below(800_000);
                w.at(back, Ev::Restart(n));
            }
            Ev::Restart(n) => {
                c.log(|| format!("{t:>8} {} restarts and reloads its store", w.nodes[n].name));
                w.nodes[n].up = true;
                let mut i = 0;
                while i < w.nodes[n].disk.len() {
                    let st = &w.nodes[n].disk[i];
                    if st.durable < st.bytes.len() {
                        // its checksum is wrong: the record is not used
                        w.nodes[n].disk.truncate(i);
                        break;
                    }
                    let p = Packet { bytes: st.bytes.clone(), ghost: st.ghost.clone(), tx: st.tx, reply: true };
                    let tx = st.tx;
                    w.receive(c, n, &p, "reloading its store")?;
                    w.nodes[n].cache.insert(tx, i);
                    i += 1;
                }
                c.count("stores reloaded");
            }
            Ev::Retry(tx) => {
                if done[tx] {
                    continue;
                }
                tries[tx] += 1;
                if t > w.calm && tries[tx] > 200 {
                    return bad("liveness", format!("transaction {tx} not answered {} us after the faults stopped", t - w.calm));
                }
                let mut ghost = requests[tx].clone();
                let k = Pk::make(c, w.nodes[0].fl, &ghost)?;
                k.must_show(c, &ghost, "client, own request")?;
                let bytes = w.emit(c, 0, &k, &mut ghost)?;
                c.log(|| format!("{t:>8} client sends request {tx} (try {}), {} bytes", tries[tx], bytes.len()));
                w.send(c, 0, 1, Packet { bytes, ghost, tx, reply: false });
                let back = 400_000 + c.g.below(300_000);
                w.at(t + back, Ev::Retry(tx));
            }
            Ev::Deliver(n, p) => {
                if !w.nodes[n].up {
                    c.count("fault arrived at a crashed node");
                    continue;
                }
                c.ev(100 + n as u64 * 2 + p.reply as u64);
                c.log(|| format!("{t:>8} {} gets {} {} {}", w.nodes[n].name, if p.reply { "reply" } else { "request" }, p.tx, model::short_hex(&p.bytes)));
                let mut k = w.receive(c, n, &p, if p.reply { "receiving a reply" } else { "receiving a request" })?;
                let mut ghost = p.ghost.clone();
                let fl = w.nodes[n].fl;
                if fl == Fl::Foreign {
                    ghost = model::on_wire(&ghost);
                }
                if n == last {
                    let (ak, ag) = match made[p.tx].take() {
                        Some(x) => x,
                        None => (Pk::make(c, fl, &replies[p.tx])?, replies[p.tx].clone()),
                    };
                    made[p.tx] = Some((ak.clone(), ag.clone()));
                    let mut ghost = ag;
                    let e = Ed::Id(p.ghost.id);
                    let ak = ak.edit(c, &e)?;
                    e.apply(&mut ghost, true);
                    let bytes = w.emit(c, n, &ak, &mut ghost)?;
                    w.send(c, n, n - 1, Packet { bytes, ghost, tx: p.tx, reply: true });
                } else if n == 0 {
                    if !done[p.tx] {
                        c.log(|| format!("{t:>8} client has the answer to {}", p.tx));
                    }
                    done[p.tx] = true;
                } else if !p.reply {
                    if let Some(i) = w.nodes[n].cache.get(&p.tx).copied() {
                        // answer from the store
                        let st = &w.nodes[n].disk[i];
                        let sp = Packet { bytes: st.bytes.clone(), ghost: st.ghost.clone(), tx: p.tx, reply: true };
                        let ck = w.receive(c, n, &sp, "answering from its store")?;
                        c.count("answers from a store");
                        let mut g = sp.ghost.clone();
                        let e = Ed::Id(p.ghost.id);
                        let ck = ck.edit(c, &e)?;
                        e.apply(&mut g, true);
                        let bytes = w.emit(c, n, &ck, &mut g)?;
                        w.send(c, n, n - 1, Packet { bytes, ghost: g, tx: p.tx, reply: true });
                        continue;
                    }
                    let old = ghost.id;
                    let mut id = c.g.num(65535) as u16;
                    while w.nodes[n].pending.contains_key(&id) {
                        id = id.wrapping_add(1);
                    }
                    let e = Ed::Id(id);
                    k = k.edit(c, &e)?;
                    e.apply(&mut ghost, fl != Fl::Plain);
                    k = w.relay_edits(c, n, k, &mut ghost, false)?;
                    w.nodes[n].pending.insert(id, (old, p.tx));
                    let bytes = w.emit(c, n, &k, &mut ghost)?;
                    w.send(c, n, n + 1, Packet { bytes, ghost, tx: p.tx, reply: false });
                } else {
                    let Some((old, tx)) = w.nodes[n].pending.get(&ghost.id).copied() else {
                        c.count("late reply ignored");
                        continue;
                    };
                    if tx != p.tx {
                        continue;
                    }
                    let e = Ed::Id(old);
                    k = k.edit(c, &e)?;
                    e.apply(&mut ghost, fl != Fl::Plain);
                    k = w.relay_edits(c, n, k, &mut ghost, true)?;
                    k.must_show(c, &ghost, "relay after editing")?;
                    w.store(c, n, tx, &k, &ghost)?;
                    let bytes = w.emit(c, n, &k, &mut ghost)?;
                    w.send(c, n, n - 1, Packet { bytes, ghost, tx, reply: true });
                }
            }
        }
        if done.iter().all(|d| *d) && w.now >= w.calm {
            break;
        }
        if done.iter().all(|d| *d) && !w.q.values().any(|e| matches!(e, Ev::Deliver(..))) {
            break;
        }
        if steps > 3000 {
            return bad("liveness", "no answer within 3000 steps");
        }
    }
    if let Some(tx) = done.iter().position(|d| !*d) {
        return bad("liveness", format!("transaction {tx} was never answered"));
    }
    let _ = expected;
    c.add("answered transactions", ntx as u64);
    c.sim_us = w.now;
    Ok(())
}

pub fn c03(c: &mut Ctx) -> Res {
    run(c, Mode::Route)
}
/// As many different short names as a message can hold: whatever stands for a name while
/// a message is written must not take one of them for another.
fn crowd(c: &mut Ctx) -> Res {
    let fl = if c.g.pct(50) { Fl::Full } else { Fl::Plain };
    let n = if c.g.pct(70) { 6_600 } else { 1 + c.g.idx(6_600) };
    let base = c.g.below(u64::MAX);
    // long names count once for each of their suffixes
    let labels = c.g.pick(&[120, 1, 2, 120]);
    let mut m = Msg { id: 1, flags: 0x0100, ..Default::default() };
    let mut used = 12;
    let mut x = base;
    for _ in 0..n {
        x = crate::rt::mix(x);
        let b = x.to_be_bytes();
        let name = match labels {
            1 => vec![b[..3].to_vec()],
            2 => vec![b[..2].to_vec(), b[2..3].to_vec()],
            _ => (0..labels)
                .map(|_| {
                    x = crate::rt::mix(x);
                    vec![(x >> 20) as u8]
                })
                .collect(),
        };
        used += model::wire_len(&name) + 4;
        if used > 64_000 {
            break;
        }
        m.q.push(model::Q { name, qtype: 1, class: 1, top: false });
    }
    c.log(|| format!("{} questions with names of {labels} labels in one message ({fl:?} build)", m.q.len()));
    c.ev(m.q.len() as u64);
    c.ev(base);
    let k = Pk::make(c, fl, &m)?;
    let w = k.encode(c, true)?;
    let (_, ptrs) = must_encode(fl, &w, &m, "sender of many names")?;
    match Pk::decode(c, fl, &w)? {
        Err(e) => return bad("refused", format!("own compressed form refused: {e}")),
        Ok(k) => k.must_show(c, &m, "reader of many names")?,
    }
    c.add("compression pointers checked", ptrs);
    c.count("messages with thousands of names");
    c.nontrivial = true;
    Ok(())
}

pub fn c04(c: &mut Ctx) -> Res {
    if c.g.below(100) == 99 {
        return crowd(c);
    }
    run(c, Mode::Compress)
}
pub fn c13(c: &mut Ctx) -> Res {
    run(c, Mode::Mixed)
}
