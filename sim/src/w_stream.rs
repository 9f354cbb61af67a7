//! Cut, torn, concatenated and overlong input. C05.
use crate::engine::{bad, Ctx, Res, V};
use crate::gen;
use crate::model::{self, Comp, Dec, Enc, Msg, Sp, F};
use crate::pk::{expected, Fl, Pk};
use crate::{full, plain};

/// Known places where a decoder of this library keeps less than the wire says (see the known
/// findings of C03); they are not what this world is about.
fn blur(m: &Msg) -> Msg {
    let mut m = model::on_wire(m);
    m.flags = full::visible_flags(m.flags);
    m.q.iter_mut().for_each(|q| q.top = false);
    for s in m.s.iter_mut() {
        for r in s.iter_mut() {
            r.top = false;
            match r.rtype {
                35 => {
                    if let F::B(b) = &mut r.rd[2] {
                        b.retain(|c| b"SAUP".contains(c));
                    }
                }
                45 => {
                    // gateway "none" is stored as one byte without meaning
                    if let (F::N(0), F::B(b)) = (&r.rd[1].clone(), &mut r.rd[3]) {
                        b.clear();
                    }
                }
                257 => {
                    if let F::N(x) = &mut r.rd[0] {
                        *x &= 0x80;
                    }
                }
                64 => {
                    // a list of mandatory keys that is not in order is malformed; it may be sorted
                    if let F::Map(m) = &mut r.rd[2] {
                        if let Some(v) = m.get_mut(&0) {
                            let keys: std::collections::BTreeSet<[u8; 2]> = v.chunks_exact(2).map(|k| [k[0], k[1]]).collect();
                            *v = keys.into_iter().flatten().collect();
                        }
                    }
                }
                62 => {
                    if let F::N(x) = &mut r.rd[1] {
                        *x &= 3;
                    }
                }
                _ => (),
            }
        }
    }
    m
}

/// Text that is not UTF-8 is kept in another form.
fn odd_text(m: &Msg) -> bool {
    let odd = |b: &Vec<u8>| std::str::from_utf8(b).is_err();
    m.s.iter().flatten().any(|r| match (r.rtype, &r.rd[..]) {
        (16, [F::List(l)]) => l.iter().any(odd),
        (35, [_, _, _, F::B(a), F::B(b), ..]) => odd(a) || odd(b),
        (257, [_, F::B(a), _]) => odd(a),
        _ => false,
    })
}

/// Where a message ends according to its counts and declared lengths alone.
fn skeleton_end(d: &[u8]) -> Option<usize> {
    let n = |p: usize| d.get(p..p + 2).map(|b| (b[0] as usize) << 8 | b[1] as usize);
    let name = |mut p: usize| loop {
        match *d.get(p)? {
            0 => return Some(p + 1),
            l @ 1..=63 => p += 1 + l as usize,
            0xC0..=0xFF => return Some(p + 2),
            _ => return None,
        }
    };
    let (q, r) = (n(4)?, n(6)? + n(8)? + n(10)?);
    let mut p = 12;
    for _ in 0..q {
        p = name(p)? + 4;
        if p > d.len() {
            return None;
        }
    }
    for _ in 0..r {
        p = name(p)? + 8;
        p = p + 2 + n(p)?;
        if p > d.len() {
            return None;
        }
    }
    Some(p)
}

/// Accepted content, read from the plain encoding of what was accepted.
fn read(c: &mut Ctx, fl: Fl, d: &[u8]) -> Result<Option<Option<Msg>>, V> {
    let b = match fl {
        Fl::Plain => c.lib("decoding", || plain::decode(d).map(|p| plain::plain_bytes(&p)))?,
        _ => c.lib("decoding", || full::decode(d).map(|p| full::plain_bytes(&p)))?,
    };
    Ok(b.ok().map(|b| model::decode_strict(&b).ok().map(|m| m.0)))
}

fn refuse(c: &mut Ctx, fl: Fl, d: &[u8], why: &str) -> Res {
    let ok = match fl {
        Fl::Plain => c.lib("decoding a cut message", || plain::decode(d).is_ok())?,
        _ => c.lib("decoding a cut message", || full::decode(d).is_ok())?,
    };
    if ok {
        return bad("accepted", format!("a {fl:?} build accepts {why}: {}", model::short_hex(d)));
    }
    c.count("cut input refused");
    Ok(())
}

fn decode_at(c: &mut Ctx, fl: Fl, d: &[u8], at: usize) -> Result<(Result<Pk, String>, usize), V> {
    Ok(match fl {
        Fl::Plain => {
            let (r, p) = c.lib("decoding at a position", || plain::decode_at(d, at))?;
            (r.map(Pk::Plain), p)
        }
        _ => {
            let (r, p) = c.lib("decoding at a position", || full::decode_at(d, at))?;
            (r.map(Pk::Full), p)
        }
    })
}

fn show(c: &mut Ctx, k: &Pk, m: &Msg, at: &str) -> Res {
    let got = k.observe(c)?;
    let want = expected(k.flavour(), m);
    match model::diff(&want, &got) {
        None => Ok(()),
        Some(d) => bad("content", format!("{at}: {d}")),
    }
}

pub fn c05(c: &mut Ctx) -> Res {
    let dnssec = c.g.pct(50);
    let top = c.g.pct(20);
    let mut cfg = gen::cfg(&mut c.g, dnssec, top);
    cfg.max_rr = cfg.max_rr.min(4);
    cfg.max_blob = cfg.max_blob.min(300);
    let readers: &[Fl] = if dnssec { &[Fl::Full] } else { &[Fl::Full, Fl::Plain] };
    let reader = c.g.pick(readers);
    match c.g.below(4) {
        0 => cuts(c, &mut cfg, reader),
        1 => stream(c, &mut cfg, reader),
        2 => trailing(c, &mut cfg, reader),
        _ => lengths(c, &mut cfg, reader),
    }
}

/// A message by some sender.
fn sent(c: &mut Ctx, cfg: &mut gen::Cfg, pointers: bool) -> Result<(Msg, Vec<u8>), V> {
    let m = gen::msg(&mut c.g, cfg);
    let fl = if cfg.dnssec || cfg.top { c.g.pick(&[Fl::Full, Fl::Foreign]) } else { c.g.pick(&[Fl::Full, Fl::Plain, Fl::Foreign]) };
    let comp = pointers && c.g.pct(60);
    let k = Pk::make(c, fl, &m)?;
    let w = k.encode(c, comp)?;
    Ok((m, w))
}

fn cuts(c: &mut Ctx, cfg: &mut gen::Cfg, reader: Fl) -> Res {
    let (_, w) = sent(c, cfg, true)?;
    c.ev_bytes(&w);
    c.nontrivial = true;
    c.log(|| format!("sent: {}", model::short_hex(&w)));
    if w.len() <= 260 {
        for n in 0..w.len() {
            refuse(c, reader, &w[..n], &format!("the first {n} of {} bytes of a message", w.len()))?;
        }
        c.count("messages cut at every byte");
        c.add("fault message cut", w.len() as u64);
    } else {
        for _ in 0..60 {
            let n = if c.g.pct(30) { w.len() - 1 - c.g.idx(20) } else { c.g.idx(w.len()) };
            c.count("fault message cut");
            c.log(|| format!("cut to {n}"));
            refuse(c, reader, &w[..n], &format!("the first {n} of {} bytes of a message", w.len()))?;
        }
    }
    Ok(())
}

/// Messages back to back in a stream or file; segments arrive one by one; the tail is torn.
fn stream(c: &mut Ctx, cfg: &mut gen::Cfg, reader: Fl) -> Res {
    let n = 1 + c.g.idx(4);
    let mut msgs = Vec::new();
    let mut data = Vec::new();
    for i in 0..n {
        // offsets in pointers count from the start of the buffer: only the first may use them
        let (m, w) = sent(c, cfg, i == 0)?;
        data.extend_from_slice(&w);
        msgs.push((m, data.len()));
    }
    let total = data.len();
    let keep = if c.g.pct(50) {
        c.count("fault torn tail");
        c.g.idx(total + 1)
    } else {
        total
    };
    data.truncate(keep);
    c.ev_bytes(&data);
    c.log(|| format!("{n} messages end at {:?}, {keep} bytes survive", msgs.iter().map(|m| m.1).collect::<Vec<_>>()));
    let mut have = c.g.idx(keep + 1);
    let (mut pos, mut next) = (0, 0);
    loop {
        // the reader takes all it can get from what has arrived
        loop {
            let (r, p) = decode_at(c, reader, &data[..have], pos)?;
            c.nontrivial = true;
            match r {
                Ok(k) => {
                    if next >= msgs.len() {
                        return bad("invented", format!("a message was read at {pos} after the last one"));
                    }
                    if have < msgs[next].1 {
                        return bad("accepted", format!("message {next} was accepted when {have} of its bytes up to {} had arrived", msgs[next].1));
                    }
                    show(c, &k, &msgs[next].0, &format!("message {next} read from the stream"))?;
                    if p != msgs[next].1 {
                        return bad("boundary", format!("after message {next} the cursor is at {p}, its end is {}", msgs[next].1));
                    }
                    c.ev(p as u64);
                    c.count("messages read from a stream");
                    pos = p;
                    next += 1;
                }
                Err(e) => {
                    if next < msgs.len() && have >= msgs[next].1 {
                        return bad("refused", format!("message {next} is complete in the stream but refused: {e}"));
                    }
                    c.count("fault incomplete message in the stream");
                    break;
                }
            }
            if c.g.pct(10) {
                // reader restarts from its durable position, reading everything again
                c.count("fault reader restarted");
                pos = 0;
                next = 0;
            }
        }
        if have == keep {
            break;
        }
        have += 1 + c.g.idx(keep - have);
    }
    let whole = msgs.iter().filter(|m| m.1 <= keep).count();
    if next != whole {
        return bad("lost", format!("{whole} complete messages in the stream, {next} read"));
    }
    Ok(())
}

fn trailing(c: &mut Ctx, cfg: &mut gen::Cfg, reader: Fl) -> Res {
    let (m, w) = sent(c, cfg, true)?;
    let k = 1 + c.g.idx(3);
    for _ in 0..k {
        let mut d = w.clone();
        let n = 1 + c.g.len(80);
        let junk = match c.g.below(3) {
            0 => c.g.bytes(n),
            1 => w[..n.min(w.len())].to_vec(),
            _ => w[w.len() - n.min(w.len())..].to_vec(),
        };
        d.extend(junk);
        c.ev_bytes(&d);
        c.count("fault bytes after the message");
        c.log(|| format!("{} bytes, then {}", w.len(), model::short_hex(&d[w.len()..])));
        let (r, p) = decode_at(c, reader, &d, 0)?;
        c.nontrivial = true;
        match r {
            Err(e) => return bad("refused", format!("bytes after a complete message make it refused: {e}")),
            Ok(x) => {
                show(c, &x, &m, "message with bytes after it")?;
                if p != w.len() {
                    return bad("boundary", format!("cursor at {p}, the message ends at {}", w.len()));
                }
            }
        }
        // the same through the slice
        match Pk::decode(c, reader, &d)? {
            Err(e) => return bad("refused", format!("bytes after a complete message make it refused: {e}")),
            Ok(x) => show(c, &x, &m, "message with bytes after it")?,
        }
    }
    Ok(())
}

/// Declared lengths and counts that do not fit, judged by the reference decoder.
fn lengths(c: &mut Ctx, cfg: &mut gen::Cfg, reader: Fl) -> Res {
    let m = gen::msg(&mut c.g, cfg);
    let comp = if c.g.pct(70) { Comp::None } else { Comp::Wild };
    let (w, spans, rds) = {
        let mut e = Enc::new(comp, Some(&mut c.g));
        e.msg(&m);
        (e.out, e.spans, e.rd_spans)
    };
    let k = 1 + c.g.idx(4);
    for _ in 0..k {
        let mut d = w.clone();
        match c.g.below(5) {
            // record data really shortened or lengthened, everything after it in place
            0 | 1 if comp == Comp::None && !rds.is_empty() => {
                let (a, b) = rds[c.g.idx(rds.len())];
                let l = b - a;
                let nl = if c.g.pct(70) && l > 0 {
                    c.count("fault record data cut");
                    let keep = c.g.idx(l);
                    d.drain(a + keep..b);
                    keep
                } else {
                    c.count("fault record data lengthened");
                    let n = 1 + c.g.idx(6);
                    let junk = c.g.bytes(n);
                    d.splice(b..b, junk);
                    l + n
                };
                d[a - 2] = (nl >> 8) as u8;
                d[a - 1] = nl as u8;
                c.log(|| format!("record data at {a}: {l} bytes become {nl}"));
            }
            _ => {
                let kinds: &[Sp] = if c.g.pct(60) { &[Sp::RdLen] } else { &[Sp::InLen, Sp::Count] };
                let cand: Vec<_> = spans.iter().filter(|s| kinds.contains(&s.2)).collect();
                if cand.is_empty() {
                    continue;
                }
                let (at, len, sp) = *cand[c.g.idx(cand.len())];
                let old = d[at..at + len].iter().fold(0u64, |a, b| a << 8 | *b as u64);
                let max = (1u64 << (8 * len)) - 1;
                let new = match c.g.below(6) {
                    0 => old + 1,
                    1 => old.saturating_sub(1),
                    2 => c.g.below(old + 1),
                    3 => (d.len() - at - len) as u64 + c.g.below(3),
                    4 => old + c.g.below(20),
                    _ => c.g.num(max),
                } & max;
                for i in 0..len {
                    d[at + i] = (new >> (8 * (len - 1 - i))) as u8;
                }
                c.count("fault declared length changed");
                c.log(|| format!("{sp:?} at {at}: {old} becomes {new}"));
            }
        }
        c.ev_bytes(&d);
        c.nontrivial = true;
        c.log(|| model::short_hex(&d));
        let mut x = Dec::new(&d);
        let want = x.msg();
        let got = read(c, reader, &d)?;
        match (&want, &got) {
            (Err(e), Some(_)) if e.contains("short at") || e.contains("runs out") => {
                return bad("accepted", format!("a {reader:?} build accepts a message although {e}: {}", model::short_hex(&d)));
            }
            (Ok(w), Some(Some(g))) if !odd_text(w) => {
                if let Some(df) = model::diff(&blur(w), &blur(g)) {
                    return bad("content", format!("a message with changed lengths is read differently from what it declares: {df}"));
                }
                c.count("changed messages accepted as declared");
            }
            (Err(_), None) => c.count("changed messages refused"),
            _ => c.count("changed messages without verdict"),
        }
        // what lies behind the declared end has no influence
        if let Some(e) = skeleton_end(&d) {
            let n = 1 + c.g.idx(24);
            let a = read(c, reader, &d[..e])?;
            let mut v = d[..e].to_vec();
            let junk = c.g.bytes(n);
            v.extend(junk);
            let b = read(c, reader, &v)?;
            c.count("fault other bytes behind the declared end");
            let same = match (&a, &b) {
                (None, None) => true,
                (Some(Some(x)), Some(Some(y))) => model::diff(x, y).is_none(),
                (Some(None), Some(None)) => true,
                _ => false,
            };
            if !same {
                return bad("beyond", format!("bytes behind the declared end {e} change the result: {} against {}", model::short_hex(&d[..e]), model::short_hex(&v)));
            }
        }
    }
    Ok(())
}
