//! A reader works through bytes that arrive piece by piece, next to a byte-array model. C14.
use crate::engine::{bad, Ctx, Res};
use crate::gen;
use crate::model::{self, Comp, Cur, CurGot, F};
use crate::tape::Tape;
use crate::{full, plain};

fn length(g: &mut Tape, n: usize) -> usize {
    match g.below(10) {
        0..=5 => g.idx(n.min(12) + 2),
        6 => n.wrapping_sub(g.idx(3)).wrapping_add(1),
        7 => usize::MAX - g.idx(4),
        8 => (usize::MAX / 2).wrapping_add(g.idx(3)),
        _ => (usize::MAX - n).saturating_add(g.idx(4)),
    }
}
pub fn ops(g: &mut Tape, n: usize, depth: u32) -> Vec<Cur> {
    let k = 1 + g.idx(8);
    (0..k)
        .map(|_| match g.below(if depth < 3 { 14 } else { 12 }) {
            0 => Cur::U8,
            1 => Cur::U16,
            2 => Cur::U32,
            3 => Cur::Typed,
            4 => Cur::Cs,
            5 => Cur::Text,
            6 | 7 => Cur::Name,
            8 => Cur::Bytes(length(g, n)),
            9 => Cur::Peek(length(g, n)),
            10 => Cur::Skip(length(g, n)),
            11 => Cur::Seek(if g.pct(70) { g.idx(n + 2) } else { length(g, n) }),
            _ => {
                let l = length(g, n);
                Cur::Window(l, ops(g, n, depth + 1))
            }
        })
        .collect()
}

struct M<'a> {
    d: &'a [u8],
    pos: usize,
    dnssec: bool,
}
/// Follows the operations on the model; takes over the position only after a failed
/// variable-length read, where it is left open.
fn follow(m: &mut M, ops: &[Cur], got: &mut std::slice::Iter<CurGot>, c: &mut Ctx) -> Res {
    for o in ops {
        let (d, p) = (m.d, m.pos);
        let rest = d.len() - p;
        let fix = |n: usize| if n <= rest { Some(&d[p..p + n]) } else { None };
        let num = |n: usize| fix(n).map(|b| F::N(b.iter().fold(0, |a, x| a << 8 | *x as u64)));
        // expected result, expected position after it, position left open when it fails
        let (want, to, open) = match o {
            Cur::U8 => (num(1), p + 1, false),
            Cur::U16 => (num(2), p + 2, false),
            Cur::U32 => (num(4), p + 4, false),
            Cur::Typed => {
                let v = num(2);
                let known = matches!(&v, Some(F::N(t)) if model::TYPES.iter().any(|x| x.0 as u64 == *t && (m.dnssec || !x.2)));
                (if known { v } else { None }, p + 2, rest >= 2)
            }
            Cur::Cs | Cur::Text => {
                let v = fix(1).map(|b| b[0] as usize).and_then(|l| fix(1 + l)).map(|b| b[1..].to_vec());
                let v = v.filter(|b| !matches!(o, Cur::Text) || std::str::from_utf8(b).is_ok());
                let l = v.as_ref().map(|b| b.len() + 1).unwrap_or(0);
                (v.map(F::B), p + l, true)
            }
            Cur::Name => {
                let mut x = model::Dec::new(d);
                x.p = p;
                let r = x.name().ok();
                let to = x.p;
                (r.map(F::Name), to, true)
            }
            Cur::Bytes(n) => (fix(*n).map(|b| F::B(b.to_vec())), p.wrapping_add(*n), false),
            Cur::Peek(n) => (fix(*n).map(|b| F::B(b.to_vec())), p, false),
            Cur::Skip(n) => (fix(*n).map(|_| F::N(0)), p.wrapping_add(*n), false),
            Cur::Seek(n) => (if *n <= d.len() { Some(F::N(0)) } else { None }, *n, false),
            Cur::Window(n, inner) => match fix(*n) {
                Some(_) => {
                    let Some(w) = got.next() else { return bad("cursor", "no result") };
                    if w.all != d[..p + n] || w.pos != p || w.rest != *n {
                        return bad("window", format!("a window of {n} at {p} shows {} bytes up to {}, position {}", w.rest, w.all.len(), w.pos));
                    }
                    let mut mm = M { d: &d[..p + n], pos: p, dnssec: m.dnssec };
                    follow(&mut mm, inner, got, c)?;
                    (Some(F::N(0)), p, false)
                }
                None => (None, p, false),
            },
        };
        let Some(r) = got.next() else { return bad("cursor", "no result") };
        let what = || {
            let mut s = format!("{o:?}");
            s.truncate(60);
            format!("{s} at {p} of {}", d.len())
        };
        c.count(if r.out.is_some() { "operations that succeeded" } else { "fault operation refused" });
        if r.out != want {
            return bad("result", format!("{}: got {:?} instead of {want:?}", what(), r.out));
        }
        if r.all != d {
            return bad("buffer", format!("{}: the buffer changed", what()));
        }
        let expect = if want.is_some() {
            to
        } else if open {
            r.pos
        } else {
            p
        };
        if r.pos != expect || r.pos > d.len() || r.rest != d.len() - r.pos {
            return bad("position", format!("{}: position {} (remaining {}) instead of {expect}", what(), r.pos, r.rest));
        }
        m.pos = r.pos;
        c.ev(r.pos as u64 ^ (r.out.is_some() as u64) << 40);
    }
    Ok(())
}

pub fn c14(c: &mut Ctx) -> Res {
    // what the sender writes
    let data = match c.g.below(4) {
        0 => {
            let n = c.g.len(300);
            c.g.bytes(n)
        }
        1 => {
            let n = c.g.idx(40);
            (0..n).map(|_| c.g.pick(&[0, 1, 2, 3, 63, 64, 0xc0, 0xff, b'a', 5, 12])).collect()
        }
        _ => {
            let mut cfg = gen::cfg(&mut c.g, true, true);
            cfg.max_rr = 2;
            let m = gen::msg(&mut c.g, &mut cfg);
            model::encode(&m, Comp::Wild, Some(&mut c.g))
        }
    };
    c.ev_bytes(&data);
    let mut have = if c.g.pct(50) { data.len() } else { c.g.idx(data.len() + 1) };
    let mut pos = 0;
    let fl = c.g.pct(50);
    c.nontrivial = true;
    let rounds = 1 + c.g.idx(5);
    for _ in 0..rounds {
        let plan = ops(&mut c.g, data.len(), 0);
        c.log(|| format!("{have} of {} bytes there, position {pos}: {plan:?}; {}", data.len(), model::short_hex(&data)));
        let d = &data[..have];
        let got = c.lib("reading", || if fl { full::cursor_from(d, pos, &plan) } else { plain::cursor_from(d, pos, &plan) })?;
        let mut m = M { d, pos, dnssec: fl };
        let mut it = got.iter();
        follow(&mut m, &plan, &mut it, c)?;
        pos = m.pos;
        if have < data.len() {
            // the next segment arrives; the reader continues where it stood
            c.count("fault bytes arrive late");
            have += 1 + c.g.idx(data.len() - have);
            if c.g.pct(20) {
                pos = c.g.idx(pos + 1);
            }
        }
    }
    Ok(())
}
