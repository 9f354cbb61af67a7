//! A message inside a node of any flavour.
use crate::engine::{bad, Ctx, V};
use crate::model::{self, Comp, Ed, Msg};
use crate::{full, plain};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fl {
    Full,
    Plain,
    Foreign,
}
#[derive(Clone)]
pub enum Pk {
    Full(full::Packet),
    Plain(plain::Packet),
    Foreign(Msg),
}

pub fn expected(fl: Fl, m: &Msg) -> Msg {
    match fl {
        Fl::Full => full::expected(m),
        Fl::Plain => plain::expected(m),
        Fl::Foreign => model::on_wire(m),
    }
}

impl Pk {
    /// The node's own way of making a message with this content.
    pub fn make(c: &mut Ctx, fl: Fl, m: &Msg) -> Result<Pk, V> {
        Ok(match fl {
            Fl::Full => Pk::Full(c.lib("building", || full::make(m))?),
            Fl::Plain => Pk::Plain(c.lib("building", || plain::make(m))?),
            Fl::Foreign => Pk::Foreign(m.clone()),
        })
    }
    pub fn decode(c: &mut Ctx, fl: Fl, d: &[u8]) -> Result<Result<Pk, String>, V> {
        Ok(match fl {
            Fl::Full => c.lib("decoding", || full::decode(d))?.map(Pk::Full),
            Fl::Plain => c.lib("decoding", || plain::decode(d))?.map(Pk::Plain),
            Fl::Foreign => model::decode_strict(d).map(|x| Pk::Foreign(x.0)),
        })
    }
    pub fn observe(&self, c: &mut Ctx) -> Result<Msg, V> {
        match self {
            Pk::Full(p) => c.lib("reading", || full::observe(p)),
            Pk::Plain(p) => c.lib("reading", || plain::observe(p)),
            Pk::Foreign(m) => Ok(m.clone()),
        }
    }
    pub fn edit(self, c: &mut Ctx, e: &Ed) -> Result<Pk, V> {
        Ok(match self {
            Pk::Full(p) => Pk::Full(c.lib("editing", || full::edit(p, e))?),
            Pk::Plain(p) => Pk::Plain(c.lib("editing", || plain::edit(p, e))?),
            Pk::Foreign(mut m) => {
                e.apply(&mut m, true);
                Pk::Foreign(m)
            }
        })
    }
    pub fn flavour(&self) -> Fl {
        match self {
            Pk::Full(_) => Fl::Full,
            Pk::Plain(_) => Fl::Plain,
            Pk::Foreign(_) => Fl::Foreign,
        }
    }
    pub fn encode(&self, c: &mut Ctx, compressed: bool) -> Result<Vec<u8>, V> {
        match self {
            Pk::Full(p) => c.lib("encoding", || if compressed { full::comp_bytes(p) } else { full::plain_bytes(p) }),
            Pk::Plain(p) => c.lib("encoding", || if compressed { plain::comp_bytes(p) } else { plain::plain_bytes(p) }),
            Pk::Foreign(m) => {
                let how = if !compressed {
                    Comp::None
                } else if c.g.pct(50) {
                    Comp::Wild
                } else {
                    Comp::Std
                };
                Ok(model::encode(m, how, Some(&mut c.g)))
            }
        }
    }
    /// The message must show exactly this content.
    pub fn must_show(&self, c: &mut Ctx, ghost: &Msg, at: &str) -> Result<(), V> {
        let got = self.observe(c)?;
        let want = expected(self.flavour(), ghost);
        match model::diff(&want, &got) {
            None => Ok(()),
            Some(d) => bad("content", format!("{at} ({:?} build) reads something else than was sent: {d}", self.flavour())),
        }
    }
}

/// Wire bytes must say, to an independent decoder, exactly what the content model says.
/// Returns the content with the top bits as they are on the wire.
pub fn must_encode(from: Fl, wire: &[u8], ghost: &Msg, at: &str) -> Result<(Msg, u64), V> {
    let want = model::on_wire(ghost);
    match model::decode_strict(wire) {
        Err(e) => bad("wire", format!("{at}: bytes written by a {from:?} build are not a well-formed message: {e}; {}", model::short_hex(wire))),
        Ok((mut got, ptrs)) => {
            let out = got.clone();
            if from == Fl::Plain {
                // a plain build may drop the top bit, never invent it
                for (a, b) in got.q.iter_mut().zip(&want.q) {
                    if !a.top {
                        a.top = b.top;
                    }
                }
                for s in 0..3 {
                    for (a, b) in got.s[s].iter_mut().zip(&want.s[s]) {
                        if !a.top {
                            a.top = b.top;
                        }
                    }
                }
            }
            match model::diff(&want, &got) {
                None => Ok((out, ptrs)),
                Some(d) => bad("wire-content", format!("{at}: a {from:?} build wrote something else: {d}")),
            }
        }
    }
}
