//! The library inside a hostile process: streams closed, full or failing, a wandering clock, a strange
//! environment. Nothing may be asked of the outside except randomness, and no result may change. C16.
use crate::engine::{bad, Ctx, Res};
use crate::ops::{self, Op, Shared};
use crate::{rt, w_attack, w_cursor, w_edit, w_route, w_sign, w_stream};
use std::io::Write;

fn judge(c: &mut Ctx, what: &str) -> Res {
    // what was printed without a line end is still in the buffer
    let _ = rt::lib(|| {
        let _ = std::io::stdout().flush();
    });
    let (n, k, t) = rt::outside_calls(true);
    c.count("calls watched");
    if n > 0 {
        return bad("outside", format!("{what}: {n} outside calls, the first is a {}", rt::io_kind_name(k)));
    }
    if !rt::hook_is_ours() {
        return bad("hook", format!("{what}: the program's panic hook was replaced"));
    }
    if t > 0 {
        return bad("clock", format!("{what}: the clock was read {t} times"));
    }
    Ok(())
}
fn call(o: &Op, shared: &[Shared]) -> String {
    rt::set_entropy(o.ent);
    match rt::lib(|| o.run(shared)) {
        Ok(s) => s,
        Err(m) => format!("panic: {m}"),
    }
}
fn weather(c: &mut Ctx) -> (i32, i64, u64) {
    let e = c.g.pick(&[libc::EPIPE, libc::ENOSPC, libc::EIO, libc::EBADF, libc::EAGAIN]);
    let t = match c.g.below(5) {
        0 => 0,
        1 => 0x7fff_ffff + c.g.below(3) as i64,
        2 => 0xffff_ffff + c.g.below(3) as i64,
        3 => 1_700_000_000 + c.g.below(200_000_000) as i64,
        _ => -(c.g.below(1000) as i64),
    };
    (e, t, 1 + c.g.below(2))
}

pub fn c16(c: &mut Ctx) -> Res {
    let whole = c.g.below(10);
    let (err, clock, env) = weather(c);
    if rt::watch() {
        c.count("runs with every system call watched");
    }
    rt::outside_calls(true);
    c.nontrivial = true;
    if whole < 5 {
        // one of the other worlds, in bad weather; its own verdict is not asked for here
        rt::set_io_fault(err);
        rt::set_clock(clock);
        rt::set_env(env);
        c.count("fault streams failing");
        let w: (&'static str, fn(&mut Ctx) -> Res) = match c.g.below(16) {
            0..=4 => ("hostile messages", w_attack::c01),
            5 => ("amplification", w_attack::c02),
            6 => ("routes", w_route::c03),
            7 => ("compressed routes", w_route::c04),
            8 => ("streams", w_stream::c05),
            9 => ("editing", w_edit::c06),
            10 => ("processes", w_edit::c07),
            11 => ("signed sets", w_sign::c09),
            12 => ("tampering", w_sign::c10),
            13 => ("failing randomness", w_sign::c11),
            14 => ("cursors", w_cursor::c14),
            _ => ("delegations", w_sign::c15),
        };
        c.count(w.0);
        c.log(|| format!("world: {}, stream error {err}, clock {clock}", w.0));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| w.1(c)));
        rt::set_in_lib(false);
        rt::mem_cap(None);
        if !matches!(r, Ok(Ok(()))) {
            c.count("runs that broke another property");
        }
        return judge(c, w.0);
    }
    let n = 1 + c.g.idx(3);
    let heavy = c.g.pct(20);
    let plan = ops::draw(c, n, heavy);
    let shared: Vec<Shared> = match rt::lib(|| plan.shared.iter().map(|m| ops::share(m, plan.both)).collect()) {
        Ok(s) => s,
        Err(_) => return judge(c, "building messages"),
    };
    judge(c, "building messages")?;
    for o in &plan.ops {
        c.log(|| o.label());
        rt::set_io_fault(0);
        rt::set_clock(1_700_000_000);
        rt::set_env(0);
        let a = call(o, &shared);
        judge(c, &o.label())?;
        rt::set_io_fault(err);
        rt::set_clock(clock);
        rt::set_env(env);
        c.count("fault streams failing");
        c.count("fault clock moved");
        let b = call(o, &shared);
        judge(c, &o.label())?;
        c.ev(ops::hash(a.as_bytes()));
        if a != b {
            let at = a.bytes().zip(b.bytes()).take_while(|(a, b)| a == b).count();
            let cut = |x: &str| String::from_utf8_lossy(&x.as_bytes()[at.saturating_sub(30).min(x.len())..x.len().min(at + 120)]).into_owned();
            return bad("result", format!("{}: ..{}.. with failing streams, ..{}.. otherwise", o.label(), cut(&b), cut(&a)));
        }
    }
    Ok(())
}
