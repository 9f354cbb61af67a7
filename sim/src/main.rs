mod engine;
mod gen;
mod model;
mod ops;
mod pk;
mod probes;
mod props;
mod rt;
mod sec;
mod tape;
mod w_attack;
mod w_cursor;
mod w_edit;
mod w_quiet;
mod w_route;
mod w_sign;
mod w_stream;
mod w_threads;

#[global_allocator]
static A: rt::Alloc = rt::Alloc;

/// Build with every feature.
mod full {
    use maybe_dns as dns;
    pub const FULL: bool = true;
    macro_rules! full { ($($t:tt)*) => { $($t)* } }
    macro_rules! plain { ($($t:tt)*) => {} }
    include!("node.rs");
}
/// Build without features.
mod plain {
    use maybe_dns_plain as dns;
    pub const FULL: bool = false;
    macro_rules! full { ($($t:tt)*) => {} }
    macro_rules! plain { ($($t:tt)*) => { $($t)* } }
    include!("node.rs");
}

/// Addresses decide nothing, but repeatable ones make single-stepped runs repeatable.
fn fixed_addresses() {
    unsafe {
        if libc::personality(0xffff_ffff) & libc::ADDR_NO_RANDOMIZE == 0 && std::env::var_os("SIM_REEXEC").is_none() {
            libc::personality(libc::ADDR_NO_RANDOMIZE as u64);
            use std::os::unix::process::CommandExt;
            if let Ok(me) = std::env::current_exe() {
                let e = std::process::Command::new(me).args(std::env::args_os().skip(1)).env("SIM_REEXEC", "1").exec();
                eprintln!("cannot start again with fixed addresses: {e}");
            }
        }
    }
}

/// Keys the library draws once per process are drawn here, from a fixed source, so that
/// they do not depend on which run comes first.
pub fn first_use(id: &str) {
    if id == "C08" || id == "C16" {
        // what happens at first use is part of these two
        return;
    }
    let m = model::Msg { q: vec![model::Q { name: vec![b"a".to_vec()], qtype: 1, class: 1, top: false }], ..Default::default() };
    std::thread::spawn(move || {
        rt::set_entropy(0x0dd_ba11);
        let _ = rt::lib(|| full::comp_bytes(&full::make(&m)));
        let _ = rt::lib(|| plain::comp_bytes(&plain::make(&m)));
    })
    .join()
    .ok();
}

fn main() {
    fixed_addresses();
    rt::init();
    let a: Vec<String> = std::env::args().collect();
    let env = |k: &str| std::env::var(k).ok();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check" | "survey") => {
            let Some(p) = a.get(2).and_then(|id| props::ALL.iter().find(|p| p.id == id)) else {
                eprintln!("unknown property");
                std::process::exit(2)
            };
            sec::pool();
            tape::DICT.set(tape::harvest("/repo/src")).ok();
            let thorough = env("VERIF_TIER").as_deref() == Some("thorough");
            let o = engine::Opts {
                seed: env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1),
                thorough,
                runs: env("SIM_RUNS").and_then(|s| s.parse().ok()),
                wall: env("SIM_WALL").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3000 } else { 90 }),
                survey: a[1] == "survey",
            };
            engine::check(p, &o)
        }
        Some("replay") => engine::replay(props::ALL, a.get(2).map(|s| s.as_str()).unwrap_or("")),
        _ => {
            eprintln!("usage: sim check|survey PROPERTY | sim replay FILE");
            2
        }
    };
    std::process::exit(code)
}
