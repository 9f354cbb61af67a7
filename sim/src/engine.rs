//! Runs simulations in forked worker processes, attributes crashes, minimises, replays, reports.
use crate::rt;
use crate::tape::{self, Tape};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct V {
    pub kind: String,
    pub detail: String,
}
pub fn bad<T>(kind: &str, detail: impl Into<String>) -> Result<T, V> {
    Err(V { kind: kind.to_string(), detail: detail.into() })
}
pub type Res = Result<(), V>;

/// Counters of a run; names starting with "max " keep the largest value.
#[derive(Default)]
pub struct Tally(pub BTreeMap<&'static str, u64>);
impl Tally {
    pub fn count(&mut self, k: &'static str) {
        *self.0.entry(k).or_insert(0) += 1;
    }
}

/// What one simulated run owns.
pub struct Ctx {
    pub g: Tape,
    pub h: u64,
    pub verbose: bool,
    pub trace: String,
    pub tally: Tally,
    pub maxes: BTreeMap<&'static str, u64>,
    /// simulated microseconds
    pub sim_us: u64,
    pub nontrivial: bool,
    pub thorough: bool,
}
impl Ctx {
    pub fn new(g: Tape, verbose: bool, thorough: bool) -> Self {
        Ctx { g, h: 0x5eed, verbose, trace: String::new(), tally: Tally::default(), maxes: BTreeMap::new(), sim_us: 0, nontrivial: false, thorough }
    }
    pub fn ev(&mut self, x: u64) {
        self.h = rt::mix(self.h ^ x);
    }
    pub fn ev_bytes(&mut self, b: &[u8]) {
        let mut h = self.h ^ b.len() as u64;
        for c in b.chunks(8) {
            let mut a = [0u8; 8];
            a[..c.len()].copy_from_slice(c);
            h = rt::mix(h ^ u64::from_le_bytes(a));
        }
        self.h = h;
    }
    pub fn count(&mut self, k: &'static str) {
        self.tally.count(k);
    }
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.tally.0.entry(k).or_insert(0) += n;
    }
    pub fn max(&mut self, k: &'static str, n: u64) {
        let e = self.maxes.entry(k).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if self.verbose && self.trace.len() < 60_000 {
            let s = f();
            let _ = writeln!(self.trace, "{s}");
        }
    }
    /// A call into the library: a panic is a violation of whatever is being checked.
    pub fn lib<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> Result<T, V> {
        match rt::lib(f) {
            Ok(x) => Ok(x),
            Err(m) => {
                let m: String = m.chars().take(600).collect();
                bad(&format!("panic {}", m.rsplit(" at ").next().unwrap_or("")), format!("{what}: {m}"))
            }
        }
    }
}

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Ctx) -> Res,
    pub quick: u64,
    pub thorough: u64,
    pub cpu_s: u64,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    pub probes: Option<fn() -> Vec<Probe>>,
}
/// A listed limitation: replayed on every run; reported as KNOWN-FINDING while it persists.
pub struct Probe {
    pub key: &'static str,
    pub what: &'static str,
    /// true: still fails in the listed way
    pub present: bool,
}

#[derive(Clone, Debug)]
pub enum Outcome {
    Good { hash: u64, nontrivial: bool, sim_us: u64 },
    Bad(V),
}

pub struct Done {
    pub out: Outcome,
    pub tape: Vec<u64>,
    pub trace: String,
    pub stats: BTreeMap<&'static str, u64>,
    pub maxes: BTreeMap<&'static str, u64>,
}

/// One run on a fresh thread.
fn one(p: &'static Prop, tape: Tape, verbose: bool, thorough: bool) -> Done {
    let h = std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || {
            rt::set_entropy(0x1234_5678_9abc_def1);
            let mut c = Ctx::new(tape, verbose, thorough);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.run)(&mut c)));
            rt::mem_cap(None);
            let out = match r {
                Ok(Ok(())) => Outcome::Good { hash: c.h, nontrivial: c.nontrivial, sim_us: c.sim_us },
                Ok(Err(v)) => Outcome::Bad(v),
                Err(_) => Outcome::Bad(V { kind: "HARNESS".into(), detail: rt::last_panic() }),
            };
            Done { out, tape: std::mem::take(&mut c.g.out), trace: std::mem::take(&mut c.trace), stats: std::mem::take(&mut c.tally.0), maxes: std::mem::take(&mut c.maxes) }
        })
        .expect("thread");
    h.join().expect("run thread")
}

pub fn run_seed(seed: u64, id: &str, run: u64) -> u64 {
    let mut x = rt::mix(seed);
    for b in id.bytes() {
        x = rt::mix(x ^ b as u64);
    }
    rt::mix(x ^ run)
}

// ---------------------------------------------------------------- shared memory

const SLOTS: usize = 64;
const TEXT: usize = 48 << 10;
const TAPE: usize = tape::MAX_TAPE;
const TABLE: usize = 1 << 23;
const NAMES: usize = 512;

#[repr(C)]
struct Slot {
    run: AtomicU64, // run + 1 while executing
    state: AtomicU64,
    len: AtomicU64,
    klen: AtomicU64,
    hash: AtomicU64,
    extra: AtomicU64,
    text: [u8; TEXT],
    tape_len: u64,
    tape: [u64; TAPE],
}
#[repr(C)]
struct Shared {
    next: AtomicU64,
    min_bad: AtomicU64,
    runs: AtomicU64,
    distinct: AtomicU64,
    sim_us: AtomicU64,
    lock: AtomicU64,
    names_n: AtomicU64,
    names: [[u8; 48]; NAMES],
    counts: [AtomicU64; NAMES],
    slots: [Slot; SLOTS],
    table: [AtomicU64; TABLE],
}
fn shared() -> &'static mut Shared {
    static P: AtomicU64 = AtomicU64::new(0);
    if P.load(SeqCst) == 0 {
        let n = std::mem::size_of::<Shared>();
        let p = unsafe { libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0) };
        assert!(p != libc::MAP_FAILED, "shared memory");
        P.store(p as u64, SeqCst);
    }
    unsafe { &mut *(P.load(SeqCst) as *mut Shared) }
}
fn flush_stats(s: &mut Shared, stats: &BTreeMap<&'static str, u64>, largest: bool) {
    for (k, v) in stats {
        let find = |s: &Shared| (0..s.names_n.load(SeqCst) as usize).find(|i| &s.names[*i][1..1 + s.names[*i][0] as usize] == &k.as_bytes()[..k.len().min(47)]);
        let i = match find(s) {
            Some(i) => i,
            None => {
                while s.lock.compare_exchange(0, 1, SeqCst, SeqCst).is_err() {
                    std::thread::yield_now();
                }
                let i = find(s).unwrap_or_else(|| {
                    let i = s.names_n.load(SeqCst) as usize;
                    let l = k.len().min(47);
                    s.names[i][0] = l as u8;
                    s.names[i][1..1 + l].copy_from_slice(&k.as_bytes()[..l]);
                    s.names_n.store(i as u64 + 1, SeqCst);
                    i
                });
                s.lock.store(0, SeqCst);
                i
            }
        };
        if largest {
            s.counts[i].fetch_max(*v, SeqCst);
        } else {
            s.counts[i].fetch_add(*v, SeqCst);
        }
    }
}
fn insert_hash(s: &Shared, h: u64) {
    let h = h.max(1);
    let mut i = rt::mix(h) as usize % TABLE;
    for _ in 0..TABLE / 2 {
        match s.table[i].compare_exchange(0, h, SeqCst, SeqCst) {
            Ok(_) => {
                s.distinct.fetch_add(1, SeqCst);
                return;
            }
            Err(x) if x == h => return,
            _ => i = (i + 1) % TABLE,
        }
    }
}

fn cpu_limit(secs: u64) {
    // SIGPROF kills the process when one run burns more than this
    let it = libc::itimerval { it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 }, it_value: libc::timeval { tv_sec: secs as i64, tv_usec: 0 } };
    unsafe { libc::setitimer(libc::ITIMER_PROF, &it, std::ptr::null_mut()) };
}
fn put(slot: &mut Slot, d: &Done) {
    match &d.out {
        Outcome::Good { hash, nontrivial, .. } => {
            slot.hash.store(*hash, SeqCst);
            slot.extra.store(*nontrivial as u64, SeqCst);
            let t = d.trace.as_bytes();
            let n = t.len().min(TEXT);
            slot.text[..n].copy_from_slice(&t[..n]);
            slot.len.store(n as u64, SeqCst);
            slot.klen.store(0, SeqCst);
        }
        Outcome::Bad(v) => {
            let k = v.kind.as_bytes();
            let kl = k.len().min(300);
            let body = format!("{}\n{}", v.detail, d.trace);
            let b = body.as_bytes();
            let n = b.len().min(TEXT - kl);
            slot.text[..kl].copy_from_slice(&k[..kl]);
            slot.text[kl..kl + n].copy_from_slice(&b[..n]);
            slot.klen.store(kl as u64, SeqCst);
            slot.len.store((kl + n) as u64, SeqCst);
        }
    }
}

const BATCH: u64 = 128;

#[derive(Clone, Debug)]
pub enum Spec {
    Seed(u64),
    Tape(Vec<u64>),
}

enum Exec {
    Good { hash: u64, trace: String },
    Bad(V, String, Vec<u64>),
}

fn wait(pid: i32, block: bool) -> Option<i32> {
    let mut st = 0;
    loop {
        let r = unsafe { libc::waitpid(pid, &mut st, if block { 0 } else { libc::WNOHANG }) };
        if r == pid {
            return Some(st);
        }
        if r == 0 {
            return None;
        }
        if unsafe { *libc::__errno_location() } != libc::EINTR {
            return Some(-1);
        }
    }
}
fn death(st: i32) -> V {
    let sig = st & 0x7f;
    let (k, d) = match sig {
        libc::SIGPROF => ("hang".to_string(), "the run used up its processor time: a library call does not terminate in reasonable time".to_string()),
        libc::SIGABRT => ("abort".to_string(), "the process was aborted inside a library call (allocation refused, panic in panic, or undefined behaviour detected)".to_string()),
        libc::SIGSEGV | libc::SIGBUS => ("crash".to_string(), format!("the process died of signal {sig} (invalid memory access or stack overflow)")),
        0 => ("exit".to_string(), format!("the process ended itself with status {}", st >> 8 & 255)),
        s => (format!("signal {s}"), format!("the process died of signal {s}")),
    };
    V { kind: k, detail: d }
}

/// Executes a history of runs in a fresh process; the outcome is that of the last one.
fn exec(p: &'static Prop, seed: u64, specs: &[Spec], verbose: bool, thorough: bool, cpu: u64) -> Exec {
    let sh = shared();
    let slot_i = SLOTS - 1;
    sh.slots[slot_i].state.store(0, SeqCst);
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork");
    if pid == 0 {
        silence();
        let slot = &mut shared().slots[slot_i];
        slot.tape_len = 0;
        for (i, s) in specs.iter().enumerate() {
            cpu_limit(cpu);
            let t = match s {
                Spec::Seed(r) => Tape::random(run_seed(seed, p.id, *r)),
                Spec::Tape(v) => Tape::replay(v.clone()),
            };
            if i + 1 == specs.len() {
                tape::MIRROR.store(&mut slot.tape_len as *mut u64 as u64, SeqCst);
            }
            let d = one(p, t, verbose && i + 1 == specs.len(), thorough);
            if i + 1 == specs.len() {
                put(slot, &d);
                slot.state.store(if matches!(d.out, Outcome::Bad(_)) { 2 } else { 1 }, SeqCst);
            }
        }
        unsafe { libc::_exit(0) };
    }
    let st = wait(pid, true).unwrap_or(-1);
    let slot = &sh.slots[slot_i];
    let n = slot.len.load(SeqCst) as usize;
    let kl = slot.klen.load(SeqCst) as usize;
    let tape = unsafe {
        let a = std::ptr::addr_of!(slot.tape_len);
        let n = (a.read_volatile() as usize).min(TAPE);
        std::slice::from_raw_parts(a.add(1), n).to_vec()
    };
    match (st, slot.state.load(SeqCst)) {
        (0, 1) => Exec::Good { hash: slot.hash.load(SeqCst), trace: String::from_utf8_lossy(&slot.text[..n]).into_owned() },
        (0, 2) => {
            let kind = String::from_utf8_lossy(&slot.text[..kl]).into_owned();
            let body = String::from_utf8_lossy(&slot.text[kl..n]).into_owned();
            let (d, t) = body.split_once('\n').unwrap_or((&body, ""));
            Exec::Bad(V { kind, detail: d.to_string() }, t.to_string(), tape)
        }
        (st, _) => Exec::Bad(death(st), String::new(), tape),
    }
}
fn silence() {
    unsafe {
        let rl = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &rl);
        if std::env::var_os("SIM_DEBUG").is_none() {
            let n = rt::raw_syscall(libc::SYS_openat, libc::AT_FDCWD as isize as usize, c"/dev/null".as_ptr() as usize, libc::O_WRONLY as usize, 0, 0, 0) as i32;
            if n >= 0 {
                libc::dup2(n, 2);
            }
        }
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
}

pub struct Opts {
    pub seed: u64,
    pub thorough: bool,
    pub runs: Option<u64>,
    pub wall: u64,
    pub survey: bool,
}

struct Found {
    run: u64,
    v: V,
}

/// The campaign: all runs up to the limit, in parallel; the violation of the lowest run is kept.
fn campaign(p: &'static Prop, o: &Opts, t0: Instant) -> (Option<Found>, BTreeMap<String, (u64, u64, String)>, bool) {
    let sh = shared();
    sh.min_bad.store(u64::MAX, SeqCst);
    let total = o.runs.unwrap_or(if o.thorough { p.thorough } else { p.quick });
    let jobs = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).clamp(2, 32);
    let mut procs: Vec<Option<(i32, u64)>> = vec![None; jobs];
    let mut next = 0u64;
    let mut found: Option<Found> = None;
    let mut survey: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
    let mut capped = false;
    let mut start_from: Vec<(u64, u64)> = Vec::new(); // rest of batches interrupted in survey mode
    loop {
        let mut busy = false;
        for w in 0..jobs {
            if let Some((pid, _)) = procs[w] {
                if let Some(st) = wait(pid, false) {
                    let (_, end) = procs[w].take().unwrap();
                    let slot = &sh.slots[w];
                    let run1 = slot.run.load(SeqCst);
                    let v = if st == 0 {
                        if slot.state.load(SeqCst) == 2 {
                            let kl = slot.klen.load(SeqCst) as usize;
                            let n = slot.len.load(SeqCst) as usize;
                            let d = String::from_utf8_lossy(&slot.text[kl..n]).into_owned();
                            Some(V { kind: String::from_utf8_lossy(&slot.text[..kl]).into_owned(), detail: d.lines().next().unwrap_or("").to_string() })
                        } else {
                            None
                        }
                    } else if run1 > 0 {
                        Some(death(st))
                    } else {
                        Some(V { kind: "HARNESS".into(), detail: format!("worker ended outside a run: {st}") })
                    };
                    if let Some(v) = v {
                        let run = run1.saturating_sub(1);
                        if o.survey {
                            let e = survey.entry(v.kind.clone()).or_insert((0, run, v.detail.clone()));
                            e.0 += 1;
                            if run < e.1 {
                                *e = (e.0, run, v.detail.clone());
                            }
                            if run + 1 < end {
                                start_from.push((run + 1, end));
                            }
                        } else if found.as_ref().map(|f| run < f.run).unwrap_or(true) {
                            sh.min_bad.fetch_min(run, SeqCst);
                            found = Some(Found { run, v });
                        }
                    }
                } else {
                    busy = true;
                }
            }
            if procs[w].is_none() {
                let job = if let Some(j) = start_from.pop() {
                    Some(j)
                } else if next < total && next < sh.min_bad.load(SeqCst) && t0.elapsed().as_secs() < o.wall {
                    let b = next;
                    next += BATCH;
                    Some((b, (b + BATCH).min(total)))
                } else {
                    if next < total && t0.elapsed().as_secs() >= o.wall {
                        capped = true;
                    }
                    None
                };
                if let Some((from, to)) = job {
                    sh.slots[w].run.store(0, SeqCst);
                    sh.slots[w].state.store(0, SeqCst);
                    let pid = unsafe { libc::fork() };
                    assert!(pid >= 0, "fork");
                    if pid == 0 {
                        silence();
                        worker(p, o, w, from, to);
                        unsafe { libc::_exit(0) };
                    }
                    procs[w] = Some((pid, to));
                    busy = true;
                }
            }
        }
        if !busy {
            return (found, survey, capped);
        }
        std::thread::sleep(Duration::from_micros(800));
    }
}

fn worker(p: &'static Prop, o: &Opts, w: usize, from: u64, to: u64) {
    let sh = shared();
    for run in from..to {
        if run > sh.min_bad.load(SeqCst) {
            break;
        }
        sh.slots[w].run.store(run + 1, SeqCst);
        cpu_limit(p.cpu_s);
        let d = one(p, Tape::random(run_seed(o.seed, p.id, run)), false, o.thorough);
        sh.runs.fetch_add(1, SeqCst);
        flush_stats(sh, &d.stats, false);
        flush_stats(sh, &d.maxes, true);
        match &d.out {
            Outcome::Good { hash, nontrivial, sim_us } => {
                sh.sim_us.fetch_add(*sim_us, SeqCst);
                if *nontrivial {
                    insert_hash(sh, *hash);
                }
            }
            Outcome::Bad(_) => {
                put(&mut sh.slots[w], &d);
                sh.slots[w].state.store(2, SeqCst);
                return;
            }
        }
    }
    sh.slots[w].run.store(0, SeqCst);
}

// ---------------------------------------------------------------- minimisation

fn same(e: &Exec, kind: &str) -> bool {
    matches!(e, Exec::Bad(v, _, _) if v.kind == kind)
}

fn minimise(p: &'static Prop, o: &Opts, run: u64, kind: &str) -> Option<(Vec<Spec>, u64)> {
    let t0 = Instant::now();
    let limit = Duration::from_secs(if o.thorough { 180 } else { 60 });
    let slow = kind == "hang";
    let cpu = if slow { 3 } else { p.cpu_s };
    let mut execs = 0u64;
    let mut go = |s: &[Spec], execs: &mut u64| {
        *execs += 1;
        exec(p, o.seed, s, false, o.thorough, cpu)
    };
    // alone, or does it need the runs before it?
    let mut specs = vec![Spec::Seed(run)];
    let mut last = go(&specs, &mut execs);
    if !same(&last, kind) {
        let first = run / BATCH * BATCH;
        specs = (first..=run).map(Spec::Seed).collect();
        last = go(&specs, &mut execs);
        if !same(&last, kind) {
            return None;
        }
        let mut step = (specs.len() - 1).max(1);
        while step > 0 && t0.elapsed() < limit {
            let mut i = 0;
            while i < specs.len() - 1 && t0.elapsed() < limit {
                let mut c = specs.clone();
                let hi = (i + step).min(c.len() - 1);
                c.drain(i..hi);
                if same(&go(&c, &mut execs), kind) {
                    specs = c;
                } else {
                    i += step;
                }
            }
            step /= 2;
        }
    }
    // make the last run explicit
    let lasti = specs.len() - 1;
    let mut cur: Vec<u64> = match go(&specs, &mut execs) {
        Exec::Bad(_, _, t) if !t.is_empty() => t,
        _ => {
            return Some((specs, execs));
        }
    };
    let mut with = |t: &Vec<u64>, execs: &mut u64| {
        let mut s = specs.clone();
        s[lasti] = Spec::Tape(t.clone());
        go(&s, execs)
    };
    if !same(&with(&cur, &mut execs), kind) {
        return Some((specs, execs));
    }
    // shorter tail first, then delete chunks, then zero chunks, then lower single values
    let mut pass = 0;
    loop {
        let before = cur.clone();
        let mut size = (cur.len() / 2).max(1);
        while size > 0 && t0.elapsed() < limit && execs < 6000 {
            let mut i = cur.len();
            while i > 0 && t0.elapsed() < limit && execs < 6000 {
                let lo = i.saturating_sub(size);
                let mut c = cur.clone();
                c.drain(lo..i);
                if let Exec::Bad(v, _, t) = with(&c, &mut execs) {
                    if v.kind == kind {
                        cur = if !t.is_empty() && t.len() <= c.len() { t } else { c };
                        i = lo.min(cur.len());
                        continue;
                    }
                }
                let mut c = cur.clone();
                if c[lo..i].iter().any(|x| *x != 0) {
                    c[lo..i].iter_mut().for_each(|x| *x = 0);
                    if let Exec::Bad(v, _, t) = with(&c, &mut execs) {
                        if v.kind == kind {
                            cur = if !t.is_empty() && t.len() <= c.len() { t } else { c };
                        }
                    }
                }
                i = lo.min(cur.len());
            }
            size /= 2;
        }
        for i in 0..cur.len().min(400) {
            if t0.elapsed() >= limit || execs >= 6000 {
                break;
            }
            if i < cur.len() && cur[i] > 1 {
                for nv in [1, cur[i] / 2, cur[i] - 1] {
                    let mut c = cur.clone();
                    c[i] = nv;
                    if same(&with(&c, &mut execs), kind) {
                        cur = c;
                        break;
                    }
                }
            }
        }
        pass += 1;
        if pass >= 3 || cur == before || t0.elapsed() >= limit || execs >= 6000 {
            break;
        }
    }
    while cur.last() == Some(&0) {
        let mut c = cur.clone();
        c.pop();
        if same(&with(&c, &mut execs), kind) {
            cur = c;
        } else {
            break;
        }
    }
    let mut s = specs.clone();
    s[lasti] = Spec::Tape(cur);
    Some((s, execs))
}

// ---------------------------------------------------------------- replay files

fn write_replay(path: &str, p: &Prop, o: &Opts, run: u64, v: &V, specs: &[Spec], trace: &str) {
    let mut s = String::new();
    let d = tape::dict();
    let _ = writeln!(s, "# maybe-dns simulation replay; run: /verif/check.sh replay {path}");
    let _ = writeln!(s, "property {}", p.id);
    let _ = writeln!(s, "seed {}", o.seed);
    let _ = writeln!(s, "tier {}", if o.thorough { "thorough" } else { "quick" });
    let _ = writeln!(s, "run {run}");
    let _ = writeln!(s, "kind {}", v.kind.replace('\n', " "));
    let _ = writeln!(s, "dict-ints {}", d.ints.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
    let _ = writeln!(s, "dict-strs {}", d.strs.iter().map(|x| crate::model::hex(x)).collect::<Vec<_>>().join(","));
    for sp in specs {
        match sp {
            Spec::Seed(r) => {
                let _ = writeln!(s, "seeded {r}");
            }
            Spec::Tape(t) => {
                let _ = writeln!(s, "tape {}", t.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
            }
        }
    }
    let _ = writeln!(s, "# what went wrong: {}", v.detail.replace('\n', " "));
    let _ = writeln!(s, "# schedule and faults of the last run:");
    for l in trace.lines() {
        let _ = writeln!(s, "#   {l}");
    }
    let _ = std::fs::create_dir_all("/verif/replays");
    std::fs::write(path, s).expect("write replay");
}

pub fn replay(props: &'static [Prop], path: &str) -> i32 {
    let Ok(txt) = std::fs::read_to_string(path) else {
        eprintln!("cannot read {path}");
        return 2;
    };
    let (mut id, mut seed, mut thorough, mut kind) = (String::new(), 1u64, false, String::new());
    let (mut ints, mut strs) = (Vec::new(), Vec::new());
    let mut specs = Vec::new();
    for l in txt.lines() {
        if l.starts_with('#') {
            continue;
        }
        let (k, v) = l.split_once(' ').unwrap_or((l, ""));
        let nums = |v: &str| v.split(',').filter_map(|x| x.parse().ok()).collect::<Vec<u64>>();
        match k {
            "property" => id = v.into(),
            "seed" => seed = v.parse().unwrap_or(1),
            "tier" => thorough = v == "thorough",
            "kind" => kind = v.into(),
            "dict-ints" => ints = nums(v),
            "dict-strs" => strs = v.split(',').filter(|x| !x.is_empty()).map(crate::model::unhex).collect(),
            "seeded" => specs.push(Spec::Seed(v.parse().unwrap_or(0))),
            "tape" => specs.push(Spec::Tape(nums(v))),
            _ => (),
        }
    }
    let Some(p) = props.iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    tape::DICT.set(tape::Dict { ints, strs }).ok();
    crate::first_use(p.id);
    match exec(p, seed, &specs, true, thorough, p.cpu_s) {
        Exec::Bad(v, trace, _) => {
            println!("{trace}");
            println!("kind: {}{}", v.kind, if v.kind == kind { "" } else { " (recorded: another kind)" });
            println!("detail: {}", v.detail);
            println!("VIOLATION property={id} replay={path}");
            if v.kind == "HARNESS" { 2 } else { 1 }
        }
        Exec::Good { trace, .. } => {
            println!("{trace}");
            println!("the recorded run of {id} shows no violation on this tree");
            0
        }
    }
}

// ---------------------------------------------------------------- evidence

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn check(p: &'static Prop, o: &Opts) -> i32 {
    let t0 = Instant::now();
    let mut status = 0;
    crate::first_use(p.id);
    let (found, survey, capped) = campaign(p, o, t0);
    let search_s = t0.elapsed().as_secs_f64();
    let sh = shared();
    if o.survey {
        for (k, (n, r, d)) in &survey {
            println!("{n:6} first run {r:6} [{k}] {d}");
        }
        println!("{} runs {:.1}s distinct {}", sh.runs.load(SeqCst), search_s, sh.distinct.load(SeqCst));
        let n = sh.names_n.load(SeqCst) as usize;
        let mut m: Vec<_> = (0..n).map(|i| (String::from_utf8_lossy(&sh.names[i][1..1 + sh.names[i][0] as usize]).into_owned(), sh.counts[i].load(SeqCst))).collect();
        m.sort();
        println!("{m:?}");
        return 0;
    }
    let mut violations = 0;
    let mut notes = Vec::new();
    if let Some(f) = &found {
        if f.v.kind == "HARNESS" {
            eprintln!("harness error in run {}: {}", f.run, f.v.detail);
            return 2;
        }
        violations = 1;
        status = 1;
        let path = format!("/verif/replays/{}-seed{}-run{}.replay", p.id, o.seed, f.run);
        let (specs, execs) = minimise(p, o, f.run, &f.v.kind).unwrap_or_else(|| {
            let first = f.run / BATCH * BATCH;
            ((first..=f.run).map(Spec::Seed).collect(), 0)
        });
        let (v, trace) = match exec(p, o.seed, &specs, true, o.thorough, p.cpu_s) {
            Exec::Bad(v, t, _) => (v, t),
            Exec::Good { .. } => (f.v.clone(), "(did not reproduce in a fresh process)".into()),
        };
        let (specs, v, trace) = if v.kind == f.v.kind { (specs, v, trace) } else { (vec![Spec::Seed(f.run)], f.v.clone(), "(the minimised run behaves differently; unminimised seed kept)".into()) };
        write_replay(&path, p, o, f.run, &v, &specs, &trace);
        println!("run {} violates {}: [{}] {}", f.run, p.id, v.kind, v.detail);
        println!("minimised in {execs} executions; schedule and faults:");
        for l in trace.lines().take(60) {
            println!("  {l}");
        }
        println!("VIOLATION property={} replay={}", p.id, path);
    }
    // repeatability: a sample of runs again, each alone in a fresh process
    let mut again = 0;
    let mut samples = Vec::new();
    if status == 0 {
        for i in 0..6u64 {
            let run = i * 97;
            let a = exec(p, o.seed, &[Spec::Seed(run)], true, o.thorough, p.cpu_s);
            let b = exec(p, o.seed, &[Spec::Seed(run)], false, o.thorough, p.cpu_s);
            match (a, b) {
                (Exec::Good { hash: x, trace }, Exec::Good { hash: y, .. }) => {
                    if x == y {
                        again += 1;
                    } else {
                        notes.push(format!("run {run} gave two different histories"));
                    }
                    if samples.len() < 3 {
                        let t: String = trace.lines().take(14).map(|l| l.chars().take(220).collect::<String>()).collect::<Vec<_>>().join(" | ");
                        samples.push(format!("run {run}: {t}"));
                    }
                }
                _ => notes.push(format!("run {run} failed when repeated")),
            }
        }
    }
    if let Some(pr) = p.probes {
        for k in known_findings(p.id, pr()) {
            println!("{k}");
            notes.push(k);
        }
    }
    // evidence
    let n = sh.names_n.load(SeqCst) as usize;
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    for i in 0..n {
        counts.insert(String::from_utf8_lossy(&sh.names[i][1..1 + sh.names[i][0] as usize]).into_owned(), sh.counts[i].load(SeqCst));
    }
    let runs = sh.runs.load(SeqCst);
    let faults: Vec<_> = counts.iter().filter(|c| c.0.starts_with("fault ")).collect();
    let acts: Vec<_> = counts.iter().filter(|c| !c.0.starts_with("fault ")).collect();
    let obj = |v: &Vec<(&String, &u64)>| v.iter().map(|(k, n)| format!("{}: {}", js(k.trim_start_matches("fault ")), n)).collect::<Vec<_>>().join(", ");
    let wall = t0.elapsed().as_secs_f64();
    let mut e = String::from("{\n");
    let _ = writeln!(e, " \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",", js(p.id), js(if o.thorough { "thorough" } else { "quick" }), o.seed);
    let _ = writeln!(e, " \"coverage\": {{");
    let _ = writeln!(e, "  \"evaluations\": {runs},");
    let _ = writeln!(e, "  \"distinct_nontrivial\": {},", sh.distinct.load(SeqCst));
    let _ = writeln!(e, "  \"rule\": {},", js(&format!("{} Two runs are distinct when the hashes of their event histories (every event, fault and observed result, in order) differ.", p.rule)));
    let _ = writeln!(e, "  \"samples\": [{}],", samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(",\n   "));
    let _ = writeln!(e, "  \"simulated_runs_per_hour\": {},", (runs as f64 / search_s.max(0.001) * 3600.0) as u64);
    let _ = writeln!(e, "  \"seeds_per_hour\": {},", (runs as f64 / search_s.max(0.001) * 3600.0) as u64);
    let _ = writeln!(e, "  \"simulated_seconds\": {:.3},", sh.sim_us.load(SeqCst) as f64 / 1e6);
    let _ = writeln!(e, "  \"faults_injected\": {{{}}},", obj(&faults));
    let _ = writeln!(e, "  \"activity\": {{{}}},", obj(&acts));
    let _ = writeln!(e, "  \"runs_repeated_identically\": {again},");
    let _ = writeln!(e, "  \"stopped_by_wall_clock\": {capped},");
    let _ = writeln!(e, "  \"real_components\": {},", js(p.real));
    let _ = writeln!(e, "  \"stubbed_components\": {},", js(p.stub));
    let _ = writeln!(e, "  \"notes\": [{}]", notes.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "));
    let _ = writeln!(e, " }},");
    let _ = writeln!(e, " \"assumptions\": [\"sampled schedules, faults and contents: what was not drawn was not seen\", \"the reference codec and models of the harness are right\"],");
    let _ = writeln!(e, " \"wall_s\": {wall:.2},\n \"violations\": {violations}\n}}");
    let _ = std::fs::create_dir_all("/verif/evidence");
    if let Err(x) = std::fs::write(format!("/verif/evidence/{}.json", p.id), e) {
        eprintln!("cannot write evidence: {x}");
        return 2;
    }
    println!("{}: {} runs, {} distinct, {:.1} s{}", p.id, runs, sh.distinct.load(SeqCst), wall, if status == 0 { ", no violation" } else { "" });
    status
}

/// Lines for the listed findings that still show.
fn known_findings(id: &str, probes: Vec<Probe>) -> Vec<String> {
    let txt = std::fs::read_to_string("/verif/known_findings.txt").unwrap_or_default();
    let mut out = Vec::new();
    for p in probes {
        let listed = txt.lines().any(|l| l.starts_with(&format!("finding: property={id} key={} ", p.key)));
        if listed && p.present {
            out.push(format!("KNOWN-FINDING: property={id} {}: {}", p.key, p.what));
        }
    }
    out
}
