//! Several threads of one process use the library at once, under a scheduler that decides every
//! switch; each call must return what it returns alone in a fresh process. C08.
//!
//! The worker that draws the run never calls the library itself. Every call is first made alone in
//! a process of its own; then one more process makes all of them on real threads of which exactly
//! one runs at any time. Switch points are allocations, waits for locks and - by single-stepping -
//! arbitrary instructions.
use crate::engine::{bad, Ctx, Res};
use crate::ops::{self, Op, Shared};
use crate::rt;
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::SeqCst};

const MAX_OPS: usize = 8;
const TEXT: usize = 6000;
const MAX_T: usize = 4;

#[repr(C)]
struct Text {
    len: u64,
    b: [u8; TEXT],
}
impl Text {
    fn set(&mut self, s: &str) {
        let n = s.len().min(TEXT);
        self.b[..n].copy_from_slice(&s.as_bytes()[..n]);
        self.len = n as u64;
    }
    fn get(&self) -> String {
        String::from_utf8_lossy(&self.b[..self.len as usize]).into_owned()
    }
}
#[repr(C)]
struct Alone {
    state: AtomicU64,
    digest: u64,
    ticks: u64,
    text: Text,
}
#[repr(C)]
struct Board {
    alone: [Alone; MAX_OPS],
    state: AtomicU64,
    progress: AtomicU64,
    hash: u64,
    switches: u64,
    stepped: u64,
    waits: u64,
    calls: u64,
    text: Text,
    log: Text,
}
fn board() -> &'static mut Board {
    static P: AtomicU64 = AtomicU64::new(0);
    static OWNER: AtomicU64 = AtomicU64::new(0);
    let me = std::process::id() as u64;
    if OWNER.load(SeqCst) != me {
        let p = unsafe { libc::mmap(std::ptr::null_mut(), std::mem::size_of::<Board>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) };
        assert!(p != libc::MAP_FAILED, "board");
        P.store(p as u64, SeqCst);
        OWNER.store(me, SeqCst);
    }
    unsafe { &mut *(P.load(SeqCst) as *mut Board) }
}

// ---------------------------------------------------------------- scheduler

/// At this tick (allocation inside the library), after that many instructions, to that thread.
#[derive(Clone, Copy, Debug)]
struct Switch {
    tick: u64,
    step: u32,
    to: u8,
}
/// Switches again and again: one in `every` ticks, after up to `step` instructions.
#[derive(Clone, Copy, Debug)]
struct Dense {
    seed: u64,
    every: u64,
    step: u64,
    left: u64,
}
struct Sched {
    n: usize,
    done: [bool; MAX_T],
    tick: u64,
    next: usize,
    list: Vec<Switch>,
    dense: Option<Dense>,
    /// instructions left before the armed switch
    left: u32,
    armed: bool,
    /// armed, but the thread left the library meanwhile
    paused: bool,
    forced: u64,
    dog_at: u64,
    dog: u64,
    dogs: u64,
    at: [(usize, u64); MAX_T],
    tids: [i32; MAX_T],
    board: *mut Board,
    verbose: bool,
    log: String,
}
static mut S: *mut Sched = std::ptr::null_mut();
static TURN: AtomicU32 = AtomicU32::new(u32::MAX);
static ALL_DONE: AtomicU32 = AtomicU32::new(0);
thread_local! {
    static ME: Cell<u32> = const { Cell::new(u32::MAX - 1) };
}
const FORCED_LIMIT: u64 = 20_000;

fn futex_wait(a: &AtomicU32, v: u32) {
    unsafe { rt::raw_syscall(libc::SYS_futex, a as *const _ as usize, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as usize, v as usize, 0, 0, 0) };
}
fn futex_wake(a: &AtomicU32) {
    unsafe { rt::raw_syscall(libc::SYS_futex, a as *const _ as usize, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as usize, 64, 0, 0, 0) };
}
fn wait_turn(me: u32) {
    loop {
        let t = TURN.load(SeqCst);
        if t == me {
            return;
        }
        futex_wait(&TURN, t);
    }
}
/// Called by the thread that has the turn.
fn give(to: u32, me: u32) {
    if to == me {
        return;
    }
    TURN.store(to, SeqCst);
    futex_wake(&TURN);
    wait_turn(me);
}
unsafe fn choose(s: &Sched, me: usize, to: u8) -> usize {
    let others: [usize; MAX_T] = {
        let mut o = [usize::MAX; MAX_T];
        let mut k = 0;
        for i in 1..=s.n {
            let t = (me + i) % s.n;
            if !s.done[t] && t != me {
                o[k] = t;
                k += 1;
            }
        }
        o
    };
    let k = others.iter().filter(|x| **x != usize::MAX).count();
    if k == 0 { me } else { others[to as usize % k] }
}
unsafe fn note(s: &mut Sched, me: usize, to: usize, step: u32, kind: u64) {
    let b = &mut *s.board;
    b.hash = rt::mix(b.hash ^ (s.at[me].0 as u64) << 40 ^ (s.tick - s.at[me].1) << 8 ^ (to as u64) << 4 ^ me as u64 ^ kind << 60);
    b.switches += 1;
    if step > 0 {
        b.stepped += 1;
    }
}
fn hook(kind: u8) {
    unsafe {
        if S.is_null() {
            return;
        }
        let s = &mut *S;
        let me = ME.get() as usize;
        (*s.board).progress.fetch_add(1, SeqCst);
        if kind == 0 {
            s.tick += 1;
            s.forced = 0;
            if s.armed {
                if s.paused {
                    s.paused = false;
                    step_on();
                }
                return;
            }
            if let Some(d) = &mut s.dense {
                d.seed = rt::mix(d.seed);
                if d.left == 0 || d.seed % d.every != 0 {
                    return;
                }
                d.left -= 1;
                let w = Switch { tick: s.tick, step: if d.step == 0 { 0 } else { (d.seed >> 20) % (d.step + 1) } as u32, to: (d.seed >> 50) as u8 };
                if s.next < s.list.len() {
                    s.list[s.next] = w;
                } else {
                    return;
                }
            }
            if s.next >= s.list.len() || s.tick < s.list[s.next].tick {
                return;
            }
            let w = s.list[s.next];
            if w.step > 0 {
                s.armed = true;
                s.left = w.step;
                step_on();
                return;
            }
            s.next += 1;
            go(s, me, w.to, 0, 0);
        } else {
            s.forced += 1;
            (*s.board).waits += 1;
            if s.forced > FORCED_LIMIT {
                let b = &mut *s.board;
                b.text.set(&format!("every thread waits for another one; thread {me} in call {}", s.at[me].0));
                b.state.store(3, SeqCst);
                libc::_exit(0);
            }
            let to = choose(s, me, 0);
            give(to as u32, me as u32);
        }
    }
}
unsafe fn go(s: &mut Sched, me: usize, to: u8, step: u32, kind: u64) {
    let t = choose(s, me, to);
    if t == me {
        return;
    }
    note(s, me, t, step, kind);
    if s.verbose && (*s.board).log.len < TEXT as u64 - 200 {
        // no allocation in here: this may be a signal handler
        let l = &mut (*s.board).log;
        let mut put = |x: &[u8]| {
            let n = l.len as usize;
            if n + x.len() < TEXT {
                l.b[n..n + x.len()].copy_from_slice(x);
                l.len += x.len() as u64;
            }
        };
        let mut num = |mut v: u64| {
            let mut d = [0u8; 20];
            let mut i = 20;
            loop {
                i -= 1;
                d[i] = b'0' + (v % 10) as u8;
                v /= 10;
                if v == 0 {
                    break;
                }
            }
            put(&d[i..]);
            put(b" ");
        };
        num(me as u64);
        num(s.at[me].0 as u64);
        num(s.tick - s.at[me].1);
        num(step as u64);
        num(t as u64);
    }
    give(t as u32, me as u32);
}
#[inline(never)]
fn step_on() {
    unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") };
}
extern "C" fn on_trap(_: i32, _: *mut libc::siginfo_t, u: *mut libc::c_void) {
    unsafe {
        let off = || {
            let u = u as *mut libc::ucontext_t;
            (*u).uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100;
        };
        if S.is_null() {
            return off();
        }
        let s = &mut *S;
        if !s.armed {
            return off();
        }
        if rt::outside() {
            s.paused = true;
            return off();
        }
        (*s.board).progress.fetch_add(1, SeqCst);
        if !rt::stoppable() {
            return;
        }
        (*s.board).progress.fetch_add(1, SeqCst);
        if s.left > 1 {
            s.left -= 1;
            return;
        }
        off();
        s.armed = false;
        let w = s.list[s.next];
        s.next += 1;
        go(s, ME.get() as usize, w.to, w.step, 1);
    }
}
/// A thread that neither allocates nor waits for long is waiting in its own way.
extern "C" fn on_timer(_: i32, _: *mut libc::siginfo_t, _: *mut libc::c_void) {
    unsafe {
        if S.is_null() {
            return;
        }
        let s = &mut *S;
        let me = ME.get();
        let t = TURN.load(SeqCst);
        if me != t {
            if (t as usize) < MAX_T {
                rt::raw_syscall(libc::SYS_tgkill, libc::getpid() as usize, s.tids[t as usize] as usize, libc::SIGPROF as usize, 0, 0, 0);
            }
            return;
        }
        if !rt::stoppable() {
            return;
        }
        let b = &mut *s.board;
        let p = b.progress.load(SeqCst);
        if p != s.dog_at {
            s.dog_at = p;
            s.dog = 0;
            return;
        }
        s.dog += 1;
        s.dogs += 1;
        (*s.board).waits += 1;
        if s.dog <= 40 && s.dogs > 60 {
            // busy waiting that does get somewhere: this run has cost enough
            b.state.store(1, SeqCst);
            libc::_exit(0);
        }
        if s.dog > 40 {
            b.text.set("a call neither finishes nor lets another one go on");
            b.state.store(4, SeqCst);
            libc::_exit(0);
        }
        let to = choose(s, me as usize, 0);
        give(to as u32, me);
    }
}

// ---------------------------------------------------------------- processes

fn fork(f: impl FnOnce()) -> i32 {
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork");
    if pid == 0 {
        unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
        f();
        unsafe { libc::_exit(0) };
    }
    pid
}
fn reap(pid: i32) -> i32 {
    let mut st = 0;
    loop {
        let r = unsafe { libc::waitpid(pid, &mut st, 0) };
        if r == pid {
            return st;
        }
    }
}
/// Waits; gives up on a process that makes no progress although it is not using the processor.
fn reap_live(pid: i32, b: &Board) -> Option<i32> {
    let fd = unsafe { rt::raw_syscall(libc::SYS_pidfd_open, pid as usize, 0, 0, 0, 0, 0) } as i32;
    let (mut last, mut idle) = (u64::MAX, 0u64);
    let mut p = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
    let st = loop {
        let mut st = 0;
        if unsafe { libc::waitpid(pid, &mut st, libc::WNOHANG) } == pid {
            break Some(st);
        }
        if fd >= 0 {
            unsafe { libc::poll(&mut p, 1, 1000) };
        } else {
            unsafe { libc::usleep(1000) };
        }
        let cpu = ticks(pid);
        if cpu > 4500 {
            unsafe { libc::kill(pid, libc::SIGKILL) };
            reap(pid);
            break None;
        }
        let now = b.progress.load(SeqCst) ^ cpu << 40;
        if now == last {
            idle += if fd >= 0 { 1000 } else { 1 };
        } else {
            last = now;
            idle = 0;
        }
        if idle > 60_000 {
            unsafe { libc::kill(pid, libc::SIGKILL) };
            reap(pid);
            break None;
        }
    };
    if fd >= 0 {
        unsafe { libc::close(fd) };
    }
    st
}
/// Processor time the process has used.
fn ticks(pid: i32) -> u64 {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    f.get(11).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) + f.get(12).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0)
}

static COUNT: AtomicU64 = AtomicU64::new(0);
fn count_hook(_: u8) {
    COUNT.fetch_add(1, SeqCst);
}
fn call(o: &Op, shared: &[Shared]) -> String {
    rt::set_entropy(o.ent);
    match rt::lib(|| o.run(shared)) {
        Ok(s) => s,
        Err(m) => format!("panic: {m}"),
    }
}

struct Prog {
    steps: Vec<(usize, u32)>,
}

fn together(plan: &ops::Plan, progs: &[Prog], list: Vec<Switch>, dense: Option<Dense>, verbose: bool) {
    let b = board_of_parent();
    let shared: Vec<Shared> = match rt::lib(|| plan.shared.iter().map(|m| ops::share(m, plan.both)).collect()) {
        Ok(s) => s,
        Err(_) => {
            b.state.store(1, SeqCst);
            return;
        }
    };
    let digests: Vec<u64> = (0..plan.ops.len()).map(|i| b.alone[i].digest).collect();
    let n = progs.len();
    let mut sched = Sched { n, done: [false; MAX_T], tick: 0, next: 0, list, dense, left: 0, armed: false, paused: false, forced: 0, dog_at: 0, dog: 0, dogs: 0, at: [(0, 0); MAX_T], tids: [0; MAX_T], board: b, verbose, log: String::new() };
    sched.log.clear();
    unsafe {
        S = &mut sched;
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = on_trap as *const () as usize;
        a.sa_flags = libc::SA_SIGINFO | libc::SA_NODEFER;
        libc::sigaction(libc::SIGTRAP, &a, std::ptr::null_mut());
        a.sa_sigaction = on_timer as *const () as usize;
        a.sa_flags = libc::SA_SIGINFO | libc::SA_RESTART;
        libc::sigaction(libc::SIGPROF, &a, std::ptr::null_mut());
        let t = libc::timeval { tv_sec: 0, tv_usec: 30_000 };
        let it = libc::itimerval { it_interval: t, it_value: t };
        libc::setitimer(libc::ITIMER_PROF, &it, std::ptr::null_mut());
    }
    std::thread::scope(|sc| {
        for (me, p) in progs.iter().enumerate() {
            let (shared, digests) = (&shared, &digests);
            std::thread::Builder::new()
                .stack_size(1 << 20)
                .spawn_scoped(sc, move || {
                    ME.set(me as u32);
                    // hash seeds are drawn before the scheduler starts
                    rt::set_entropy(77 + me as u64);
                    std::hint::black_box(std::collections::hash_map::RandomState::new());
                    unsafe { (*S).tids[me] = rt::raw_syscall(libc::SYS_gettid, 0, 0, 0, 0, 0, 0) as i32 };
                    ALL_DONE.fetch_add(1, SeqCst);
                    futex_wake(&ALL_DONE);
                    wait_turn(me as u32);
                    let s = unsafe { &mut *S };
                    let b = unsafe { &mut *s.board };
                    for (i, reps) in &p.steps {
                        for k in 0..*reps {
                            s.at[me] = (*i, s.tick);
                            rt::set_preempt(Some(hook));
                            let r = call(&plan.ops[*i], shared);
                            rt::set_preempt(None);
                            b.progress.fetch_add(1, SeqCst);
                            s.forced = 0;
                            b.calls += 1;
                            if ops::hash(r.as_bytes()) != digests[*i] {
                                let want = b.alone[*i].text.get();
                                let at = want.bytes().zip(r.bytes()).take_while(|(a, b)| a == b).count();
                                let cut = |x: &str| String::from_utf8_lossy(&x.as_bytes()[at.saturating_sub(30).min(x.len())..x.len().min(at + 120)]).into_owned();
                                b.text.set(&format!("call {i}, made by thread {me} for the {}. time, returned ..{}.. instead of ..{}.. ({} and {} characters)", k + 1, cut(&r), cut(&want), r.len(), b.alone[*i].text.len));
                                b.state.store(2, SeqCst);
                                unsafe { libc::_exit(0) };
                            }
                        }
                    }
                    s.done[me] = true;
                    if s.armed {
                        // the thread ended before the armed switch
                        s.armed = false;
                        s.paused = false;
                        s.next += 1;
                    }
                    let t = unsafe { choose(s, me, 0) };
                    if t == me {
                        b.state.store(1, SeqCst);
                        unsafe { libc::_exit(0) };
                    }
                    TURN.store(t as u32, SeqCst);
                    futex_wake(&TURN);
                    loop {
                        let t = TURN.load(SeqCst);
                        futex_wait(&TURN, t);
                    }
                })
                .expect("thread");
        }
        loop {
            let d = ALL_DONE.load(SeqCst);
            if d == n as u32 {
                break;
            }
            futex_wait(&ALL_DONE, d);
        }
        unsafe {
            let mut m: libc::sigset_t = std::mem::zeroed();
            libc::sigemptyset(&mut m);
            libc::sigaddset(&mut m, libc::SIGPROF);
            libc::pthread_sigmask(libc::SIG_BLOCK, &m, std::ptr::null_mut());
        }
        TURN.store(0, SeqCst);
        futex_wake(&TURN);
    });
}
static BOARD: AtomicU64 = AtomicU64::new(0);
fn board_of_parent() -> &'static mut Board {
    unsafe { &mut *(BOARD.load(SeqCst) as *mut Board) }
}

pub fn c08(c: &mut Ctx) -> Res {
    let b = board();
    BOARD.store(b as *mut _ as u64, SeqCst);
    // ---- everything is drawn before anything runs
    let n_ops = 2 + c.g.idx(4);
    let heavy = c.g.pct(15);
    let plan = ops::draw(c, n_ops, heavy);
    let nt = match c.g.below(10) {
        0..=2 => 1,
        3..=7 => 2,
        8 => 3,
        _ => 4,
    };
    let often = c.g.pct(if nt == 1 { 35 } else { 10 });
    // a process that lives long: more calls than a 16-bit count can tell apart
    let long = nt == 1 && c.g.below(50) == 49;
    let mut progs: Vec<Prog> = (0..nt)
        .map(|_| {
            let k = 1 + c.g.idx(if nt == 1 { 8 } else { 4 });
            Prog {
                steps: (0..k)
                    .map(|_| {
                        let i = c.g.idx(n_ops);
                        let slow = matches!(plan.ops[i].what, ops::What::Sign { .. } | ops::What::Verify { .. });
                        let reps = if !often || slow { 1 + c.g.idx(2) as u32 } else { c.g.pick(&[1, 3, 20, 130, 300]) };
                        (i, reps)
                    })
                    .collect(),
            }
        })
        .collect();
    let n_sw = if nt == 1 { 0 } else { c.g.idx(24) };
    let dense = if nt > 1 && c.g.pct(45) {
        let step = if c.g.pct(35) { c.g.pick(&[3, 20, 60, 200]) } else { 0 };
        Some(Dense { seed: c.g.below(1 << 30), every: c.g.pick(&[1, 2, 3, 7]), step, left: 1 + c.g.below(if step > 50 { 60 } else if step > 0 { 300 } else { 2500 }) })
    } else {
        None
    };
    let stepping = c.g.pct(30);
    let near = c.g.pct(40);
    // (place in thousandths of all ticks or distance, instructions, target)
    let raw: Vec<(u64, u32, u8)> = (0..n_sw)
        .map(|_| {
            let at = if near { c.g.below(12) } else { c.g.below(100_000) };
            let step = if stepping && c.g.pct(50) {
                match c.g.below(4) {
                    0 => 1 + c.g.below(12) as u32,
                    1 | 2 => 1 + c.g.below(150) as u32,
                    _ => 1 + c.g.below(1500) as u32,
                }
            } else {
                0
            };
            (at, step, c.g.below(3) as u8)
        })
        .collect();
    if long {
        c.count("long histories");
    }
    for (i, o) in plan.ops.iter().enumerate() {
        c.log(|| format!("call {i}: {}", o.label()));
    }
    // ---- each call alone
    for i in 0..n_ops {
        b.alone[i].state.store(0, SeqCst);
        let st = reap(fork(|| {
            let b = board_of_parent();
            unsafe {
                libc::signal(libc::SIGPROF, libc::SIG_DFL);
                let t = libc::timeval { tv_sec: 10, tv_usec: 0 };
                let it = libc::itimerval { it_interval: t, it_value: t };
                libc::setitimer(libc::ITIMER_PROF, &it, std::ptr::null_mut());
            }
            rt::set_entropy(7);
            std::hint::black_box(std::collections::hash_map::RandomState::new());
            let o = &plan.ops[i];
            let shared = match &o.what {
                ops::What::Shared(..) => match rt::lib(|| plan.shared.iter().map(|m| ops::share(m, plan.both)).collect()) {
                    Ok(s) => s,
                    Err(_) => return,
                },
                _ => Vec::new(),
            };
            COUNT.store(0, SeqCst);
            rt::set_preempt(Some(count_hook));
            let r = call(o, &shared);
            rt::set_preempt(None);
            b.alone[i].digest = ops::hash(r.as_bytes());
            b.alone[i].ticks = COUNT.load(SeqCst);
            b.alone[i].text.set(&r);
            b.alone[i].state.store(1, SeqCst);
        }));
        if st != 0 || b.alone[i].state.load(SeqCst) != 1 {
            // a call that dies alone is another property's business
            c.count("calls that fail alone");
            return Ok(());
        }
        let d = b.alone[i].digest;
        c.ev(d);
    }
    // ---- together
    if long {
        for (i, reps) in progs[0].steps.iter_mut().take(1) {
            *reps = (1_500_000 / (b.alone[*i].ticks + 1)).clamp(1, 70_000) as u32;
        }
    }
    for (t, p) in progs.iter().enumerate() {
        c.log(|| format!("thread {t}: {}", p.steps.iter().map(|(i, k)| if *k == 1 { format!("call {i}") } else { format!("call {i} {k} times") }).collect::<Vec<_>>().join(", ")));
    }
    let total: u64 = progs.iter().flat_map(|p| p.steps.iter()).map(|(i, k)| b.alone[*i].ticks * *k as u64).sum();
    let mut list: Vec<Switch> = Vec::new();
    if let Some(d) = &dense {
        list = vec![Switch { tick: u64::MAX, step: 0, to: 0 }; d.left as usize];
    } else if near {
        let mut t = 0;
        for (at, step, to) in &raw {
            t += 1 + at;
            list.push(Switch { tick: t, step: *step, to: *to });
        }
    } else {
        list = raw.iter().map(|(at, step, to)| Switch { tick: 1 + at * total / 100_000, step: *step, to: *to }).collect();
        list.sort_by_key(|s| s.tick);
    }
    b.state.store(0, SeqCst);
    b.progress.store(0, SeqCst);
    (b.hash, b.switches, b.stepped, b.waits, b.calls) = (0, 0, 0, 0, 0);
    b.text.len = 0;
    b.log.len = 0;
    let verbose = c.verbose;
    let pid = fork(|| together(&plan, &progs, list, dense, verbose));
    let st = reap_live(pid, b);
    let log = b.log.get();
    if verbose {
        let n: Vec<u64> = log.split_whitespace().filter_map(|x| x.parse().ok()).collect();
        for x in n.chunks_exact(5) {
            c.log(|| format!("switch from thread {} in call {} after {} allocations{} to thread {}", x[0], x[1], x[2], if x[3] > 0 { format!(" and {} instructions", x[3]) } else { String::new() }, x[4]));
        }
    }
    c.ev(b.hash);
    c.ev(b.calls);
    c.nontrivial = true;
    c.add("calls made together", b.calls);
    c.add("fault thread switches inside a call", b.switches);
    c.add("fault switches between two instructions", b.stepped);
    c.add("waits for another thread", b.waits);
    c.count(match nt {
        1 => "histories of one thread",
        2 => "runs of two threads",
        3 => "runs of three threads",
        _ => "runs of four threads",
    });
    match (st, b.state.load(SeqCst)) {
        (None, _) => bad("blocked", "the calls do not finish together: no progress for a minute, or 45 s of processor time"),
        (_, 3) => bad("deadlock", b.text.get()),
        (_, 4) => bad("hang", b.text.get()),
        (_, 2) => bad("result", b.text.get()),
        (Some(0), 1) => Ok(()),
        (Some(s), x) => bad("died", format!("the process ended ({s}, {x}) although every call returns when made alone")),
    }
}
