//! Seams: allocator, entropy, clock, standard streams, futexes. Everything the code under test can
//! ask of the process goes through here while a thread is inside `lib(..)`.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicI64, AtomicU64, AtomicUsize, Ordering::SeqCst};

thread_local! {
    static IN_LIB: Cell<bool> = const { Cell::new(false) };
    static CUR: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static CAP: Cell<isize> = const { Cell::new(isize::MAX) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static ODD: Cell<bool> = const { Cell::new(false) };
    static ENTROPY: Cell<u64> = const { Cell::new(0) };
    static ENT_CALLS: Cell<u64> = const { Cell::new(0) };
    static ENT_FAULT: Cell<[u8; 16]> = const { Cell::new([0; 16]) };
    static ENT_FAULTS_FIRED: Cell<u64> = const { Cell::new(0) };
    static PREEMPT: Cell<Option<fn(u8)>> = const { Cell::new(None) };
    static IN_MALLOC: Cell<bool> = const { Cell::new(false) };
    static PERM: Cell<u64> = const { Cell::new(0) };
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}

// One run at a time in a process: what any of its threads does counts.
static CLOCK_CALLS: AtomicU64 = AtomicU64::new(0);
static IO_CALLS: AtomicU64 = AtomicU64::new(0);
static IO_KIND: AtomicU64 = AtomicU64::new(0);
static IO_FAULT: AtomicI32 = AtomicI32::new(0);
static CLOCK_NOW: AtomicI64 = AtomicI64::new(1_700_000_000);
static ENV: AtomicU64 = AtomicU64::new(0);
static WATCH: AtomicBool = AtomicBool::new(false);
static WATCHED: AtomicU64 = AtomicU64::new(0);
thread_local! {
    /// selector of the system-call watch: 1 while this thread is inside the library
    static SEL: Cell<u8> = const { Cell::new(0) };
    static ARMED: Cell<u8> = const { Cell::new(0) };
}

pub struct Alloc;

#[inline]
fn note(delta: isize) {
    let c = CUR.get() + delta;
    CUR.set(c);
    if c > PEAK.get() {
        PEAK.set(c);
    }
}

#[inline]
fn tick() {
    if IN_LIB.get() {
        if let Some(f) = PREEMPT.get() {
            PREEMPT.set(None);
            IN_LIB.set(false);
            f(0);
            IN_LIB.set(true);
            PREEMPT.set(Some(f));
        }
    }
}

/// The system allocator; single-stepping never switches threads inside it.
struct Heap;
impl Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        IN_MALLOC.set(true);
        let p = System.alloc(l);
        IN_MALLOC.set(false);
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        IN_MALLOC.set(true);
        let p = System.alloc_zeroed(l);
        IN_MALLOC.set(false);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        IN_MALLOC.set(true);
        System.dealloc(p, l);
        IN_MALLOC.set(false);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        IN_MALLOC.set(true);
        let p = System.realloc(p, l, n);
        IN_MALLOC.set(false);
        p
    }
}

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        tick();
        if CUR.get() + l.size() as isize > CAP.get() {
            return std::ptr::null_mut();
        }
        ALLOCS.set(ALLOCS.get() + 1);
        note(l.size() as isize);
        if l.align() == 1 && ODD.get() && IN_LIB.get() {
            let p = Heap.alloc(Layout::from_size_align_unchecked(l.size() + 1, 16));
            if p.is_null() {
                return p;
            }
            return p.add(1);
        }
        Heap.alloc(Layout::from_size_align_unchecked(l.size(), l.align().max(16)))
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        tick();
        note(-(l.size() as isize));
        if l.align() == 1 && (p as usize) & 1 == 1 {
            Heap.dealloc(p.sub(1), Layout::from_size_align_unchecked(l.size() + 1, 16));
        } else {
            Heap.dealloc(p, Layout::from_size_align_unchecked(l.size(), l.align().max(16)));
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        tick();
        if CUR.get() + l.size() as isize > CAP.get() {
            return std::ptr::null_mut();
        }
        ALLOCS.set(ALLOCS.get() + 1);
        note(l.size() as isize);
        Heap.alloc_zeroed(Layout::from_size_align_unchecked(l.size(), l.align().max(16)))
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        tick();
        if CUR.get() + new as isize - l.size() as isize > CAP.get() {
            return std::ptr::null_mut();
        }
        ALLOCS.set(ALLOCS.get() + 1);
        // the old block stays alive until the copy is done
        note(new as isize);
        note(-(l.size() as isize));
        if l.align() == 1 && (p as usize) & 1 == 1 {
            let q = Heap.alloc(Layout::from_size_align_unchecked(new + 1, 16));
            if q.is_null() {
                return q;
            }
            std::ptr::copy_nonoverlapping(p, q.add(1), l.size().min(new));
            Heap.dealloc(p.sub(1), Layout::from_size_align_unchecked(l.size() + 1, 16));
            return q.add(1);
        }
        Heap.realloc(p, Layout::from_size_align_unchecked(l.size(), l.align().max(16)), new)
    }
}

pub unsafe fn raw_syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    if r < 0 && r > -4096 {
        *libc::__errno_location() = -r as i32;
        return -1;
    }
    r
}

pub fn mix(x: u64) -> u64 {
    let mut z = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

unsafe fn entropy(buf: *mut u8, len: usize) -> isize {
    if ENTROPY.get() == 0 {
        return raw_syscall(libc::SYS_getrandom, buf as usize, len, 0, 0, 0, 0) as isize;
    }
    let mut n = len;
    if IN_LIB.get() && len > 0 {
        let call = ENT_CALLS.get();
        ENT_CALLS.set(call + 1);
        let f = ENT_FAULT.get()[call.min(15) as usize];
        if f != 0 {
            ENT_FAULTS_FIRED.set(ENT_FAULTS_FIRED.get() + 1);
        }
        match f {
            0 => (),
            1 => {
                *libc::__errno_location() = libc::EINTR;
                return -1;
            }
            2 => n = (len / 2).max(1),
            3 => n = 1,
            4 => {
                *libc::__errno_location() = libc::EAGAIN;
                return -1;
            }
            5 => {
                *libc::__errno_location() = libc::EIO;
                return -1;
            }
            6 => return 0,
            _ => {
                *libc::__errno_location() = libc::EINVAL;
                return -1;
            }
        }
    }
    let mut s = ENTROPY.get();
    for i in 0..n {
        s = mix(s);
        *buf.add(i) = s as u8;
    }
    ENTROPY.set(if s == 0 { 1 } else { s });
    n as isize
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    entropy(buf, len)
}
#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut u8, len: usize) -> i32 {
    if entropy(buf, len) == len as isize { 0 } else { -1 }
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if n == libc::SYS_getrandom {
        return entropy(a as *mut u8, b) as i64;
    }
    if n == libc::SYS_futex && IN_LIB.get() && PREEMPT.get().is_some() {
        let op = (b as i32) & 0x7f;
        if op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET {
            // The library waits for another thread: hand over to the scheduler instead.
            if *(a as *const u32) == c as u32 {
                let f = PREEMPT.get().unwrap();
                PREEMPT.set(None);
                IN_LIB.set(false);
                f(1);
                IN_LIB.set(true);
                PREEMPT.set(Some(f));
            }
            return 0;
        }
    }
    raw_syscall(n, a, b, c, d, e, f)
}

unsafe fn io(kind: u64) -> bool {
    if IO_CALLS.fetch_add(1, SeqCst) == 0 {
        IO_KIND.store(kind, SeqCst);
    }
    let e = IO_FAULT.load(SeqCst);
    if e != 0 {
        *libc::__errno_location() = e;
        return true;
    }
    false
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, p: *const u8, l: usize) -> isize {
    if IN_LIB.get() {
        // swallowed: the simulated stream took it, or failed
        return if io(1 + (fd as u32 as u64) % 900) { -1 } else { l as isize };
    }
    raw_syscall(libc::SYS_write, fd as usize, p as usize, l, 0, 0, 0) as isize
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, p: *const libc::iovec, n: i32) -> isize {
    if IN_LIB.get() {
        let mut t = 0;
        for i in 0..n as usize {
            t += (*p.add(i)).iov_len;
        }
        return if io(1 + (fd as u32 as u64) % 900) { -1 } else { t as isize };
    }
    raw_syscall(libc::SYS_writev, fd as usize, p as usize, n as usize, 0, 0, 0) as isize
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const i8, flags: i32, mode: u32) -> i32 {
    if IN_LIB.get() {
        io(1000);
        *libc::__errno_location() = libc::EACCES;
        return -1;
    }
    raw_syscall(libc::SYS_openat, libc::AT_FDCWD as isize as usize, path as usize, flags as usize, mode as usize, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: i32, t: *mut libc::timespec) -> i32 {
    if IN_LIB.get() {
        CLOCK_CALLS.fetch_add(1, SeqCst);
        (*t).tv_sec = CLOCK_NOW.load(SeqCst);
        (*t).tv_nsec = 0;
        return 0;
    }
    raw_syscall(libc::SYS_clock_gettime, c as usize, t as usize, 0, 0, 0, 0) as i32
}

extern "C" {
    static mut environ: *const *mut libc::c_char;
}
static REAL_ENV: AtomicUsize = AtomicUsize::new(0);
static ENV_PAGE: AtomicUsize = AtomicUsize::new(0);
static OLD_SEGV: [AtomicU64; 4] = [AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0)];
/// Replaces the list of environment variables by a page that may not be touched.
unsafe fn guard_environment() {
    let mut p = ENV_PAGE.load(SeqCst);
    if p == 0 {
        p = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0) as usize;
        if p == usize::MAX {
            return;
        }
        REAL_ENV.store(environ as usize, SeqCst);
        ENV_PAGE.store(p, SeqCst);
        let k = KernelAction { handler: on_segv as *const () as usize, flags: (libc::SA_SIGINFO | libc::SA_NODEFER | libc::SA_ONSTACK | 0x0400_0000) as u64, restorer: sim_gate_return as *const () as usize, mask: 0 };
        raw_syscall(libc::SYS_rt_sigaction, libc::SIGSEGV as usize, &k as *const _ as usize, &OLD_SEGV as *const _ as usize, 8, 0, 0);
    } else {
        libc::mprotect(p as *mut _, 4096, libc::PROT_NONE);
    }
    environ = p as *const _;
}
/// A touch of the environment is noted and finds it empty; everything else is a real fault.
extern "C" fn on_segv(_: i32, i: *mut libc::siginfo_t, _: *mut libc::c_void) {
    unsafe {
        let p = ENV_PAGE.load(SeqCst);
        let a = (*i).si_addr() as usize;
        if a >= p && a < p + 4096 {
            if IN_LIB.get() {
                io(1001);
            }
            sim_gate_call(libc::SYS_mprotect, p as i64, 4096, (libc::PROT_READ | libc::PROT_WRITE) as i64, 0, 0, 0);
        } else {
            sim_gate_call(libc::SYS_rt_sigaction, libc::SIGSEGV as i64, &OLD_SEGV as *const _ as i64, 0, 8, 0, 0);
        }
    }
}

/// The environment: the library has no business there; what it finds varies from run to run.
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const libc::c_char) -> *mut libc::c_char {
    if IN_LIB.get() {
        io(1001);
        return match ENV.load(SeqCst) {
            0 => std::ptr::null_mut(),
            1 => c"1".as_ptr() as *mut _,
            _ => c"".as_ptr() as *mut _,
        };
    }
    let n = libc::strlen(name);
    let real = REAL_ENV.load(SeqCst) as *const *mut libc::c_char;
    let mut p = if real.is_null() { environ } else { real };
    while !p.is_null() && !(*p).is_null() {
        if libc::strncmp(*p, name, n) == 0 && *(*p).add(n) == b'=' as libc::c_char {
            return (*p).add(n + 1);
        }
        p = p.add(1);
    }
    std::ptr::null_mut()
}

// ---------------------------------------------------------------- system-call watch

std::arch::global_asm!(
    ".pushsection .text",
    ".globl sim_gate_start",
    "sim_gate_start:",
    ".globl sim_gate_call",
    "sim_gate_call:",
    "mov rax, rdi",
    "mov rdi, rsi",
    "mov rsi, rdx",
    "mov rdx, rcx",
    "mov r10, r8",
    "mov r8, r9",
    "mov r9, [rsp + 8]",
    "syscall",
    "ret",
    ".globl sim_gate_return",
    "sim_gate_return:",
    "mov rax, 15",
    "syscall",
    "ud2",
    ".globl sim_gate_end",
    "sim_gate_end:",
    ".popsection",
);
extern "C" {
    static sim_gate_start: u8;
    static sim_gate_end: u8;
    fn sim_gate_call(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64;
    fn sim_gate_return();
}
/// Every system call made inside the library, whichever way, ends up here.
extern "C" fn on_sys(_: i32, i: *mut libc::siginfo_t, u: *mut libc::c_void) {
    unsafe {
        let g = &mut (*(u as *mut libc::ucontext_t)).uc_mcontext.gregs;
        let n = *((i as *const u8).add(24) as *const i32) as i64;
        let a = |r: i32| g[r as usize];
        let ret = match n {
            // the allocator sees to itself (and looks up the overcommit setting)
            _ if IN_MALLOC.get() => sim_gate_call(n, a(libc::REG_RDI), a(libc::REG_RSI), a(libc::REG_RDX), a(libc::REG_R10), a(libc::REG_R8), a(libc::REG_R9)),
            // memory, randomness and locks of the process itself
            libc::SYS_mmap | libc::SYS_munmap | libc::SYS_mremap | libc::SYS_brk | libc::SYS_mprotect | libc::SYS_madvise | libc::SYS_futex | libc::SYS_sched_yield
            | libc::SYS_getpid | libc::SYS_gettid | libc::SYS_rt_sigreturn | libc::SYS_rt_sigprocmask | libc::SYS_exit | libc::SYS_exit_group | libc::SYS_tgkill | libc::SYS_sigaltstack => {
                sim_gate_call(n, a(libc::REG_RDI), a(libc::REG_RSI), a(libc::REG_RDX), a(libc::REG_R10), a(libc::REG_R8), a(libc::REG_R9))
            }
            libc::SYS_getrandom => {
                let r = entropy(a(libc::REG_RDI) as *mut u8, a(libc::REG_RSI) as usize) as i64;
                if r < 0 { -(*libc::__errno_location() as i64) } else { r }
            }
            _ => {
                if io(2000 + n as u64) {
                    -(IO_FAULT.load(SeqCst) as i64)
                } else {
                    match n {
                        libc::SYS_write => a(libc::REG_RDX),
                        libc::SYS_openat | libc::SYS_open => -libc::EACCES as i64,
                        libc::SYS_nanosleep | libc::SYS_clock_nanosleep => 0,
                        _ => -libc::EPERM as i64,
                    }
                }
            }
        };
        g[libc::REG_RAX as usize] = ret;
    }
}
#[repr(C)]
struct KernelAction {
    handler: usize,
    flags: u64,
    restorer: usize,
    mask: u64,
}
/// From now on every system call made inside the library is watched, on every thread.
pub fn watch() -> bool {
    unsafe {
        let k = KernelAction { handler: on_sys as *const () as usize, flags: (libc::SA_SIGINFO | libc::SA_NODEFER | 0x0400_0000) as u64, restorer: sim_gate_return as *const () as usize, mask: 0 };
        raw_syscall(libc::SYS_rt_sigaction, libc::SIGSYS as usize, &k as *const _ as usize, 0, 8, 0, 0);
    }
    WATCH.store(true, SeqCst);
    unsafe { guard_environment() };
    arm()
}
/// Threads that were watched.
pub fn watched() -> u64 {
    WATCHED.load(SeqCst)
}
fn arm() -> bool {
    if ARMED.get() == 0 {
        let r = unsafe {
            let (s, e) = (&raw const sim_gate_start as usize, &raw const sim_gate_end as usize);
            SEL.with(|x| raw_syscall(libc::SYS_prctl, 59, 1, s, e - s, x as *const _ as usize, 0))
        };
        ARMED.set(if r == 0 { 1 } else { 2 });
        WATCHED.fetch_add((r == 0) as u64, SeqCst);
    }
    ARMED.get() == 1
}
#[inline]
fn scope(v: bool) -> bool {
    if !v {
        SEL.set(0);
    }
    let old = IN_LIB.replace(v);
    if v && WATCH.load(SeqCst) && arm() {
        SEL.set(1);
    }
    old
}

pub fn io_kind_name(k: u64) -> String {
    match k {
        0 => "none".into(),
        1000 => "open of a file".into(),
        1001 => "look into the environment".into(),
        k if k >= 2000 => format!("system call {}", k - 2000),
        k => format!("write to descriptor {}", k - 1),
    }
}

/// Installs the silent panic hook.
pub fn init() {
    std::panic::set_hook(Box::new(|info| {
        let lib = scope(false);
        let p = PREEMPT.replace(None);
        let msg = match info.payload().downcast_ref::<&str>() {
            Some(s) => s.to_string(),
            None => match info.payload().downcast_ref::<String>() {
                Some(s) => s.clone(),
                None => "panic".to_string(),
            },
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if !lib && std::env::var_os("SIM_DEBUG").is_some() {
            eprintln!("harness panic: {msg} at {loc}");
        }
        PANIC_MSG.with(|m| *m.borrow_mut() = format!("{msg} at {loc}"));
        PREEMPT.set(p);
        scope(lib);
    }));
}

/// Whether a panic still reaches the hook of this program.
pub fn hook_is_ours() -> bool {
    PANIC_MSG.with(|m| m.borrow_mut().clear());
    let _ = catch_unwind(|| std::panic::panic_any("is the hook in place"));
    let ours = last_panic().starts_with("is the hook in place");
    if !ours {
        init();
    }
    ours
}
pub fn last_panic() -> String {
    PANIC_MSG.with(|m| m.borrow().clone())
}

/// Runs code of the library under test. A panic comes back as Err(message).
pub fn lib<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let old = scope(true);
    let r = catch_unwind(AssertUnwindSafe(f));
    scope(old);
    r.map_err(|e| {
        drop(e);
        last_panic()
    })
}

/// Leaves library scope for a moment (harness code called back from inside it).
pub fn set_in_lib(v: bool) -> bool {
    scope(v)
}
pub fn set_entropy(seed: u64) {
    ENTROPY.set(if seed == 0 { 1 } else { seed });
    ENT_CALLS.set(0);
    ENT_FAULT.set([0; 16]);
}
pub fn set_entropy_faults(f: [u8; 16]) {
    ENT_CALLS.set(0);
    ENT_FAULT.set(f);
}
pub fn entropy_faults_fired() -> u64 {
    ENT_FAULTS_FIRED.get()
}
pub fn set_clock(secs: i64) {
    CLOCK_NOW.store(secs, SeqCst);
}
pub fn set_odd(v: bool) {
    ODD.set(v);
}
pub fn set_io_fault(e: i32) {
    IO_FAULT.store(e, SeqCst);
}
pub fn set_preempt(f: Option<fn(u8)>) {
    PREEMPT.set(f);
}
/// True where a thread may be stopped between two instructions.
pub fn stoppable() -> bool {
    IN_LIB.get() && !IN_MALLOC.get() && PREEMPT.get().is_some()
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if IN_LIB.get() {
        if let Some(f) = PREEMPT.get() {
            PREEMPT.set(None);
            IN_LIB.set(false);
            f(1);
            IN_LIB.set(true);
            PREEMPT.set(Some(f));
            return 0;
        }
    }
    raw_syscall(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as i32
}

/// True where the harness itself works between library calls.
pub fn outside() -> bool {
    !IN_LIB.get() && PREEMPT.get().is_some() && !IN_MALLOC.get()
}

pub fn set_env(k: u64) {
    ENV.store(k, SeqCst);
}
/// (outside calls, first kind, clock calls) since the last reset
pub fn outside_calls(reset: bool) -> (u64, u64, u64) {
    let r = (IO_CALLS.load(SeqCst), IO_KIND.load(SeqCst), CLOCK_CALLS.load(SeqCst));
    if reset {
        IO_CALLS.store(0, SeqCst);
        IO_KIND.store(0, SeqCst);
        CLOCK_CALLS.store(0, SeqCst);
    }
    r
}
pub fn allocs() -> u64 {
    ALLOCS.get()
}
pub fn mem_base() -> isize {
    let c = CUR.get();
    PEAK.set(c);
    c
}
pub fn mem_peak() -> isize {
    PEAK.get()
}
pub fn mem_cap(limit: Option<isize>) {
    match limit {
        Some(l) => CAP.set(CUR.get() + l),
        None => CAP.set(isize::MAX),
    }
}
pub fn thread_cpu_us() -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { raw_syscall(libc::SYS_clock_gettime, libc::CLOCK_THREAD_CPUTIME_ID as usize, &mut t as *mut _ as usize, 0, 0, 0, 0) };
    t.tv_sec as u64 * 1_000_000 + t.tv_nsec as u64 / 1000
}

/// Order in which this process inserts unordered things; 0 is the natural one.
pub fn set_perm(seed: u64) {
    PERM.set(seed);
}
pub fn permute<T>(v: &mut [T]) {
    let mut s = PERM.get();
    if s == 0 {
        return;
    }
    for i in (1..v.len()).rev() {
        s = mix(s);
        v.swap(i, (s % (i as u64 + 1)) as usize);
    }
    PERM.set(s | 1);
}
