//! Seams owned by the simulator: ambient randomness, entropy, clock, allocator, panics,
//! yield points, and the per-thread context they all report to.
use crate::rngs::{mix, Stream, StreamSpec};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// payload of a panic injected into a random source or sink
pub struct Injected;
/// payload: a random operation has drawn far more numbers than it may
pub struct DrawLimit;

pub const DRAW_LIMIT: u64 = 100_000;

#[derive(Default, Clone, Copy)]
pub struct Counters {
    pub ambient: u64,
    pub caller: u64,
    pub entropy: u64,
    pub clock: u64,
    /// questions to the operating system about its environment
    pub environment: u64,
    pub yields: u64,
}

pub struct Ctx {
    pub ambient: Stream,
    pub n: Counters,
    /// operation to perform when a re-entrant random source or sink fires
    pub nested: Option<crate::ops::Step>,
    pub nested_out: Vec<crate::ops::OpOut>,
}

impl Ctx {
    pub fn new(ambient: &StreamSpec, nested: Option<crate::ops::Step>) -> Ctx {
        Ctx { ambient: Stream::new(ambient), n: Counters::default(), nested, nested_out: vec![] }
    }
}

thread_local! {
    static CTX: RefCell<Option<Box<Ctx>>> = const { RefCell::new(None) };
    static IN_LIB: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static MAX_ALLOC: Cell<usize> = const { Cell::new(usize::MAX) };
    static N_ALLOC: Cell<u64> = const { Cell::new(0) };
    /// value the simulated entropy and clock depend on
    static WORLD: Cell<u64> = const { Cell::new(0) };
    static WORLD_N: Cell<u64> = const { Cell::new(0) };
    static CLOCK_N: Cell<u64> = const { Cell::new(0) };
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
    /// scheduler callback of this thread
    static YIELD: Cell<Option<fn(&'static str)>> = const { Cell::new(None) };
}

pub fn swap_ctx(c: Option<Box<Ctx>>) -> Option<Box<Ctx>> {
    CTX.with(|x| std::mem::replace(&mut *x.borrow_mut(), c))
}
pub fn with_ctx<R>(f: impl FnOnce(&mut Ctx) -> R) -> Option<R> {
    CTX.with(|x| x.borrow_mut().as_deref_mut().map(f))
}
pub fn in_lib() -> bool {
    IN_LIB.with(|x| x.get())
}
pub fn set_world(seed: u64) {
    WORLD.with(|w| w.set(seed));
    WORLD_N.with(|w| w.set(0));
}
pub fn set_yield(f: Option<fn(&'static str)>) {
    YIELD.with(|y| y.set(f));
}

/// called at every seam
pub fn yield_at(site: &'static str) {
    if let Ok(Some(f)) = YIELD.try_with(|y| y.get()) {
        let was = IN_LIB.with(|x| x.replace(false));
        with_ctx(|c| c.n.yields += 1);
        f(site);
        IN_LIB.with(|x| x.set(was));
    }
}

struct LibGuard(bool);
impl Drop for LibGuard {
    fn drop(&mut self) {
        IN_LIB.with(|x| x.set(self.0));
    }
}
/// run library code
pub fn lib<R>(f: impl FnOnce() -> R) -> R {
    let _g = LibGuard(IN_LIB.with(|x| x.replace(true)));
    f()
}
/// run harness code called back from the library
pub fn harness<R>(f: impl FnOnce() -> R) -> R {
    let _g = LibGuard(IN_LIB.with(|x| x.replace(false)));
    f()
}

#[derive(Clone, Debug, PartialEq)]
pub enum Panic {
    Injected,
    DrawLimit,
    Other(String),
}

pub fn lib_catch<R>(f: impl FnOnce() -> R) -> Result<R, Panic> {
    let r = catch_unwind(AssertUnwindSafe(|| lib(f)));
    match r {
        Ok(x) => Ok(x),
        Err(p) => Err(if p.is::<Injected>() {
            Panic::Injected
        } else if p.is::<DrawLimit>() {
            Panic::DrawLimit
        } else {
            Panic::Other(PANIC_MSG.with(|m| m.borrow().clone()))
        }),
    }
}

// ---------------------------------------------------------------- panics

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let p = info.payload();
        if p.is::<Injected>() || p.is::<DrawLimit>() {
            return;
        }
        let was = IN_LIB.with(|x| x.replace(false));
        let msg = p.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| p.downcast_ref::<String>().cloned()).unwrap_or_default();
        let loc = info.location().map(|l| l.to_string()).unwrap_or_default();
        // keep only the file name's tail so that replays are independent of locations outside
        PANIC_MSG.with(|m| *m.borrow_mut() = format!("{} at {}", msg, loc));
        if std::env::var_os("SIM_BT").is_some() || !was && loc.starts_with("src/") {
            eprintln!("panic: {} at {}\n{}", msg, loc, std::backtrace::Backtrace::force_capture());
        }
        IN_LIB.with(|x| x.set(was));
    }));
}

// ---------------------------------------------------------------- ambient randomness

fn amb(site: &'static str) -> u64 {
    let was = IN_LIB.with(|x| x.replace(false));
    struct R(bool);
    impl Drop for R {
        fn drop(&mut self) {
            IN_LIB.with(|x| x.set(self.0));
        }
    }
    let _r = R(was);
    yield_at(site);
    enum What {
        V(u64),
        Fail,
        Limit,
    }
    let w = with_ctx(|c| {
        if c.ambient.fails_now() {
            return What::Fail;
        }
        c.n.ambient += 1;
        if c.ambient.draws > c.ambient.prefix_len() + DRAW_LIMIT {
            return What::Limit;
        }
        What::V(c.ambient.next())
    });
    match w {
        None => 0x0123_4567_89ab_cdef,
        Some(What::V(v)) => v,
        Some(What::Fail) => std::panic::panic_any(Injected),
        Some(What::Limit) => std::panic::panic_any(DrawLimit),
    }
}
fn amb_u32() -> u32 {
    (amb("ambient") >> 32) as u32
}
fn amb_u64() -> u64 {
    amb("ambient")
}
fn amb_fill(b: &mut [u8]) {
    for c in b.chunks_mut(8) {
        let v = amb("ambient").to_le_bytes();
        c.copy_from_slice(&v[..c.len()]);
    }
}
fn amb_try_fill(b: &mut [u8]) -> Result<(), rand::Error> {
    amb_fill(b);
    Ok(())
}

pub fn install() {
    rand::rngs::thread::sim_install(rand::rngs::thread::SimHooks { next_u32: amb_u32, next_u64: amb_u64, fill_bytes: amb_fill, try_fill_bytes: amb_try_fill });
    #[cfg(not(feature = "race"))]
    sudoku::sim::install(yield_at);
    #[cfg(feature = "race")]
    {
        simrt::ignore_what(|| sudoku::sim::install(yield_at));
        simrt::install(access, crate::sched::on_sleep);
    }
    install_panic_hook();
}

/// instrumented build: the library is about to touch memory its callers share
#[cfg(feature = "race")]
fn access(site: &'static str, address: usize) {
    if IN_LIB.try_with(|x| x.get()).unwrap_or(false) {
        if let Ok(Some(_)) = YIELD.try_with(|y| y.get()) {
            let was = IN_LIB.with(|x| x.replace(false));
            crate::sched::on_access(site, address);
            IN_LIB.with(|x| x.set(was));
        }
    }
}

/// entropy requested through the getrandom crate
#[no_mangle]
pub extern "C" fn sim_entropy_fill(buf: *mut u8, len: usize) -> i32 {
    if in_lib() {
        with_ctx(|c| c.n.entropy += 1);
    }
    fill_world(buf, len);
    0
}

fn fill_world(buf: *mut u8, len: usize) {
    let n = WORLD_N.with(|w| {
        let n = w.get();
        w.set(n + 1);
        n
    });
    let seed = WORLD.with(|w| w.get());
    for i in 0..len {
        let v = mix(&[seed, n, i as u64, 0xe117]);
        unsafe { *buf.add(i) = v as u8 };
    }
}

/// libc entry used by std (hash map keys). The simulator answers it.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: libc::size_t, _flags: libc::c_uint) -> libc::ssize_t {
    fill_world(buf as *mut u8, len);
    len as libc::ssize_t
}

/// libc entry used by std's clocks. Real time outside of library code; inside, a
/// simulated clock that is skewed and jumps.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    let r = libc::syscall(libc::SYS_clock_gettime, clk as libc::c_long, ts) as libc::c_int;
    if IN_LIB.try_with(|x| x.get()).unwrap_or(false) {
        let n = CLOCK_N.with(|c| {
            c.set(c.get() + 1);
            c.get()
        });
        let w = WORLD.with(|w| w.get());
        (*ts).tv_sec = (mix(&[w, n, 0xc10c]) % 4_000_000_000) as libc::time_t;
        (*ts).tv_nsec = (mix(&[w, n, 0xc10d]) % 1_000_000_000) as libc::c_long;
        if let Ok(mut b) = CTX.try_with(|x| x.try_borrow_mut().ok().and_then(|mut o| o.as_deref_mut().map(|c| c.n.clock += 1))) {
            let _ = &mut b;
        }
    }
    r
}

fn asked_environment() -> bool {
    if !IN_LIB.try_with(|x| x.get()).unwrap_or(false) {
        return false;
    }
    let _ = CTX.try_with(|x| x.try_borrow_mut().ok().and_then(|mut o| o.as_deref_mut().map(|c| c.n.environment += 1)));
    true
}

extern "C" {
    static environ: *const *const libc::c_char;
}

/// libc entry used by std::env. Inside of library code the variables (except those that
/// Rust's own runtime uses) are simulated: unset, or set to one value or another.
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const libc::c_char) -> *mut libc::c_char {
    let n = std::slice::from_raw_parts(name as *const u8, libc::strlen(name));
    if !n.starts_with(b"RUST_") && asked_environment() {
        let mut h = WORLD.with(|w| w.get());
        for &c in n {
            h = mix(&[h, c as u64]);
        }
        const VALUES: [&[u8]; 4] = [b"1\0", b"0\0", b"7919\0", b"yes\0"];
        return match h % 3 {
            0 => std::ptr::null_mut(),
            _ => VALUES[(h >> 8) as usize % 4].as_ptr() as *mut libc::c_char,
        };
    }
    let mut e = environ;
    while !e.is_null() && !(*e).is_null() {
        let v = *e as *const u8;
        if libc::strncmp(v as *const libc::c_char, name, n.len()) == 0 && *v.add(n.len()) == b'=' {
            return v.add(n.len() + 1) as *mut libc::c_char;
        }
        e = e.add(1);
    }
    std::ptr::null_mut()
}

#[no_mangle]
pub unsafe extern "C" fn getpid() -> libc::pid_t {
    if asked_environment() {
        return (2 + mix(&[WORLD.with(|w| w.get()), 0x91d]) % 60_000) as libc::pid_t;
    }
    libc::syscall(libc::SYS_getpid) as libc::pid_t
}

/// number of processors
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: libc::pid_t, size: libc::size_t, set: *mut libc::cpu_set_t) -> libc::c_int {
    let r = libc::syscall(libc::SYS_sched_getaffinity, pid as libc::c_long, size, set) as libc::c_long;
    if r >= 0 {
        let p = set as *mut u8;
        for i in r as usize..size {
            *p.add(i) = 0;
        }
        if asked_environment() {
            let n = 1 + mix(&[WORLD.with(|w| w.get()), 0xc9]) as usize % 8;
            for i in 0..size {
                *p.add(i) = 0;
            }
            *p = ((1u32 << n) - 1) as u8;
        }
        return 0;
    }
    -1
}

// ---------------------------------------------------------------- allocator

pub struct SimAlloc;

pub fn mem_reset(max_single: usize) {
    LIVE.with(|l| l.set(0));
    PEAK.with(|l| l.set(0));
    N_ALLOC.with(|l| l.set(0));
    MAX_ALLOC.with(|l| l.set(max_single));
}
pub fn mem_peak() -> usize {
    PEAK.with(|l| l.get()).max(0) as usize
}
pub fn mem_allocs() -> u64 {
    N_ALLOC.with(|l| l.get())
}

fn account(delta: isize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + delta;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if IN_LIB.try_with(|x| x.get()).unwrap_or(false) {
            if l.size() > MAX_ALLOC.with(|m| m.get()) {
                return std::ptr::null_mut();
            }
            account(l.size() as isize);
            let _ = N_ALLOC.try_with(|n| n.set(n.get() + 1));
            yield_at("alloc");
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if IN_LIB.try_with(|x| x.get()).unwrap_or(false) {
            account(-(l.size() as isize));
        }
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if IN_LIB.try_with(|x| x.get()).unwrap_or(false) {
            if l.size() > MAX_ALLOC.with(|m| m.get()) {
                return std::ptr::null_mut();
            }
            account(l.size() as isize);
            let _ = N_ALLOC.try_with(|n| n.set(n.get() + 1));
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if IN_LIB.try_with(|x| x.get()).unwrap_or(false) {
            if new > MAX_ALLOC.with(|m| m.get()) {
                return std::ptr::null_mut();
            }
            account(new as isize - l.size() as isize);
            let _ = N_ALLOC.try_with(|n| n.set(n.get() + 1));
        }
        System.realloc(p, l, new)
    }
}

// ---------------------------------------------------------------- caller random source

pub struct CallerRng {
    pub stream: Stream,
}

impl CallerRng {
    pub fn new(spec: &StreamSpec) -> CallerRng {
        CallerRng { stream: Stream::new(spec) }
    }
    fn draw(&mut self) -> u64 {
        let _g = LibGuard(IN_LIB.with(|x| x.replace(false)));
        yield_at("caller-rng");
        if self.stream.reenters_now() {
            reenter();
        }
        if self.stream.fails_now() {
            std::panic::panic_any(Injected);
        }
        with_ctx(|c| c.n.caller += 1);
        if self.stream.draws > self.stream.prefix_len() + DRAW_LIMIT {
            std::panic::panic_any(DrawLimit);
        }
        self.stream.next()
    }
}

/// a callback that calls back into the library
pub fn reenter() {
    let nested = with_ctx(|c| c.nested.take()).flatten();
    if let Some(step) = nested {
        let saved = swap_ctx(None);
        let out = crate::ops::run_step(&step);
        swap_ctx(saved);
        with_ctx(|c| {
            c.nested_out.push(out);
            if c.nested_out.len() < 3 {
                c.nested = Some(step);
            }
        });
    }
}

impl rand::RngCore for CallerRng {
    fn next_u32(&mut self) -> u32 {
        (self.draw() >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.draw()
    }
    fn fill_bytes(&mut self, b: &mut [u8]) {
        for c in b.chunks_mut(8) {
            let v = self.draw().to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(b);
        Ok(())
    }
}
