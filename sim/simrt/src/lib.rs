//! Runtime of the instrumented build. The compiler's thread-sanitizer pass turns every
//! atomic operation and memory access of the library (and of its generics) into a call of
//! one of these functions. They perform the operation and, before that, tell the simulator,
//! which can switch to another simulated caller there. This crate itself is not instrumented.
//!
//! Reported are atomic operations everywhere and plain accesses to mutable statics, and
//! library code that goes to sleep on a futex (a lock held by another caller).
#![allow(non_snake_case, static_mut_refs)]
use std::sync::atomic::*;

/// (site, address)
static mut ACCESS: Option<fn(&'static str, usize)> = None;
/// (address of the word, value it sleeps on) -> handled
static mut SLEEP: Option<fn(usize, u32) -> bool> = None;
static mut RECORDING: bool = false;
static mut IGNORED: [(usize, usize); 8] = [(0, 0); 8];
static mut N_IGNORED: usize = 0;

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

#[inline(always)]
fn lo() -> usize {
    std::ptr::addr_of!(__data_start) as usize
}
#[inline(always)]
fn hi() -> usize {
    std::ptr::addr_of!(_end) as usize
}

pub fn install(access: fn(&'static str, usize), sleep: fn(usize, u32) -> bool) {
    unsafe {
        SLEEP = Some(sleep);
        ACCESS = Some(access);
    }
}
/// statics accessed while `f` runs are the simulator's own: they are not reported later
pub fn ignore_what<R>(f: impl FnOnce() -> R) -> R {
    unsafe {
        RECORDING = true;
        let r = f();
        RECORDING = false;
        r
    }
}

#[cold]
#[inline(never)]
unsafe fn tell(site: &'static str, p: usize, len: usize) {
    if RECORDING {
        if p >= lo() && p < hi() && N_IGNORED < 8 {
            IGNORED[N_IGNORED] = (p, len);
            N_IGNORED += 1;
        }
        return;
    }
    if let Some(f) = ACCESS {
        for i in 0..N_IGNORED {
            if IGNORED[i].0 == p {
                return;
            }
        }
        f(site, p);
    }
}
#[inline(always)]
unsafe fn plain(p: *const u8, len: usize) {
    let a = p as usize;
    if a < hi() && a + len > lo() {
        tell("static", a, len);
    }
}
#[inline(always)]
unsafe fn atomic(p: *const u8, len: usize) {
    tell("atomic", p as usize, len);
}

macro_rules! access {
    ($($n:literal $r:ident $w:ident $ur:ident $uw:ident),*) => { $(
        #[no_mangle] pub unsafe extern "C" fn $r(p: *const u8) { plain(p, $n) }
        #[no_mangle] pub unsafe extern "C" fn $w(p: *const u8) { plain(p, $n) }
        #[no_mangle] pub unsafe extern "C" fn $ur(p: *const u8) { plain(p, $n) }
        #[no_mangle] pub unsafe extern "C" fn $uw(p: *const u8) { plain(p, $n) }
    )* };
}
access!(1 __tsan_read1 __tsan_write1 __tsan_unaligned_read1 __tsan_unaligned_write1,
        2 __tsan_read2 __tsan_write2 __tsan_unaligned_read2 __tsan_unaligned_write2,
        4 __tsan_read4 __tsan_write4 __tsan_unaligned_read4 __tsan_unaligned_write4,
        8 __tsan_read8 __tsan_write8 __tsan_unaligned_read8 __tsan_unaligned_write8,
        16 __tsan_read16 __tsan_write16 __tsan_unaligned_read16 __tsan_unaligned_write16);

#[no_mangle] pub unsafe extern "C-unwind" fn __tsan_read_range(p: *const u8, n: usize) { plain(p, n) }
#[no_mangle] pub unsafe extern "C-unwind" fn __tsan_write_range(p: *const u8, n: usize) { plain(p, n) }
#[no_mangle] pub extern "C-unwind" fn __tsan_init() {}
#[no_mangle] pub extern "C-unwind" fn __tsan_func_entry(_: *const u8) {}
#[no_mangle] pub extern "C-unwind" fn __tsan_func_exit() {}
#[no_mangle] pub extern "C-unwind" fn __tsan_ignore_thread_begin() {}
#[no_mangle] pub extern "C-unwind" fn __tsan_ignore_thread_end() {}
#[no_mangle] pub extern "C-unwind" fn __tsan_vptr_update(_: *const u8, _: *const u8) {}
#[no_mangle] pub extern "C-unwind" fn __tsan_vptr_read(_: *const u8) {}
#[no_mangle] pub unsafe extern "C-unwind" fn __tsan_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    plain(d, n);
    plain(s, n);
    std::ptr::copy(s, d, n);
    d
}
#[no_mangle] pub unsafe extern "C-unwind" fn __tsan_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    plain(d, n);
    plain(s, n);
    std::ptr::copy(s, d, n);
    d
}
#[no_mangle] pub unsafe extern "C-unwind" fn __tsan_memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
    plain(d, n);
    std::ptr::write_bytes(d, c as u8, n);
    d
}
#[no_mangle] pub extern "C-unwind" fn __tsan_atomic_thread_fence(_: i32) { fence(Ordering::SeqCst) }
#[no_mangle] pub extern "C-unwind" fn __tsan_atomic_signal_fence(_: i32) { compiler_fence(Ordering::SeqCst) }

use Ordering::SeqCst;
macro_rules! atomics {
    ($($t:ty, $at:ty, $n:literal, $load:ident $store:ident $xchg:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $cv:ident $cs:ident $cw:ident);* $(;)?) => { $(
        #[no_mangle] pub unsafe extern "C" fn $load(p: *const $at, _: i32) -> $t { atomic(p as _, $n); (*p).load(SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $store(p: *const $at, v: $t, _: i32) { atomic(p as _, $n); (*p).store(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $xchg(p: *const $at, v: $t, _: i32) -> $t { atomic(p as _, $n); (*p).swap(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $add(p: *const $at, v: $t, _: i32) -> $t { atomic(p as _, $n); (*p).fetch_add(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $sub(p: *const $at, v: $t, _: i32) -> $t { atomic(p as _, $n); (*p).fetch_sub(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $and(p: *const $at, v: $t, _: i32) -> $t { atomic(p as _, $n); (*p).fetch_and(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $or(p: *const $at, v: $t, _: i32) -> $t { atomic(p as _, $n); (*p).fetch_or(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $xor(p: *const $at, v: $t, _: i32) -> $t { atomic(p as _, $n); (*p).fetch_xor(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $nand(p: *const $at, v: $t, _: i32) -> $t { atomic(p as _, $n); (*p).fetch_nand(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $cv(p: *const $at, c: $t, v: $t, _: i32, _: i32) -> $t {
            atomic(p as _, $n);
            match (*p).compare_exchange(c, v, SeqCst, SeqCst) { Ok(x) | Err(x) => x }
        }
        #[no_mangle] pub unsafe extern "C" fn $cs(p: *const $at, c: *mut $t, v: $t, _: i32, _: i32) -> i32 {
            atomic(p as _, $n);
            match (*p).compare_exchange(*c, v, SeqCst, SeqCst) { Ok(_) => 1, Err(x) => { *c = x; 0 } }
        }
        #[no_mangle] pub unsafe extern "C" fn $cw(p: *const $at, c: *mut $t, v: $t, _: i32, _: i32) -> i32 {
            atomic(p as _, $n);
            match (*p).compare_exchange(*c, v, SeqCst, SeqCst) { Ok(_) => 1, Err(x) => { *c = x; 0 } }
        }
    )* };
}
atomics! {
    u8, AtomicU8, 1, __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_val __tsan_atomic8_compare_exchange_strong __tsan_atomic8_compare_exchange_weak;
    u16, AtomicU16, 2, __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_val __tsan_atomic16_compare_exchange_strong __tsan_atomic16_compare_exchange_weak;
    u32, AtomicU32, 4, __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_val __tsan_atomic32_compare_exchange_strong __tsan_atomic32_compare_exchange_weak;
    u64, AtomicU64, 8, __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_val __tsan_atomic64_compare_exchange_strong __tsan_atomic64_compare_exchange_weak;
}

// ---------------------------------------------------------------- sleeping

unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    if r < 0 && r > -4096 {
        *libc::__errno_location() = -r as i32;
        return -1;
    }
    r
}

/// libc's syscall(2) wrapper, through which std's locks, once cells and parked threads sleep
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == libc::SYS_futex && d == 0 {
        let op = b as i32 & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
        if op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET {
            if let Some(s) = SLEEP {
                if s(a as usize, c as u32) {
                    return 0;
                }
            }
        }
    }
    raw(n, a, b, c, d, e, f)
}
