//! The clock, the sleep and the random bytes the library would get from the system.
//!
//! Today it asks for none of them. A change that makes a result depend on them (a time limit, a map
//! with an order of its own) finds simulated ones, which are the same in every execution of a seed.
//! These symbols come before those of the C library.

use std::cell::Cell;
use std::os::raw::{c_int, c_long, c_uint, c_void};

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}

extern "C" {
    fn syscall(n: c_long, ...) -> c_long;
    fn personality(p: u64) -> c_int;
}

thread_local! {
    static SEED: Cell<u64> = const { Cell::new(1) };
    static NOW: Cell<u64> = const { Cell::new(START) };
    static BYTES: Cell<u64> = const { Cell::new(0x5eed) };
    static ASKED: Cell<(u64, u64)> = const { Cell::new((0, 0)) };
}

fn mix(c: &'static std::thread::LocalKey<Cell<u64>>) -> u64 {
    c.with(|c| {
        c.set(c.get().wrapping_add(0x9e3779b97f4a7c15));
        let z = c.get();
        let z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        let z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    })
}

const START: u64 = 1_000_000_000_000;

/// A new run begins.
pub fn begin() {
    NOW.with(|n| n.set(START));
}

/// An operation begins, `t` microseconds into the run.
pub fn at(t: u64) {
    SEED.with(|s| s.set(t ^ 0xc10c));
    NOW.with(|n| n.set(n.get().max(START + t * 1000)));
}

/// How often clock and random bytes were asked for in library calls since the last time.
pub fn asked() -> (u64, u64) {
    ASKED.with(|a| a.replace((0, 0)))
}

fn in_lib() -> bool {
    crate::bridge::in_lib()
}

const CLOCK_REALTIME: c_int = 0;
const CLOCK_MONOTONIC: c_int = 1;
const SYS_CLOCK_GETTIME: c_long = 228;
const SYS_NANOSLEEP: c_long = 35;
const SYS_GETRANDOM: c_long = 318;

/// Mostly a moment passes, now and then a stall, and calendars are set back.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(k: c_int, t: *mut Timespec) -> c_int {
    if !in_lib() {
        return syscall(SYS_CLOCK_GETTIME, k as c_long, t) as c_int;
    }
    ASKED.with(|a| a.set((a.get().0 + 1, a.get().1)));
    let x = mix(&SEED);
    let gap = match x % 64 {
        0 => (x >> 8) % 20_000_000_000,
        1..=4 => (x >> 8) % 20_000_000,
        _ => (x >> 8) % 2_000,
    };
    let mut now = NOW.with(|n| {
        n.set(n.get() + gap);
        n.get()
    });
    if k != CLOCK_MONOTONIC && k == CLOCK_REALTIME && (x >> 40) % 16 == 0 {
        now -= (x >> 48) * 10_000_000;
    }
    (*t).sec = (now / 1_000_000_000) as i64;
    (*t).nsec = (now % 1_000_000_000) as i64;
    0
}

unsafe fn sleep(t: *const Timespec) -> c_int {
    if !in_lib() {
        return syscall(SYS_NANOSLEEP, t, 0 as c_long) as c_int;
    }
    let d = (*t).sec as u64 * 1_000_000_000 + (*t).nsec as u64;
    NOW.with(|n| n.set(n.get() + d));
    0
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(t: *const Timespec, _rem: *mut Timespec) -> c_int {
    sleep(t)
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(_k: c_int, _fl: c_int, t: *const Timespec, _rem: *mut Timespec) -> c_int {
    // std only sleeps for a time, not until one
    sleep(t)
}

/// The keys of hash maps.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: usize, flags: c_uint) -> isize {
    let _ = (SYS_GETRANDOM, flags);
    if in_lib() {
        ASKED.with(|a| a.set((a.get().0, a.get().1 + 1)));
    }
    let b = std::slice::from_raw_parts_mut(buf as *mut u8, len);
    for c in b.chunks_mut(8) {
        let x = mix(&BYTES).to_le_bytes();
        c.copy_from_slice(&x[..c.len()]);
    }
    len as isize
}

/// Programs this one starts have their memory at the same addresses each time, where that is allowed.
pub fn fixed_addresses() {
    const ADDR_NO_RANDOMIZE: u64 = 0x0040000;
    unsafe {
        personality(ADDR_NO_RANDOMIZE);
    }
}
