//! Interposed system interfaces: entropy, locks, clocks. Calls made by code under test on a
//! simulated caller go to the simulator, all others to the kernel.

use std::sync::atomic::AtomicU32;

use libc::{c_int, c_long, c_uint, c_void, size_t, ssize_t, timespec};

use crate::{
    sched,
    shm::{self, C},
    tape::{self, ENTROPY, FAULT},
    trace,
};

#[derive(Clone, Copy)]
pub struct EntropyFaults {
    pub interrupt: bool,
    pub short: bool,
    pub refuse: bool,
}

static mut FAULTS: EntropyFaults = EntropyFaults {
    interrupt: false,
    short: false,
    refuse: false,
};
static mut DOWN: u64 = 0;
static mut REFUSED: [u64; sched::MAX] = [0; sched::MAX];
static mut READS: u64 = 0;

pub fn set_entropy_faults(f: EntropyFaults) {
    unsafe { FAULTS = f };
}

/// Number of entropy requests of the current caller refused so far.
pub fn refused() -> u64 {
    unsafe { REFUSED[sched::caller() % sched::MAX] }
}

unsafe fn raw6(n: c_long, a: [c_long; 6]) -> c_long {
    let r: c_long;
    unsafe {
        std::arch::asm!(
            "syscall",
            inlateout("rax") n => r,
            in("rdi") a[0],
            in("rsi") a[1],
            in("rdx") a[2],
            in("r10") a[3],
            in("r8") a[4],
            in("r9") a[5],
            lateout("rcx") _,
            lateout("r11") _,
            options(nostack)
        );
    }
    r
}

unsafe fn errno(r: c_long) -> c_long {
    if (-4095..0).contains(&r) {
        unsafe { *libc::__errno_location() = -r as c_int };
        -1
    } else {
        r
    }
}

pub fn raw_futex_wait(word: &AtomicU32, value: u32, seconds: Option<i64>) -> i64 {
    let ts = timespec {
        tv_sec: seconds.unwrap_or(0),
        tv_nsec: 0,
    };
    let tp = if seconds.is_some() {
        &ts as *const timespec as c_long
    } else {
        0
    };
    unsafe {
        raw6(
            libc::SYS_futex,
            [
                word as *const AtomicU32 as c_long,
                c_long::from(libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG),
                c_long::from(value),
                tp,
                0,
                0,
            ],
        )
    }
}

pub fn raw_futex_wake(word: &AtomicU32) -> i64 {
    unsafe {
        raw6(
            libc::SYS_futex,
            [
                word as *const AtomicU32 as c_long,
                c_long::from(libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG),
                c_long::from(i32::MAX),
                0,
                0,
                0,
            ],
        )
    }
}

fn in_seam<T>(f: impl FnOnce() -> T) -> T {
    sched::seam_enter();
    let r = f();
    sched::seam_exit();
    r
}

fn sim_getrandom(buf: *mut u8, len: usize) -> c_long {
    in_seam(|| sim_entropy(buf, len))
}

fn sim_entropy(buf: *mut u8, len: usize) -> c_long {
    sched::yield_point();
    let f = unsafe { FAULTS };
    unsafe {
        READS += 1;
        if f.refuse {
            if DOWN > 0 {
                DOWN -= 1;
            } else if tape::chance(FAULT, 1, 3) {
                DOWN = 1 + tape::draw(FAULT, 4);
            }
            if DOWN > 0 {
                REFUSED[sched::caller() % sched::MAX] += 1;
                shm::count(C::fault_entropy_refused);
                shm::log(10, len as u64, 0);
                trace!("    entropy request of {len} bytes refused");
                return -c_long::from(libc::EIO);
            }
        }
    }
    if f.interrupt && tape::chance(FAULT, 1, 3) {
        shm::count(C::fault_entropy_interrupted);
        trace!("    entropy request interrupted");
        return -c_long::from(libc::EINTR);
    }
    let mut n = len;
    if f.short && len > 1 && tape::chance(FAULT, 1, 2) {
        n = 1 + tape::draw(FAULT, len as u64 - 1) as usize;
        shm::count(C::fault_entropy_short);
        trace!("    entropy request of {len} bytes delivers {n}");
    }
    let mut i = 0;
    while i < n {
        let word = tape::draw(ENTROPY, 0).to_le_bytes();
        let m = (n - i).min(8);
        unsafe { std::ptr::copy_nonoverlapping(word.as_ptr(), buf.add(i), m) };
        i += m;
    }
    shm::log(11, n as u64, 0);
    n as c_long
}

/// # Safety
/// As getrandom(2)
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: c_uint) -> ssize_t {
    let r = if sched::armed() {
        sim_getrandom(buf.cast(), len)
    } else {
        unsafe {
            raw6(
                libc::SYS_getrandom,
                [buf as c_long, len as c_long, c_long::from(flags), 0, 0, 0],
            )
        }
    };
    unsafe { errno(r) as ssize_t }
}

/// # Safety
/// As syscall(2)
#[no_mangle]
pub unsafe extern "C" fn syscall(
    n: c_long,
    a: c_long,
    b: c_long,
    c: c_long,
    d: c_long,
    e: c_long,
    f: c_long,
) -> c_long {
    if sched::armed() {
        if n == libc::SYS_getrandom {
            return unsafe { errno(sim_getrandom(a as *mut u8, b as usize)) };
        }
        if n == libc::SYS_futex {
            match (b as c_int) & 0x7f {
                libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
                    let r = in_seam(|| sched::futex_wait(a as usize, c as u32, d != 0));
                    return unsafe { errno(r) };
                }
                libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
                    return in_seam(|| sched::futex_wake(a as usize, c as u32));
                }
                _ => (),
            }
        }
    }
    unsafe { errno(raw6(n, [a, b, c, d, e, f])) }
}

/// # Safety
/// As clock_gettime(2)
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: libc::clockid_t, ts: *mut timespec) -> c_int {
    if sched::armed() {
        let us = in_seam(|| {
            sched::yield_point();
            sched::clock_us(clock == libc::CLOCK_REALTIME)
        });
        unsafe {
            (*ts).tv_sec = (us / 1_000_000) as i64;
            (*ts).tv_nsec = (us % 1_000_000) as i64 * 1000;
        }
        return 0;
    }
    unsafe {
        errno(raw6(
            libc::SYS_clock_gettime,
            [c_long::from(clock), ts as c_long, 0, 0, 0, 0],
        )) as c_int
    }
}

/// # Safety
/// As sched_yield(2)
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if sched::armed() {
        in_seam(|| sched::give_way(0));
        return 0;
    }
    unsafe { errno(raw6(libc::SYS_sched_yield, [0; 6])) as c_int }
}

unsafe fn sim_sleep(ts: *const timespec, absolute: bool) {
    in_seam(|| {
        let mut us = unsafe { (*ts).tv_sec as u64 * 1_000_000 + (*ts).tv_nsec as u64 / 1000 };
        if absolute {
            us = us.saturating_sub(sched::clock_us(false));
        }
        shm::count(C::probe_sleep);
        sched::give_way(us.min(1 << 40));
    });
}

/// # Safety
/// As nanosleep(2)
#[no_mangle]
pub unsafe extern "C" fn nanosleep(ts: *const timespec, rem: *mut timespec) -> c_int {
    if sched::armed() {
        unsafe { sim_sleep(ts, false) };
        return 0;
    }
    unsafe { errno(raw6(libc::SYS_nanosleep, [ts as c_long, rem as c_long, 0, 0, 0, 0])) as c_int }
}

/// # Safety
/// As clock_nanosleep(2)
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    clock: libc::clockid_t,
    flags: c_int,
    ts: *const timespec,
    rem: *mut timespec,
) -> c_int {
    if sched::armed() {
        unsafe { sim_sleep(ts, flags & libc::TIMER_ABSTIME != 0) };
        return 0;
    }
    // this one returns the error itself
    let a = [c_long::from(clock), c_long::from(flags), ts as c_long, rem as c_long, 0, 0];
    unsafe { -raw6(libc::SYS_clock_nanosleep, a) as c_int }
}
