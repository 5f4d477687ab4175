//! Accesses of the code under test to its statics, and its atomic operations: the instructions are
//! found in the executable at build time (`sites.sh`) and get a breakpoint in simulated runs, which
//! makes them yield points. The unchanged tree has none.

use std::sync::atomic::{AtomicU8, Ordering};

use crate::shm::{self, C};

struct Site {
    addr: usize,
    code: u8,
}

static mut SITES: Vec<Site> = Vec::new();
static mut WRITABLE: bool = false;
static mut SET: bool = false;
const BREAKPOINT: u8 = 0xCC;

extern "C" {
    static __executable_start: u8;
}

#[allow(static_mut_refs)]
fn sites() -> &'static Vec<Site> {
    unsafe { &SITES }
}

/// Reads the list next to the executable.
pub fn load() {
    let Ok(exe) = std::env::current_exe() else { return };
    let Ok(text) = std::fs::read_to_string(exe.with_extension("sites")) else { return };
    let base = &raw const __executable_start as usize;
    let mut list: Vec<usize> = text
        .lines()
        .filter_map(|l| usize::from_str_radix(l.trim(), 16).ok())
        .map(|a| base + a)
        .collect();
    list.sort_unstable();
    list.dedup();
    let list = list
        .into_iter()
        .map(|addr| Site {
            addr,
            code: unsafe { *(addr as *const u8) },
        })
        .collect();
    unsafe { SITES = list };
}

pub fn count() -> usize {
    sites().len()
}

fn write(addr: usize, byte: u8) {
    unsafe { &*(addr as *const AtomicU8) }.store(byte, Ordering::SeqCst);
}

/// Sets all breakpoints.
pub fn set() {
    unsafe {
        if SET {
            return;
        }
        if !WRITABLE {
            for s in sites() {
                let page = s.addr & !4095;
                if libc::mprotect(
                    page as *mut _,
                    8192,
                    libc::PROT_READ | libc::PROT_WRITE | libc::PROT_EXEC,
                ) != 0
                {
                    return;
                }
            }
            WRITABLE = true;
        }
        SET = true;
    }
    for s in sites() {
        write(s.addr, BREAKPOINT);
    }
}

pub fn clear() {
    unsafe {
        if !SET {
            return;
        }
        SET = false;
    }
    for s in sites() {
        write(s.addr, s.code);
    }
}

pub fn are_set() -> bool {
    unsafe { SET }
}

/// The site at this address.
pub fn find(addr: usize) -> Option<usize> {
    let i = sites().binary_search_by_key(&addr, |s| s.addr).ok()?;
    shm::count(C::shared_accesses);
    Some(i)
}

pub fn lift(i: usize) {
    write(sites()[i].addr, sites()[i].code);
}

pub fn put_back(i: usize) {
    if are_set() {
        write(sites()[i].addr, BREAKPOINT);
    }
}
