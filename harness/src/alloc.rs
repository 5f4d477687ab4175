//! The simulated allocator. It serves code under test from its own arenas, decides placement, reuse
//! and contents, can refuse, and checks every release and (through guard pages, poison and canaries)
//! every access.

use std::alloc::{GlobalAlloc, Layout, System};

use crate::{
    sched,
    shm::{self, C},
    tape::{self, MEM},
    trace, violation,
};

pub struct SimAlloc;

#[global_allocator]
static GLOBAL: SimAlloc = SimAlloc;

const PAGE: usize = 4096;
const FENCE_BASE: usize = 0x2000_0000_0000;
const FENCE_LEN: usize = 32 << 30;
const POOL_BASE: usize = 0x3000_0000_0000;
const POOL_LEN: usize = 16 << 30;
const FENCE_LIVE_CAP: u64 = 14_000;
/// Guard pages are slow; a run that allocates more goes on without them.
const FENCE_TOTAL_CAP: usize = 150_000;
const BIG: usize = 1 << 14;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Reuse {
    Never,
    Lifo,
    Fifo,
    Random,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fill {
    Zero,
    /// whatever the block held before (0 if new)
    Stale,
    Garbage,
    /// addresses of blocks in use, the most misleading contents for pointer code
    Address,
}

#[derive(Clone, Copy, Debug)]
pub struct MemCfg {
    pub guard: bool,
    pub low_side: bool,
    pub reuse: Reuse,
    pub fill: Fill,
    pub poison_free: bool,
}

impl MemCfg {
    pub const PLAIN: MemCfg = MemCfg {
        guard: false,
        low_side: false,
        reuse: Reuse::Lifo,
        fill: Fill::Zero,
        poison_free: false,
    };
}

#[repr(C)]
struct Hdr {
    magic: u64,
    size: usize,
    align: u32,
    class: u32,
    seq: u64,
}

const LIVE: u64 = 0xA110_CA7E_D0B1_0C55;
const FREE: u64 = 0xF4EE_D0B1_0C55_F4EE;
const POISON: u8 = 0xF5;
const CANARY: u8 = 0xC7;
const TAIL: usize = 16;

#[repr(C)]
#[derive(Clone, Copy)]
struct FMeta {
    addr: usize,
    size: usize,
    align: usize,
    live: bool,
    seq: u64,
    pages: usize,
}

const CLASSES: usize = 128;
const CLASS_CAP: usize = 1 << 20;

struct State {
    ready: bool,
    cfg: MemCfg,
    seq: u64,
    live: u64,
    live_bytes: u64,
    rot: u64,
    last: usize,
    // pool
    bump: usize,
    lists: usize,
    head: [usize; CLASSES],
    tail: [usize; CLASSES],
    // fence
    fnext: usize,
    metas: usize,
    nmeta: usize,
    index: usize,
    fence_live: u64,
    // refusals
    refuse_in: u64,
    lasting: bool,
    refused: u64,
    counted: u64,
}

static mut STATE: State = State {
    ready: false,
    cfg: MemCfg::PLAIN,
    seq: 0,
    live: 0,
    live_bytes: 0,
    rot: 0x1234_5678_9ABC_DEF1,
    last: 0,
    bump: POOL_BASE,
    lists: 0,
    head: [0; CLASSES],
    tail: [0; CLASSES],
    fnext: FENCE_BASE,
    metas: 0,
    nmeta: 0,
    index: 0,
    fence_live: 0,
    refuse_in: 0,
    lasting: false,
    refused: 0,
    counted: 0,
};

#[allow(static_mut_refs)]
fn st() -> &'static mut State {
    unsafe { &mut STATE }
}

unsafe fn map(addr: usize, len: usize, prot: i32) -> usize {
    let fixed = if addr == 0 { 0 } else { libc::MAP_FIXED_NOREPLACE };
    let p = unsafe {
        libc::mmap(
            addr as *mut _,
            len,
            prot,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | fixed,
            -1,
            0,
        )
    };
    if p == libc::MAP_FAILED {
        shm::harness_error(format_args!("mmap of {len} bytes failed"));
    }
    p as usize
}

/// Sets up the arenas of this run.
pub fn start(cfg: MemCfg) {
    let s = st();
    let rw = libc::PROT_READ | libc::PROT_WRITE;
    unsafe {
        if !s.ready {
            map(POOL_BASE, POOL_LEN, rw);
            s.lists = map(0, CLASSES * CLASS_CAP * 8, rw);
            map(FENCE_BASE, FENCE_LEN, libc::PROT_NONE);
            s.metas = map(0, 4_000_000 * std::mem::size_of::<FMeta>(), rw);
            s.index = map(0, FENCE_LEN / PAGE * 4, rw);
            s.ready = true;
        }
    }
    s.cfg = cfg;
    s.rot = tape::draw(MEM, 0) | 1;
    shm::count(match (cfg.guard, cfg.reuse) {
        (true, _) => C::mem_guard_pages,
        (_, Reuse::Lifo) => C::mem_lifo,
        (_, Reuse::Fifo) => C::mem_fifo,
        _ => C::mem_random,
    });
    shm::count(match cfg.fill {
        Fill::Zero => C::mem_zero_fill,
        Fill::Stale => C::mem_stale_fill,
        Fill::Garbage => C::mem_garbage_fill,
        Fill::Address => C::mem_address_fill,
    });
}

/// From now on the `n`-th allocation of code under test is refused (0: none), and all later ones if
/// `lasting`.
pub fn refuse(n: u64, lasting: bool) {
    let s = st();
    s.refuse_in = n;
    s.lasting = lasting;
}

pub fn refused() -> u64 {
    st().refused
}

/// Allocations made by code under test so far.
pub fn allocations() -> u64 {
    st().counted
}

pub fn live() -> (u64, u64) {
    (st().live, st().live_bytes)
}

fn class_of(total: usize) -> (usize, usize) {
    // total includes header and tail
    if total <= 1024 {
        let c = total.div_ceil(16);
        (c, c * 16)
    } else {
        let p = total.next_power_of_two();
        (64 + p.trailing_zeros() as usize, p)
    }
}

fn list(class: usize) -> *mut usize {
    (st().lists + class * CLASS_CAP * 8) as *mut usize
}

fn noise(s: &mut State) -> u64 {
    s.rot ^= s.rot << 13;
    s.rot ^= s.rot >> 7;
    s.rot ^= s.rot << 17;
    s.rot
}

unsafe fn fill(s: &mut State, p: *mut u8, size: usize, fresh: bool) {
    let part = size.min(BIG);
    match s.cfg.fill {
        Fill::Zero => {
            if !fresh {
                unsafe { p.write_bytes(0, size) }
            }
        }
        Fill::Stale => (),
        Fill::Garbage => {
            let mut i = 0;
            while i < part {
                let w = noise(s).to_le_bytes();
                let m = (part - i).min(8);
                unsafe { std::ptr::copy_nonoverlapping(w.as_ptr(), p.add(i), m) };
                i += m;
            }
        }
        Fill::Address => {
            let w = s.last.to_le_bytes();
            let mut i = 0;
            while i < part {
                let m = (part - i).min(8);
                unsafe { std::ptr::copy_nonoverlapping(w.as_ptr(), p.add(i), m) };
                i += m;
            }
        }
    }
}

unsafe fn poison_intact(p: *const u8, size: usize) -> bool {
    let part = size.min(BIG);
    let block = unsafe { std::slice::from_raw_parts(p, part) };
    block.iter().all(|b| *b == POISON)
}

unsafe fn pool_alloc(s: &mut State, layout: Layout) -> *mut u8 {
    let (class, bytes) = class_of(32 + layout.size() + TAIL);
    let len = s.tail[class] - s.head[class];
    let take_free = len > 0
        && match s.cfg.reuse {
            Reuse::Never => false,
            Reuse::Lifo => true,
            Reuse::Fifo => len > 4,
            Reuse::Random => noise(s) % 8 != 0,
        };
    let l = list(class);
    let (base, fresh) = if take_free {
        let at = match s.cfg.reuse {
            Reuse::Lifo | Reuse::Never => s.tail[class] - 1,
            Reuse::Fifo => s.head[class],
            Reuse::Random => s.head[class] + (noise(s) as usize) % len,
        };
        unsafe {
            let base = *l.add(at % CLASS_CAP);
            if s.cfg.reuse == Reuse::Fifo {
                s.head[class] += 1;
            } else {
                let last = s.tail[class] - 1;
                *l.add(at % CLASS_CAP) = *l.add(last % CLASS_CAP);
                s.tail[class] = last;
            }
            (base, false)
        }
    } else {
        let base = s.bump;
        s.bump += bytes;
        if s.bump > POOL_BASE + POOL_LEN {
            shm::harness_error(format_args!("simulated heap exhausted"));
        }
        (base, true)
    };
    let payload = base + 32;
    unsafe {
        if !fresh {
            shm::count(C::mem_block_reused);
            check_freed(base);
        }
        fill(s, payload as *mut u8, layout.size(), fresh);
        *(base as *mut Hdr) = Hdr {
            magic: LIVE,
            size: layout.size(),
            align: layout.align() as u32,
            class: class as u32,
            seq: s.seq,
        };
        ((payload + layout.size()) as *mut u8).write_bytes(CANARY, TAIL);
    }
    payload as *mut u8
}

/// Reports a write to a block of the pool after its release.
unsafe fn check_freed(base: usize) {
    unsafe {
        let hdr = base as *const Hdr;
        if (*hdr).magic != FREE {
            violation!("write-after-free", "the header of a released block was overwritten");
        }
        // the align field of a released block says whether it was poisoned
        if (*hdr).align == 1 && !poison_intact((base + 32) as *const u8, (*hdr).size) {
            violation!(
                "write-after-free",
                "released block #{} of {} bytes was written to",
                (*hdr).seq,
                (*hdr).size
            );
        }
    }
}

unsafe fn pool_free(s: &mut State, p: *mut u8, layout: Layout) {
    unsafe {
        let base = (p as usize).wrapping_sub(32);
        let hdr = base as *mut Hdr;
        if base < POOL_BASE || base % 16 != 0 || base >= s.bump {
            violation!("bad-free", "release of an address that is no allocation");
        }
        if (*hdr).magic == FREE {
            violation!(
                "bad-free",
                "block #{} of {} bytes released twice",
                (*hdr).seq,
                (*hdr).size
            );
        }
        if (*hdr).magic != LIVE {
            violation!(
                "bad-free",
                "release of an address that is no allocation, or block header overwritten"
            );
        }
        if (*hdr).size != layout.size() || (*hdr).align != layout.align() as u32 {
            violation!(
                "bad-free",
                "block #{} of {} bytes released as {} bytes",
                (*hdr).seq,
                (*hdr).size,
                layout.size()
            );
        }
        let tail = std::slice::from_raw_parts(p.add(layout.size()), TAIL);
        if !tail.iter().all(|b| *b == CANARY) {
            violation!(
                "overflow-write",
                "written past the end of block #{} of {} bytes",
                (*hdr).seq,
                (*hdr).size
            );
        }
        (*hdr).magic = FREE;
        (*hdr).align = u32::from(s.cfg.poison_free);
        if s.cfg.poison_free {
            p.write_bytes(POISON, layout.size().min(BIG));
        }
        let class = (*hdr).class as usize;
        if s.tail[class] - s.head[class] < CLASS_CAP - 1 {
            *list(class).add(s.tail[class] % CLASS_CAP) = base;
            s.tail[class] += 1;
        }
    }
}

unsafe fn fence_alloc(s: &mut State, layout: Layout) -> *mut u8 {
    let size = layout.size().max(1);
    let pages = size.div_ceil(PAGE);
    // one inaccessible page before and after
    let start = s.fnext + PAGE;
    s.fnext = start + pages * PAGE;
    if s.fnext + PAGE > FENCE_BASE + FENCE_LEN || s.nmeta >= 4_000_000 - 1 {
        shm::harness_error(format_args!("simulated heap exhausted"));
    }
    unsafe {
        if libc::mprotect(start as *mut _, pages * PAGE, libc::PROT_READ | libc::PROT_WRITE) != 0 {
            shm::harness_error(format_args!("mprotect failed"));
        }
        let p = if s.cfg.low_side {
            start
        } else {
            (start + pages * PAGE - size) / layout.align() * layout.align()
        };
        (start as *mut u8).write_bytes(CANARY, p - start);
        ((p + size) as *mut u8).write_bytes(CANARY, start + pages * PAGE - p - size);
        fill(s, p as *mut u8, size, true);
        s.nmeta += 1;
        *(s.metas as *mut FMeta).add(s.nmeta) = FMeta {
            addr: p,
            size: layout.size(),
            align: layout.align(),
            live: true,
            seq: s.seq,
            pages,
        };
        let first = (start - FENCE_BASE) / PAGE;
        for i in first..first + pages {
            *(s.index as *mut u32).add(i) = s.nmeta as u32;
        }
        s.fence_live += 1;
        p as *mut u8
    }
}

unsafe fn meta_at(s: &State, addr: usize) -> Option<&'static mut FMeta> {
    if !(FENCE_BASE..FENCE_BASE + FENCE_LEN).contains(&addr) || s.index == 0 {
        return None;
    }
    unsafe {
        let i = *(s.index as *const u32).add((addr - FENCE_BASE) / PAGE);
        if i == 0 {
            return None;
        }
        Some(&mut *(s.metas as *mut FMeta).add(i as usize))
    }
}

unsafe fn fence_free(s: &mut State, p: *mut u8, layout: Layout) {
    unsafe {
        let Some(m) = meta_at(s, p as usize) else {
            violation!("bad-free", "release of an address that is no allocation");
        };
        if m.addr != p as usize {
            violation!("bad-free", "release of an address inside block #{}", m.seq);
        }
        if !m.live {
            violation!("bad-free", "block #{} of {} bytes released twice", m.seq, m.size);
        }
        if m.size != layout.size() || m.align != layout.align() {
            violation!(
                "bad-free",
                "block #{} of {} bytes released as {} bytes",
                m.seq,
                m.size,
                layout.size()
            );
        }
        let start = m.addr / PAGE * PAGE;
        let end = start + m.pages * PAGE;
        let size = m.size.max(1);
        let before = std::slice::from_raw_parts(start as *const u8, m.addr - start);
        let after = std::slice::from_raw_parts((m.addr + size) as *const u8, end - m.addr - size);
        if !before.iter().chain(after).all(|b| *b == CANARY) {
            violation!(
                "overflow-write",
                "written outside block #{} of {} bytes",
                m.seq,
                m.size
            );
        }
        m.live = false;
        s.fence_live -= 1;
        // gives the pages back and forbids any access
        libc::mmap(
            start as *mut _,
            m.pages * PAGE,
            libc::PROT_NONE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED,
            -1,
            0,
        );
    }
}

/// Describes an address for the report of an invalid access.
pub fn describe(addr: usize, out: &mut dyn FnMut(std::fmt::Arguments)) {
    let s = st();
    unsafe {
        if (FENCE_BASE..FENCE_BASE + FENCE_LEN).contains(&addr) {
            match meta_at(s, addr) {
                Some(m) if !m.live => out(format_args!(
                    "access to block #{} of {} bytes after its release",
                    m.seq, m.size
                )),
                Some(m) => out(format_args!(
                    "access at {} bytes from block #{} of {} bytes",
                    addr as i64 - m.addr as i64,
                    m.seq,
                    m.size
                )),
                None => out(format_args!("access just outside a block")),
            }
        } else if addr < PAGE {
            out(format_args!("access through a null pointer"));
        } else {
            out(format_args!("access through an invalid pointer"));
        }
    }
}

/// Looks for writes to released blocks that were not reused.
pub fn final_sweep() {
    let s = st();
    if !s.ready {
        return;
    }
    for class in 0..CLASSES {
        let l = list(class);
        for i in s.head[class]..s.tail[class] {
            unsafe { check_freed(*l.add(i % CLASS_CAP)) };
        }
    }
}

fn simulated(p: *mut u8) -> bool {
    let a = p as usize;
    (FENCE_BASE..FENCE_BASE + FENCE_LEN).contains(&a)
        || (POOL_BASE..POOL_BASE + POOL_LEN).contains(&a)
}

unsafe fn take(layout: Layout) -> *mut u8 {
    sched::yield_point();
    let s = st();
    if !s.ready {
        return unsafe { System.alloc(layout) };
    }
    s.counted += 1;
    shm::count(C::allocations);
    if s.refuse_in > 0 {
        s.refuse_in -= 1;
        if s.refuse_in == 0 {
            s.refused += 1;
            if s.lasting {
                s.refuse_in = 1;
            }
            shm::count(if s.lasting {
                C::fault_alloc_refused_lasting
            } else {
                C::fault_alloc_refused_once
            });
            trace!("    allocation of {} bytes refused", layout.size());
            shm::log(20, layout.size() as u64, s.refused);
            return std::ptr::null_mut();
        }
    }
    s.seq += 1;
    s.live += 1;
    s.live_bytes += layout.size() as u64;
    let p = unsafe {
        if layout.align() > 16 || (s.cfg.guard && s.fence_live < FENCE_LIVE_CAP && s.nmeta < FENCE_TOTAL_CAP) {
            fence_alloc(s, layout)
        } else {
            pool_alloc(s, layout)
        }
    };
    s.last = p as usize;
    p
}

unsafe fn give_back(p: *mut u8, layout: Layout) {
    if sched::armed() {
        sched::yield_point();
    }
    if !simulated(p) {
        return unsafe { System.dealloc(p, layout) };
    }
    let s = st();
    shm::count(C::releases);
    unsafe {
        if (p as usize) < POOL_BASE {
            fence_free(s, p, layout);
        } else {
            pool_free(s, p, layout);
        }
    }
    s.live -= 1;
    s.live_bytes -= layout.size() as u64;
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        if !sched::armed() {
            return unsafe { System.alloc(layout) };
        }
        sched::seam_enter();
        let p = unsafe { take(layout) };
        sched::seam_exit();
        p
    }

    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        sched::seam_enter();
        unsafe { give_back(p, layout) };
        sched::seam_exit();
    }

    unsafe fn realloc(&self, p: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        if !simulated(p) && !sched::armed() {
            return unsafe { System.realloc(p, layout, new_size) };
        }
        sched::seam_enter();
        let p = unsafe {
            let new = self.alloc(Layout::from_size_align_unchecked(new_size, layout.align()));
            if !new.is_null() {
                std::ptr::copy_nonoverlapping(p, new, layout.size().min(new_size));
                self.dealloc(p, layout);
            }
            new
        };
        sched::seam_exit();
        p
    }

    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        if !sched::armed() {
            return unsafe { System.alloc_zeroed(layout) };
        }
        sched::seam_enter();
        let p = unsafe {
            let p = self.alloc(layout);
            if !p.is_null() {
                p.write_bytes(0, layout.size());
            }
            p
        };
        sched::seam_exit();
        p
    }
}
