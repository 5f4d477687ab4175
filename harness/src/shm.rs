//! Memory shared between the orchestrating process and the process of one simulated run. Nothing in
//! here allocates, so it can be used from inside the simulated allocator and from signal handlers.

use std::ffi::c_void;

pub const TAPE_CAP: usize = 3_000_000;
pub const TRACE_CAP: usize = 1 << 18;
pub const SCRATCH: usize = 8192;
/// Tables of frequencies that all runs of a check add up (see `dist::TABLES`).
pub const TABLES: usize = 8;
pub const TABLE: usize = 256;

macro_rules! counters {
    ($($name:ident),* $(,)?) => {
        #[allow(non_camel_case_types, dead_code)]
        #[derive(Clone, Copy)]
        #[repr(usize)]
        pub enum C { $($name),*, COUNT }
        pub const COUNTER_NAMES: &[&str] = &[$(stringify!($name)),*];
    };
}

counters! {
    // work
    calls, steps, sim_time_us, words_drawn, allocations, releases, preempt_windows, shared_accesses,
    // faults and scheduling that actually happened
    fault_thread_switch, fault_stall, fault_entropy_interrupted, fault_entropy_short, fault_entropy_refused,
    fault_alloc_refused_once, fault_alloc_refused_lasting, fault_clock_jump, fault_suspended, fault_neighbour_panic,
    fault_extreme_words, fault_instruction_preemption, fault_shared_access_preemption, fault_production_rng, fault_futex_wait,
    mem_guard_pages, mem_lifo, mem_fifo, mem_random, mem_stale_fill, mem_garbage_fill, mem_address_fill, mem_zero_fill,
    mem_block_reused,
    // probes: rare conditions reached
    probe_overlapped_calls, probe_oom_abort, probe_oom_survived, probe_entropy_panic, probe_recovered_after_refusal,
    probe_recovered_after_panic, probe_one_wide, probe_one_high, probe_large_maze, probe_long_path, probe_path_left_to_edge, probe_path_up_to_edge,
    probe_sudoku_unique, probe_sudoku_ambiguous, probe_sudoku_unsolvable_deep, probe_sudoku_dup_row, probe_sudoku_dup_col,
    probe_sudoku_dup_box, probe_sudoku_bad_value, probe_sudoku_bad_size, probe_sudoku_complete, probe_sudoku_long_search, probe_cover_deep, probe_cover_tall,
    probe_nonogram_search, probe_nonogram_wrong_guess_possible, probe_nonogram_unsolvable, probe_nonogram_zero_rule, probe_nonogram_large, probe_nonogram_empty,
    probe_cover_rejected, probe_cover_continue_after_reject, probe_cover_bad_index, probe_cover_dropped, probe_cover_unsolvable, probe_cover_solved,
    probe_cover_refused_setup,
    probe_leak_rounds, probe_long_history, probe_huge_maze, probe_nonogram_long_line, probe_sleep, probe_worn,
}

pub const NCOUNT: usize = C::COUNT as usize;

pub const RUNNING: u32 = 0;
pub const OK: u32 = 1;
pub const VIOLATION: u32 = 2;
pub const HARNESS: u32 = 3;

#[repr(C)]
pub struct Shm {
    pub status: u32,
    pub class_len: u32,
    pub class: [u8; 64],
    pub msg_len: u32,
    pub msg: [u8; 4096],
    pub counters: [u64; NCOUNT],
    pub log_hash: u64,
    pub sched_hash: u64,
    pub cpu_ms: u64,
    pub nontrivial: u32,
    pub trace_on: u32,
    pub trace_len: u64,
    pub tape_len: u64,
    pub tape_overflow: u32,
    pub scratch: [u64; SCRATCH],
    pub tables_used: u32,
    pub tables: [[u64; TABLE]; TABLES],
    pub trace: [u8; TRACE_CAP],
    pub tape: [(u32, u64); TAPE_CAP],
}

static mut SHM: *mut Shm = std::ptr::null_mut();

pub fn map_shared(len: usize) -> *mut c_void {
    let p = unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            len,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        )
    };
    assert!(p != libc::MAP_FAILED, "mmap of shared memory failed");
    p
}

pub fn create() {
    unsafe { SHM = map_shared(std::mem::size_of::<Shm>()).cast() };
}

pub fn get() -> &'static mut Shm {
    unsafe { &mut *SHM }
}

pub fn reset(trace: bool) {
    let s = get();
    s.status = RUNNING;
    s.class_len = 0;
    s.msg_len = 0;
    s.counters = [0; NCOUNT];
    s.log_hash = 0xcbf2_9ce4_8422_2325;
    s.sched_hash = 0xcbf2_9ce4_8422_2325;
    s.nontrivial = 0;
    s.trace_on = u32::from(trace);
    s.trace_len = 0;
    s.tape_len = 0;
    s.tape_overflow = 0;
    if s.tables_used > 0 {
        s.tables = [[0; TABLE]; TABLES];
        s.tables_used = 0;
    }
}

pub fn count(c: C) {
    get().counters[c as usize] += 1;
}

pub fn add(c: C, n: u64) {
    get().counters[c as usize] += n;
}

/// Adds an event to the event log (kept as a running hash, and as text when tracing).
pub fn log(kind: u64, a: u64, b: u64) {
    let s = get();
    let mut h = s.log_hash;
    for v in [kind, a, b] {
        h ^= v;
        h = h.wrapping_mul(0x0000_0100_0000_01b3) ^ (h >> 29);
    }
    s.log_hash = h;
}

pub fn log_sched(a: u64, b: u64) {
    let s = get();
    let mut h = s.sched_hash;
    for v in [a, b] {
        h ^= v;
        h = h.wrapping_mul(0x0000_0100_0000_01b3) ^ (h >> 29);
    }
    s.sched_hash = h;
}

pub struct Mark(u64, u64, [u64; NCOUNT]);

/// The logs and counters so far: what a side run adds to them is dropped again.
pub fn mark() -> Mark {
    let s = get();
    Mark(s.log_hash, s.sched_hash, s.counters)
}

pub fn restore(m: &Mark) {
    let s = get();
    (s.log_hash, s.sched_hash, s.counters) = (m.0, m.1, m.2);
}

struct Buf<'a>(&'a mut [u8], usize);

impl std::fmt::Write for Buf<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let n = s.len().min(self.0.len() - self.1);
        self.0[self.1..self.1 + n].copy_from_slice(&s.as_bytes()[..n]);
        self.1 += n;
        Ok(())
    }
}

static mut QUIET: bool = false;

/// No trace from this process: a side run.
pub fn quiet() {
    unsafe { QUIET = true };
}

pub fn tracing() -> bool {
    get().trace_on != 0 && unsafe { !QUIET }
}

pub fn trace(args: std::fmt::Arguments) {
    if !tracing() {
        return;
    }
    let s = get();
    let at = s.trace_len as usize;
    if at + 512 > TRACE_CAP {
        return;
    }
    let mut b = Buf(&mut s.trace, at);
    let _ = std::fmt::write(&mut b, args);
    let _ = std::fmt::Write::write_str(&mut b, "\n");
    s.trace_len = b.1 as u64;
}

#[macro_export]
macro_rules! trace {
    ($($arg:tt)*) => { $crate::shm::trace(format_args!($($arg)*)) };
}

fn finish(status: u32, class: &str, args: std::fmt::Arguments) -> ! {
    let s = get();
    if s.status == RUNNING {
        let n = class.len().min(64);
        s.class[..n].copy_from_slice(&class.as_bytes()[..n]);
        s.class_len = n as u32;
        let mut b = Buf(&mut s.msg, 0);
        let _ = std::fmt::write(&mut b, args);
        s.msg_len = b.1 as u32;
        s.status = status;
    }
    unsafe { libc::_exit(0) }
}

/// Ends the run: the property does not hold.
pub fn violation(class: &str, args: std::fmt::Arguments) -> ! {
    finish(VIOLATION, class, args)
}

/// Ends the run: the simulator itself cannot go on.
pub fn harness_error(args: std::fmt::Arguments) -> ! {
    finish(HARNESS, "harness", args)
}

#[macro_export]
macro_rules! violation {
    ($class:expr, $($arg:tt)*) => { $crate::shm::violation($class, format_args!($($arg)*)) };
}

pub fn ok() -> ! {
    finish(OK, "", format_args!(""))
}

impl Shm {
    pub fn class_str(&self) -> String {
        String::from_utf8_lossy(&self.class[..self.class_len as usize]).into_owned()
    }
    pub fn msg_str(&self) -> String {
        String::from_utf8_lossy(&self.msg[..self.msg_len as usize]).into_owned()
    }
    pub fn trace_str(&self) -> String {
        String::from_utf8_lossy(&self.trace[..self.trace_len as usize]).into_owned()
    }
}
