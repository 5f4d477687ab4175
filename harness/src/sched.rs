//! Baton scheduler: the simulated callers are real threads, but exactly one runs at a time, and at
//! every yield point (allocation, release, entropy read, random word, lock wait, clock read) the
//! simulator decides who goes on.

use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering};

use crate::{
    sites,
    seams::{raw_futex_wait, raw_futex_wake},
    shm::{self, C},
    tape::{self, FAULT, PREEMPT, SCHED},
    trace, violation,
};

pub const MAX: usize = 16;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    Ready,
    Stalled(u32),
    Blocked(usize, bool),
    Done,
}

pub struct Sched {
    pub n: usize,
    pub cur: usize,
    st: [St; MAX],
    budget: u64,
    /// Upper bound of the steps between two scheduling decisions; 0: only when a caller finishes.
    pub grain: u64,
    pub stall_in: u64,
    pub steps: u64,
    pub time_us: u64,
    pub skew_us: u64,
    pub clock_jumps: bool,
    limit: u64,
    progress: u64,
    switches: u64,
    /// Mean number of steps between two windows in which a caller can lose the processor at any
    /// instruction; 0: none.
    pub preempt: u64,
    window_in: u64,
    traps: u64,
    /// Mean number of steps between two phases in which accesses to statics are yield points; 0: none.
    pub watch: u64,
    watch_in: u64,
    watch_left: u64,
    watched: u64,
}

static mut SCHED_STATE: Sched = Sched {
    n: 0,
    cur: 0,
    st: [St::Done; MAX],
    budget: u64::MAX,
    grain: 0,
    stall_in: 0,
    steps: 0,
    time_us: 1_700_000_000_000_000,
    skew_us: 0,
    clock_jumps: false,
    limit: 100_000_000,
    progress: 0,
    switches: 0,
    preempt: 0,
    window_in: 0,
    traps: 0,
    watch: 0,
    watch_in: 0,
    watch_left: 0,
    watched: 0,
};
static WORD: [AtomicU32; MAX] = [const { AtomicU32::new(0) }; MAX];
static MAIN: AtomicU32 = AtomicU32::new(0);
static EXIT: AtomicU32 = AtomicU32::new(0);

thread_local! {
    static ID: Cell<usize> = const { Cell::new(usize::MAX) };
    static ARMED: Cell<bool> = const { Cell::new(false) };
}

#[allow(static_mut_refs)]
pub fn get() -> &'static mut Sched {
    unsafe { &mut SCHED_STATE }
}

/// True while the calling thread executes code under test on behalf of a simulated caller.
pub fn armed() -> bool {
    ARMED.with(Cell::get)
}

pub fn set_armed(on: bool) {
    ARMED.with(|a| a.set(on));
    let id = caller();
    if id >= MAX {
        return;
    }
    if on {
        let s = get();
        if s.preempt > 0 && s.n > 1 && tape::chance(PREEMPT, 1, 4) {
            open_window(s, id);
        }
        // in case the window of the last call is still open
        seam_enter();
        seam_exit();
    } else {
        window(id).open = false;
    }
}

pub fn caller() -> usize {
    ID.with(Cell::get)
}

/// A stretch of instructions that a caller executes one by one (processor trap flag), so that it can
/// lose the processor after any of them.
struct Window {
    open: bool,
    /// > 0 while the caller is inside the simulator, whose own instructions do not count
    seam: u32,
    left: u64,
    last_ip: usize,
    /// the breakpoint this caller is stepping over
    over: Option<usize>,
}

/// The last one is for threads that are no caller.
static mut WINDOWS: [Window; MAX + 1] = [const {
    Window {
        open: false,
        seam: 0,
        left: 0,
        last_ip: 0,
        over: None,
    }
}; MAX + 1];

/// Watched accesses per run; each costs two traps.
const WATCHED: u64 = 3_000;

/// Single steps per run; they are slow.
const TRAPS: u64 = 12_000;
const TRAP_FLAG: i64 = 0x100;

fn window(id: usize) -> &'static mut Window {
    unsafe { &mut *(&raw mut WINDOWS[id]) }
}

fn window_length() -> u64 {
    // a single step costs some 15 us
    let k = if tape::chance(PREEMPT, 1, 16) {
        10 + tape::draw(PREEMPT, 4)
    } else {
        tape::draw(PREEMPT, 11)
    };
    1 + tape::draw(PREEMPT, 1 << k)
}

fn open_window(s: &mut Sched, id: usize) {
    let w = window(id);
    if !w.open && s.traps < TRAPS {
        w.open = true;
        w.left = window_length();
        shm::count(C::preempt_windows);
    }
}

/// Code under test enters the simulator.
pub fn seam_enter() {
    let id = caller();
    if id < MAX {
        window(id).seam += 1;
    }
}

/// Back to code under test; nothing of the simulator's state may be touched afterwards.
pub fn seam_exit() {
    let id = caller();
    if id < MAX {
        let w = window(id);
        w.seam -= 1;
        if w.seam == 0 && w.open {
            unsafe {
                std::arch::asm!(
                    "pushfq",
                    "or qword ptr [rsp], 0x100",
                    "popfq",
                )
            }
        }
    }
}

extern "C" {
    static __executable_start: u8;
    static etext: u8;
}

/// The single-step trap of a caller with an open window.
pub extern "C" fn on_step(ctx: *mut libc::c_void) {
    let regs = unsafe { &mut (*ctx.cast::<libc::ucontext_t>()).uc_mcontext.gregs };
    let id = caller().min(MAX);
    if let Some(site) = window(id).over.take() {
        sites::put_back(site);
    }
    if id >= MAX || !armed() || !window(id).open || window(id).seam > 0 {
        regs[libc::REG_EFL as usize] &= !TRAP_FLAG;
        return;
    }
    let (s, w) = (get(), window(id));
    let ip = regs[libc::REG_RIP as usize] as usize;
    let (start, end) = (&raw const __executable_start as usize, &raw const etext as usize);
    // shared libraries may hold locks of their own
    let inside = (start..end).contains(&ip);
    s.traps += 1;
    // repeated string instructions trap at each repetition
    if inside && ip != w.last_ip && w.left > 0 {
        w.left -= 1;
    }
    w.last_ip = ip;
    if s.traps > TRAPS || std::thread::panicking() {
        w.open = false;
    } else if w.left == 0 && inside {
        w.open = tape::draw(PREEMPT, 3) > 0;
        if w.open {
            w.left = window_length();
        }
        s.steps += 1;
        s.time_us += 1;
        shm::log(5, id as u64, (ip - start) as u64);
        s.st[id] = St::Stalled(2 + tape::draw(PREEMPT, 4) as u32);
        if let Some(to) = pick(s) {
            if to == id {
                s.st[id] = St::Ready;
            } else {
                shm::count(C::fault_instruction_preemption);
                trace!("    [step {}] caller {id} loses the processor at text+{:#x}", s.steps, ip - start);
                // whoever goes on does so for a while
                new_budget(s);
                hand_over(s, to);
            }
        }
    }
    if !w.open {
        regs[libc::REG_EFL as usize] &= !TRAP_FLAG;
    }
}

/// A breakpoint; false if it is none of ours.
pub extern "C" fn on_break(ctx: *mut libc::c_void) -> bool {
    let regs = unsafe { &mut (*ctx.cast::<libc::ucontext_t>()).uc_mcontext.gregs };
    let ip = regs[libc::REG_RIP as usize] as usize - 1;
    let Some(site) = sites::find(ip) else {
        return false;
    };
    let id = caller().min(MAX);
    let s = get();
    if id < MAX && armed() && window(id).seam == 0 && sites::are_set() && s.n > 1 {
        s.steps += 1;
        s.time_us += 1;
        s.watched += 1;
        s.watch_left = s.watch_left.saturating_sub(1);
        shm::log(6, id as u64, site as u64);
        if tape::chance(PREEMPT, 1, 3) {
            s.st[id] = St::Stalled(2 + tape::draw(PREEMPT, 4) as u32);
            match pick(s) {
                Some(to) if to != id => {
                    shm::count(C::fault_shared_access_preemption);
                    trace!("    [step {}] caller {id} loses the processor before a shared access", s.steps);
                    new_budget(s);
                    hand_over(s, to);
                }
                _ => s.st[id] = St::Ready,
            }
        }
        if tape::chance(PREEMPT, 1, 4) && s.traps < TRAPS {
            // what it has read may be out of date soon
            let w = window(id);
            w.open = true;
            let k = tape::draw(PREEMPT, 7);
            w.left = 1 + tape::draw(PREEMPT, 1 << k);
            shm::count(C::preempt_windows);
        }
        if s.watch_left == 0 || s.watched >= WATCHED {
            sites::clear();
        }
    }
    regs[libc::REG_RIP as usize] = ip as i64;
    if sites::are_set() {
        sites::lift(site);
        window(id).over = Some(site);
        regs[libc::REG_EFL as usize] |= TRAP_FLAG;
    } else if window(id).open {
        regs[libc::REG_EFL as usize] |= TRAP_FLAG;
    }
    true
}

/// Own signal stack: the one of the standard library is small.
fn signal_stack() {
    unsafe {
        let size = 128 << 10;
        let p = libc::mmap(
            std::ptr::null_mut(),
            size,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        if p == libc::MAP_FAILED {
            shm::harness_error(format_args!("no memory for a signal stack"));
        }
        let ss = libc::stack_t {
            ss_sp: p,
            ss_flags: 0,
            ss_size: size,
        };
        libc::sigaltstack(&ss, std::ptr::null_mut());
    }
}

fn wait(word: &AtomicU32) {
    while word.load(Ordering::Acquire) == 0 {
        raw_futex_wait(word, 0, None);
    }
    word.store(0, Ordering::Relaxed);
}

fn wake(word: &AtomicU32) {
    word.store(1, Ordering::Release);
    raw_futex_wake(word);
}

fn new_budget(s: &mut Sched) {
    s.budget = if s.grain == 0 || s.n < 2 {
        u64::MAX
    } else {
        if s.switches > 60_000 {
            // a long run: what switching at every step shows has been shown
            s.grain = s.grain.max(2048);
        }
        // mixes back-to-back switches with long undisturbed stretches
        match tape::draw(SCHED, 4) {
            0 => s.grain,
            1 => 1 + tape::draw(SCHED, s.grain),
            2 if s.switches <= 60_000 => 1 + tape::draw(SCHED, 8),
            _ => 1 + tape::draw(SCHED, s.grain * 8),
        }
    };
}

/// The next caller to run, or `None` if nobody can.
fn pick(s: &mut Sched) -> Option<usize> {
    for st in &mut s.st[..s.n] {
        if let St::Stalled(k) = st {
            *k -= 1;
            if *k == 0 {
                *st = St::Ready;
            }
        }
    }
    let mut ready = [0usize; MAX];
    let mut count = 0;
    for i in 0..s.n {
        if s.st[i] == St::Ready {
            ready[count] = i;
            count += 1;
        }
    }
    if count == 0 {
        // stalls end when nothing else can run
        for i in 0..s.n {
            if let St::Stalled(_) = s.st[i] {
                s.st[i] = St::Ready;
                ready[0] = i;
                count = 1;
                break;
            }
        }
    }
    if count == 0 {
        for i in 0..s.n {
            if let St::Blocked(_, true) = s.st[i] {
                s.st[i] = St::Ready;
                s.time_us += 1_000_000;
                ready[0] = i;
                count = 1;
                break;
            }
        }
    }
    match count {
        0 => None,
        1 => Some(ready[0]),
        _ => Some(ready[tape::draw(SCHED, count as u64) as usize]),
    }
}

fn hand_over(s: &mut Sched, to: usize) {
    let me = s.cur;
    if to == me {
        return;
    }
    s.switches += 1;
    shm::count(C::fault_thread_switch);
    shm::log(1, me as u64, to as u64);
    shm::log_sched(s.steps, to as u64);
    trace!("    [step {}] switch caller {me} -> {to}", s.steps);
    s.cur = to;
    // nothing of `s` may be touched between these two
    wake(&WORD[to]);
    wait(&WORD[me]);
}

/// A call has ended.
pub fn progress() {
    let s = get();
    s.progress = s.steps;
}

/// Every intercepted operation of code under test passes here.
pub fn yield_point() {
    step(false);
}

/// A caller that waits by yielding or sleeping: the others must get their turn.
pub fn give_way(us: u64) {
    get().time_us += us;
    step(true);
}

fn step(give_way: bool) {
    let s = get();
    if caller() != s.cur {
        return;
    }
    s.steps += 1;
    s.time_us += 1;
    if s.steps - s.progress > s.limit {
        violation!("no-progress", "no completion within {} simulated steps", s.limit);
    }
    if s.watch > 0 && s.n > 1 && sites::count() > 0 && !sites::are_set() && s.watched < WATCHED {
        if s.watch_in == 0 {
            s.watch_in = tape::draw(PREEMPT, 2 * s.watch);
            s.watch_left = 1 + tape::draw(PREEMPT, 300);
            sites::set();
        } else {
            s.watch_in -= 1;
        }
    }
    if s.preempt > 0 && s.n > 1 {
        if s.window_in == 0 {
            s.window_in = 1 + tape::draw(PREEMPT, 2 * s.preempt);
            open_window(s, s.cur);
        }
        s.window_in -= 1;
    }
    if give_way {
        s.st[s.cur] = St::Stalled(2);
        if let Some(to) = pick(s) {
            s.st[to] = St::Ready;
            hand_over(s, to);
        }
        return;
    }
    if s.budget == u64::MAX {
        return;
    }
    if s.budget > 0 {
        s.budget -= 1;
        return;
    }
    new_budget(s);
    if s.clock_jumps && tape::chance(FAULT, 1, 8) {
        let by = tape::draw(FAULT, 7_200_000_000);
        s.skew_us = by;
        shm::count(C::fault_clock_jump);
        suspend(s);
    }
    if s.stall_in > 0 && tape::chance(FAULT, 1, s.stall_in) {
        let k = 2 + tape::draw(FAULT, 60) as u32;
        s.st[s.cur] = St::Stalled(k);
        shm::count(C::fault_stall);
        shm::log(2, s.cur as u64, u64::from(k));
        trace!("    [step {}] caller {} stalls for {k} switches", s.steps, s.cur);
    }
    if let Some(to) = pick(s) {
        hand_over(s, to);
    }
}

/// A lock wait of a simulated caller. Returns the result of the futex call.
pub fn futex_wait(addr: usize, value: u32, timed: bool) -> i64 {
    let s = get();
    let now = unsafe { (*(addr as *const AtomicU32)).load(Ordering::SeqCst) };
    if now != value {
        return -i64::from(libc::EAGAIN);
    }
    shm::count(C::fault_futex_wait);
    s.steps += 1;
    if s.steps - s.progress > s.limit {
        violation!("no-progress", "no completion within {} simulated steps", s.limit);
    }
    let me = s.cur;
    s.st[me] = St::Blocked(addr, timed);
    match pick(s) {
        Some(to) => {
            let timed_out = to == me;
            hand_over(s, to);
            if timed_out {
                return -i64::from(libc::ETIMEDOUT);
            }
            0
        }
        None => {
            // perhaps a thread outside the simulation holds what is waited for
            s.st[me] = St::Ready;
            let r = raw_futex_wait(unsafe { &*(addr as *const AtomicU32) }, value, Some(10));
            if r == -i64::from(libc::ETIMEDOUT) {
                violation!("deadlock", "caller {me} waits for a lock nobody will release");
            }
            0
        }
    }
}

pub fn futex_wake(addr: usize, n: u32) -> i64 {
    let s = get();
    let mut woken = 0;
    for i in 0..s.n {
        if let St::Blocked(a, _) = s.st[i] {
            if a == addr && woken < n {
                s.st[i] = St::Ready;
                woken += 1;
            }
        }
    }
    let more = raw_futex_wake(unsafe { &*(addr as *const AtomicU32) });
    i64::from(woken) + more.max(0)
}

/// Runs `body(caller)` on `n` simulated callers, `rounds` times; `between(round)` runs on the main
/// thread after each round, when no caller is inside a call.
pub fn run(
    n: usize,
    rounds: usize,
    stack: usize,
    body: impl Fn(usize, usize) + Sync,
    mut between: impl FnMut(usize),
) {
    assert!(n <= MAX);
    let s = get();
    s.n = n;
    s.steps = 0;
    s.progress = 0;
    s.window_in = s.preempt;
    EXIT.store(0, Ordering::SeqCst);
    std::thread::scope(|scope| {
        let mut handles = Vec::new();
        for id in 0..n {
            let body = &body;
            handles.push(
                std::thread::Builder::new()
                    .stack_size(stack)
                    .spawn_scoped(scope, move || {
                        signal_stack();
                        let mut round = 0;
                        loop {
                            wait(&WORD[id]);
                            if EXIT.load(Ordering::SeqCst) != 0 {
                                return;
                            }
                            ID.with(|i| i.set(id));
                            body(id, round);
                            ID.with(|i| i.set(usize::MAX));
                            round += 1;
                            done(id);
                        }
                    })
                    .unwrap_or_else(|e| shm::harness_error(format_args!("spawn: {e}"))),
            );
        }
        for round in 0..rounds {
            let s = get();
            for i in 0..n {
                s.st[i] = St::Ready;
            }
            new_budget(s);
            let first = pick(s).unwrap_or(0);
            s.cur = first;
            wake(&WORD[first]);
            wait(&MAIN);
            between(round);
        }
        EXIT.store(1, Ordering::SeqCst);
        // threads end one after another, so that their destructors run in a fixed order
        for (id, handle) in handles.into_iter().enumerate() {
            wake(&WORD[id]);
            if handle.join().is_err() {
                shm::harness_error(format_args!("a simulated caller panicked outside a call"));
            }
        }
    });
    let s = get();
    shm::add(C::steps, s.steps);
    shm::add(C::sim_time_us, s.steps);
}

fn done(id: usize) {
    let s = get();
    s.st[id] = St::Done;
    match pick(s) {
        Some(to) => {
            shm::log(3, id as u64, to as u64);
            shm::log_sched(s.steps, to as u64);
            new_budget(s);
            s.cur = to;
            wake(&WORD[to]);
        }
        None => {
            if s.st[..s.n].iter().any(|st| matches!(st, St::Blocked(..))) {
                violation!("deadlock", "all callers left wait for a lock nobody will release");
            }
            shm::log(4, id as u64, 0);
            wake(&MAIN);
        }
    }
}

/// The whole process is suspended for up to a few hours: every clock moves on.
fn suspend(s: &mut Sched) {
    let most = [10_000, 1_000_000, 100_000_000, 10_000_000_000][tape::draw(FAULT, 4) as usize];
    s.time_us += tape::draw(FAULT, most);
    shm::count(C::fault_suspended);
}

/// Simulated time. The wall clock may be set, and between two reads the process may be suspended.
pub fn clock_us(wall: bool) -> u64 {
    let s = get();
    if s.clock_jumps && tape::chance(FAULT, 1, 8) {
        suspend(s);
    }
    s.time_us + if wall { s.skew_us } else { 0 }
}
