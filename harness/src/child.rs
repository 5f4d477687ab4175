//! The process of one simulated run.

use crate::{
    alloc, ops, scenario, sched,
    shm::{self, C},
    tape, violation,
};

extern "C" fn on_fault(sig: i32, info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    // 2: TRAP_TRACE, a single step
    if sig == libc::SIGTRAP && unsafe { (*info).si_code } == 2 {
        return sched::on_step(ctx);
    }
    // 128: SI_KERNEL, a breakpoint
    if sig == libc::SIGTRAP && unsafe { (*info).si_code } == 128 && sched::on_break(ctx) {
        return;
    }
    sched::set_armed(false);
    let addr = unsafe { (*info).si_addr() } as usize;
    if sig == libc::SIGSEGV || sig == libc::SIGBUS {
        let sp = unsafe {
            (*ctx.cast::<libc::ucontext_t>()).uc_mcontext.gregs[libc::REG_RSP as usize] as usize
        };
        // large frames are probed page by page below the stack pointer
        if addr.abs_diff(sp) < 256 << 10 {
            violation!("stack-overflow", "the stack of a caller is exhausted");
        }
        alloc::describe(addr, &mut |what| {
            violation!("invalid-memory-access", "{what}");
        });
    }
    violation!("crash", "signal {sig}");
}

extern "C" fn on_abort(_: i32) {
    sched::set_armed(false);
    if alloc::refused() > 0 {
        shm::count(C::probe_oom_abort);
        shm::log(50, 0, 0);
        shm::ok();
    }
    violation!("abort", "the process was aborted");
}

extern "C" fn on_cpu(_: i32) {
    violation!("hang", "no completion within the limit of processor time");
}

extern "C" fn on_alarm(_: i32) {
    violation!("stuck", "no completion within the limit of time");
}

fn handle(sig: i32, handler: usize, info: bool) {
    unsafe {
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = handler;
        a.sa_flags = libc::SA_ONSTACK | if info { libc::SA_SIGINFO } else { 0 };
        libc::sigaction(sig, &a, std::ptr::null_mut());
    }
}

fn discard_stderr() {
    unsafe {
        let fd = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        if fd >= 0 {
            libc::dup2(fd, 2);
            libc::dup2(fd, 1);
            libc::close(fd);
        }
    }
}

/// Executes one run in this process and ends it.
pub fn main(prop: &str, seed: u64, replay: Option<&[Vec<u64>]>) -> ! {
    discard_stderr();
    std::panic::set_hook(Box::new(|info| {
        if !sched::armed() {
            shm::harness_error(format_args!("the simulator panicked: {info}"));
        }
    }));
    for sig in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGTRAP] {
        handle(sig, on_fault as *const () as usize, true);
    }
    handle(libc::SIGABRT, on_abort as *const () as usize, false);
    handle(libc::SIGXCPU, on_cpu as *const () as usize, false);
    handle(libc::SIGALRM, on_alarm as *const () as usize, false);
    let cpu = if prop == "C05" { 90 } else { 40 };
    let limit = libc::rlimit {
        rlim_cur: cpu,
        rlim_max: cpu + 20,
    };
    unsafe {
        libc::setrlimit(libc::RLIMIT_CPU, &limit);
        libc::alarm(if prop == "C05" { 300 } else { 150 });
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    rand::vp_sim::install(ops::word);
    tape::start(seed, replay);
    scenario::run_property(prop);
    shm::ok()
}
