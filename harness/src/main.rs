//! Deterministic simulation of puzzle-utils. See /verif/DESIGN.md.

#![cfg_attr(not(feature = "engine"), allow(dead_code))]

mod alloc;
mod cells;
mod child;
mod dist;
mod driver;
mod gen;
mod model_cover;
mod model_maze;
mod model_nonogram;
mod model_sudoku;
mod ops;
mod rng;
mod scenario;
mod sched;
mod seams;
mod shm;
mod sites;
mod tape;

/// The same addresses in every execution, where the sandbox allows it.
fn fixed_addresses() {
    const NO_RANDOMIZE: libc::c_ulong = 0x0040000;
    unsafe {
        let old = libc::personality(0xffff_ffff);
        if old < 0 || old as libc::c_ulong & NO_RANDOMIZE != 0 {
            return;
        }
        if libc::personality(old as libc::c_ulong | NO_RANDOMIZE) < 0 {
            return;
        }
    }
    use std::os::unix::process::CommandExt;
    if let Ok(exe) = std::env::current_exe() {
        let _ = std::process::Command::new(exe)
            .args(std::env::args_os().skip(1))
            .exec();
    }
}

fn main() {
    // a backtrace in the message of a failed allocation costs more than a run
    std::env::set_var("RUST_BACKTRACE", "0");
    fixed_addresses();
    sites::load();
    let args: Vec<String> = std::env::args().collect();
    let args: Vec<&str> = args.iter().map(String::as_str).collect();
    let seed = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let code = match args[1..] {
        ["check", prop] => driver::check(prop, seed, thorough),
        ["replay", file] => driver::replay(file),
        ["trace", prop, index] => driver::show(prop, index.parse().unwrap_or(0), seed),
        ["selftest", prop, n] => driver::selftest(prop, n.parse().unwrap_or(10), seed),
        _ => {
            eprintln!("usage: puzzle-sim check PROP | replay FILE | trace PROP INDEX | selftest PROP N");
            2
        }
    };
    std::process::exit(code);
}
