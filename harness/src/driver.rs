//! Search over seeds, minimisation, replay files, evidence.

use std::{
    fmt::Write as _,
    sync::atomic::{AtomicU32, AtomicU64, Ordering::SeqCst},
    time::{Duration, Instant},
};

use crate::{
    child,
    rng::mix,
    shm::{self, COUNTER_NAMES, NCOUNT},
    tape::STREAMS,
};

const SET: usize = 1 << 22;
const KEEP: usize = 64;

struct Totals {
    next: AtomicU64,
    stop: AtomicU32,
    best: AtomicU64,
    broken: AtomicU64,
    runs: AtomicU64,
    judged: AtomicU64,
    nontrivial: AtomicU64,
    distinct: AtomicU64,
    distinct_nontrivial: AtomicU64,
    schedules: AtomicU64,
    violations: AtomicU64,
    longest: AtomicU64,
    tables: [[AtomicU64; shm::TABLE]; shm::TABLES],
    counters: [AtomicU64; NCOUNT],
    hashes: [AtomicU64; KEEP],
    set: [AtomicU64; SET],
    sched_set: [AtomicU64; SET],
}

fn insert(set: &[AtomicU64; SET], hash: u64) -> bool {
    let hash = hash | 1;
    let mut i = hash as usize >> 3;
    for _ in 0..64 {
        i = (i + 1) % SET;
        match set[i].compare_exchange(0, hash, SeqCst, SeqCst) {
            Ok(_) => return true,
            Err(h) if h == hash => return false,
            Err(_) => (),
        }
    }
    false
}

#[derive(Clone, PartialEq, Debug)]
pub struct Verdict {
    pub status: u32,
    pub class: String,
    pub msg: String,
}

/// Runs one seed or tape in a process of its own.
pub fn simulate(prop: &str, seed: u64, replay: Option<&[Vec<u64>]>, trace: bool) -> Verdict {
    shm::reset(trace);
    let pid = unsafe { libc::fork() };
    if pid < 0 {
        return Verdict {
            status: shm::HARNESS,
            class: "harness".into(),
            msg: "fork failed".into(),
        };
    }
    if pid == 0 {
        child::main(prop, seed, replay);
    }
    let mut status = 0;
    let mut used: libc::rusage = unsafe { std::mem::zeroed() };
    while unsafe { libc::wait4(pid, &mut status, 0, &mut used) } < 0 {}
    let s = shm::get();
    let ms = |t: libc::timeval| t.tv_sec as u64 * 1000 + t.tv_usec as u64 / 1000;
    s.cpu_ms = ms(used.ru_utime) + ms(used.ru_stime);
    if s.status == shm::RUNNING {
        if libc::WIFEXITED(status) {
            return Verdict {
                status: shm::VIOLATION,
                class: "process-exit".into(),
                msg: format!("the process ended with code {}", libc::WEXITSTATUS(status)),
            };
        }
        return Verdict {
            status: shm::HARNESS,
            class: "harness".into(),
            msg: format!("the run was killed (status {status})"),
        };
    }
    Verdict {
        status: s.status,
        class: s.class_str(),
        msg: s.msg_str(),
    }
}

pub fn run_seed(prop: &str, seed: u64, index: u64) -> u64 {
    let p = prop.bytes().fold(0u64, |a, b| a * 256 + u64::from(b));
    mix(mix(seed, p), index)
}

/// Runs per tier; the time limit only matters on slow machines.
fn budget(prop: &str, thorough: bool) -> (u64, Duration) {
    let quick = match prop {
        "C01" | "C02" => 24_000,
        "C03" => 10_000,
        "C04" => 12_000,
        "C05" => 600,
        "C06" => 6_000,
        "C11" if !cfg!(feature = "engine") => 6_000,
        "C07" => 2_500,
        "C08" => 16_000,
        "C09" => 14_000,
        "C10" => 16_000,
        _ => 16_000,
    };
    if let Ok(n) = std::env::var("VP_RUNS") {
        return (n.parse().unwrap_or(quick), Duration::from_secs(3600));
    }
    if thorough {
        (quick * 40, Duration::from_secs(3600))
    } else {
        (quick, Duration::from_secs(300))
    }
}

fn worker(prop: &str, seed: u64, runs: u64, t: &Totals, deadline: Instant) {
    shm::create();
    loop {
        if t.stop.load(SeqCst) != 0 || Instant::now() > deadline {
            return;
        }
        let i = t.next.fetch_add(1, SeqCst);
        if i >= runs {
            return;
        }
        let s = run_seed(prop, seed, i);
        let mut v = simulate(prop, s, None, false);
        for _ in 0..2 {
            if v.status == shm::HARNESS || v.class == "stuck" || v.class == "process-exit" {
                v = simulate(prop, s, None, false);
            }
        }
        let m = shm::get();
        t.runs.fetch_add(1, SeqCst);
        // with the run's index, to find it again
        t.longest.fetch_max(m.cpu_ms << 32 | i, SeqCst);
        for (a, b) in t.counters.iter().zip(&m.counters) {
            if *b > 0 {
                a.fetch_add(*b, SeqCst);
            }
        }
        if m.tables_used > 0 {
            for (a, b) in t.tables.iter().flatten().zip(m.tables.iter().flatten()) {
                if *b > 0 {
                    a.fetch_add(*b, SeqCst);
                }
            }
        }
        if (i as usize) < KEEP {
            t.hashes[i as usize].store(m.log_hash, SeqCst);
        }
        let new = insert(&t.set, m.log_hash);
        t.distinct.fetch_add(u64::from(new), SeqCst);
        if m.nontrivial > 0 {
            t.judged.fetch_add(u64::from(m.nontrivial), SeqCst);
            t.nontrivial.fetch_add(1, SeqCst);
            t.distinct_nontrivial.fetch_add(u64::from(new), SeqCst);
        }
        if insert(&t.sched_set, m.sched_hash) {
            t.schedules.fetch_add(1, SeqCst);
        }
        match v.status {
            shm::OK => (),
            shm::VIOLATION => {
                t.violations.fetch_add(1, SeqCst);
                t.best.fetch_min(i, SeqCst);
                t.stop.store(1, SeqCst);
            }
            _ => {
                eprintln!("harness error in run {i} (seed {s}): {}", v.msg);
                t.broken.fetch_add(1, SeqCst);
                t.stop.store(1, SeqCst);
            }
        }
    }
}

fn current_tape() -> Vec<Vec<u64>> {
    let s = shm::get();
    let mut streams = vec![Vec::new(); STREAMS];
    for (stream, v) in &s.tape[..s.tape_len as usize] {
        streams[*stream as usize].push(*v);
    }
    streams
}

fn weight(t: &[Vec<u64>]) -> (usize, u128) {
    (
        t.iter().map(Vec::len).sum(),
        t.iter().flatten().map(|v| u128::from(*v)).sum(),
    )
}

/// Makes the tape smaller while it still shows a violation of the same class.
fn minimise(prop: &str, seed: u64, class: &str, tape: Vec<Vec<u64>>) -> (Vec<Vec<u64>>, usize) {
    let start = Instant::now();
    let expensive = matches!(class, "hang" | "stuck" | "no-progress") || prop == "C05";
    let limit = Duration::from_secs(if expensive { 40 } else { 60 });
    let mut best = tape;
    let mut tries = 0;
    let mut attempt = |t: &mut Vec<Vec<u64>>, best: &mut Vec<Vec<u64>>| -> bool {
        if start.elapsed() > limit || tries >= 4000 {
            return false;
        }
        tries += 1;
        let v = simulate(prop, seed, Some(t), false);
        if v.status == shm::VIOLATION && v.class == class {
            // what was drawn is canonical: unused values are gone, clamped ones corrected
            if shm::get().tape_overflow == 0 {
                let c = current_tape();
                if weight(&c) < weight(best) {
                    let hash = shm::get().log_hash;
                    if c != *t {
                        let w = simulate(prop, seed, Some(&c), false);
                        if w != v || shm::get().log_hash != hash {
                            return false;
                        }
                    }
                    *best = c;
                    return true;
                }
            }
        }
        false
    };
    // a first attempt also drops what is not needed at all
    let mut progress = true;
    while progress && start.elapsed() < limit {
        progress = false;
        for s in 0..STREAMS {
            let mut cut = 0;
            while cut < best[s].len() {
                let mut t = best.clone();
                t[s].truncate(cut);
                if attempt(&mut t, &mut best) {
                    progress = true;
                    break;
                }
                cut = if cut == 0 { 1 } else { cut * 2 };
            }
            let mut block = best[s].len().div_ceil(2);
            while block > 0 && start.elapsed() < limit {
                let mut at = 0;
                while at < best[s].len() && start.elapsed() < limit {
                    let end = (at + block).min(best[s].len());
                    let mut t = best.clone();
                    t[s].drain(at..end);
                    if attempt(&mut t, &mut best) {
                        progress = true;
                        continue;
                    }
                    if best[s][at..end].iter().any(|v| *v != 0) {
                        let mut t = best.clone();
                        t[s][at..end].fill(0);
                        if attempt(&mut t, &mut best) {
                            progress = true;
                        }
                    }
                    at = end;
                }
                if block == 1 || best[s].len() > 4000 && block < best[s].len() / 64 {
                    break;
                }
                block /= 2;
            }
            if best[s].len() <= 400 && (s < crate::tape::ENTROPY || s == crate::tape::PREEMPT) {
                for i in 0..best[s].len() {
                    loop {
                        if i >= best[s].len() || best[s][i] < 2 {
                            break;
                        }
                        let v = best[s][i];
                        let mut t = best.clone();
                        t[s][i] = v / 2;
                        let half = attempt(&mut t, &mut best);
                        if half {
                            progress = true;
                            continue;
                        }
                        let mut t = best.clone();
                        t[s][i] = v - 1;
                        if v > 64 || !attempt(&mut t, &mut best) {
                            break;
                        }
                        progress = true;
                    }
                }
            }
        }
    }
    (best, tries)
}

pub struct Replay {
    pub prop: String,
    pub seed: u64,
    pub class: String,
    pub msg: String,
    pub log_hash: u64,
    pub tape: Option<Vec<Vec<u64>>>,
    /// a violation shown only by the sums over this many runs of the seed
    pub runs: Option<u64>,
}

fn write_replay(path: &str, r: &Replay, trace: &str) -> std::io::Result<()> {
    let mut s = String::from("puzzle-sim replay 1\n");
    let _ = writeln!(s, "property {}", r.prop);
    let _ = writeln!(s, "seed {}", r.seed);
    let _ = writeln!(s, "class {}", r.class);
    let _ = writeln!(s, "message {}", r.msg.replace('\n', " "));
    let _ = writeln!(s, "log_hash {:#x}", r.log_hash);
    match &r.tape {
        None => s.push_str("tape none (the seed decides everything)\n"),
        Some(t) => {
            s.push_str("tape recorded\n");
            for (i, v) in t.iter().enumerate().filter(|(_, v)| !v.is_empty()) {
                let _ = write!(s, "stream {i}");
                for x in v {
                    let _ = write!(s, " {x}");
                }
                s.push('\n');
            }
        }
    }
    s.push_str("trace:\n");
    s.push_str(trace);
    std::fs::write(path, s)
}

pub fn read_replay(path: &str) -> Result<Replay, String> {
    let text = std::fs::read_to_string(path).map_err(|e| format!("{path}: {e}"))?;
    let mut r = Replay {
        prop: String::new(),
        seed: 0,
        class: String::new(),
        msg: String::new(),
        log_hash: 0,
        tape: None,
        runs: None,
    };
    for line in text.lines() {
        if line == "trace:" {
            break;
        }
        let (key, rest) = line.split_once(' ').unwrap_or((line, ""));
        match key {
            "property" => r.prop = rest.into(),
            "seed" => r.seed = rest.parse().map_err(|_| "bad seed")?,
            "runs" => r.runs = Some(rest.parse().map_err(|_| "bad number of runs")?),
            "class" => r.class = rest.into(),
            "message" => r.msg = rest.into(),
            "log_hash" => {
                r.log_hash =
                    u64::from_str_radix(rest.trim_start_matches("0x"), 16).map_err(|_| "bad hash")?;
            }
            "tape" => {
                if rest == "recorded" {
                    r.tape = Some(vec![Vec::new(); STREAMS]);
                }
            }
            "stream" => {
                let mut n = rest.split(' ').map(str::parse::<u64>);
                let i = n.next().ok_or("bad stream")?.map_err(|_| "bad stream")? as usize;
                let v = n.collect::<Result<Vec<_>, _>>().map_err(|_| "bad value")?;
                if let (Some(t), true) = (&mut r.tape, i < STREAMS) {
                    t[i] = v;
                }
            }
            _ => (),
        }
    }
    if r.prop.is_empty() {
        return Err(format!("{path} is no replay file"));
    }
    Ok(r)
}

/// `replay FILE`: exit 1 and the VIOLATION line if it shows the recorded violation again.
pub fn replay(path: &str) -> i32 {
    let r = match read_replay(path) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("{e}");
            return 2;
        }
    };
    if let Some(n) = r.runs {
        let (t, _) = search(&r.prop, r.seed, n, Instant::now() + Duration::from_secs(7200));
        return match overall(&r.prop, t) {
            Some(m) => {
                println!("{m} ({})", if m == r.msg { "identical" } else { "differs" });
                println!("VIOLATION property={} replay={path}", r.prop);
                1
            }
            None => {
                println!("not reproduced");
                0
            }
        };
    }
    shm::create();
    let v = simulate(&r.prop, r.seed, r.tape.as_deref(), true);
    let s = shm::get();
    print!("{}", s.trace_str());
    if v.status == shm::VIOLATION && v.class == r.class {
        let exact = r.log_hash == s.log_hash;
        println!(
            "{} (class {}, event log {})",
            v.msg,
            v.class,
            if exact { "identical" } else { "differs" }
        );
        println!("VIOLATION property={} replay={path}", r.prop);
        1
    } else if v.status == shm::HARNESS {
        eprintln!("{}", v.msg);
        2
    } else {
        println!("not reproduced: class {:?} {}", v.class, v.msg);
        0
    }
}

/// `trace PROP INDEX`: what one run does.
pub fn show(prop: &str, index: u64, seed: u64) -> i32 {
    shm::create();
    let start = Instant::now();
    let v = simulate(prop, run_seed(prop, seed, index), None, true);
    let s = shm::get();
    print!("{}", s.trace_str());
    println!("{v:?} {:?} tape {}", start.elapsed(), s.tape_len);
    for (n, c) in COUNTER_NAMES.iter().zip(&s.counters) {
        if *c > 0 {
            print!("{n}={c} ");
        }
    }
    println!();
    0
}

/// `selftest PROP N`: every run twice; equal logs, schedules, counters and tapes.
pub fn selftest(prop: &str, n: u64, seed: u64) -> i32 {
    shm::create();
    let mut bad = 0;
    for i in 0..n {
        let s = run_seed(prop, seed, i);
        let state = || {
            let m = shm::get();
            (m.log_hash, m.sched_hash, m.counters, m.tape_len, m.status)
        };
        simulate(prop, s, None, false);
        let a = state();
        let tape = (shm::get().tape_overflow == 0).then(current_tape);
        simulate(prop, s, None, false);
        if a != state() {
            println!("run {i}: two executions of seed {s} differ");
            bad += 1;
        }
        if let Some(t) = tape {
            simulate(prop, s, Some(&t), false);
            if a != state() {
                let b = state();
                let differing: Vec<&str> = COUNTER_NAMES
                    .iter()
                    .enumerate()
                    .filter(|(k, _)| a.2[*k] != b.2[*k])
                    .map(|(_, n)| *n)
                    .collect();
                println!(
                    "run {i}: replaying the tape of seed {s} differs (log {}, schedule {}, tape {}, status {}, {differing:?})",
                    a.0 != b.0,
                    a.1 != b.1,
                    a.3 != b.3,
                    a.4 != b.4
                );
                bad += 1;
            }
        }
    }
    println!("selftest {prop}: {n} runs, {bad} differences");
    i32::from(bad > 0) * 2
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn rule(prop: &str) -> &'static str {
    match prop {
        "C05" => "One run = one seeded simulation of thousands of maze generations (batches on 1-2 simulated threads, a larger size against a second generator, or 400 fresh processes). Non-trivial: the frequencies of at least one batch were judged. Distinct: event-log hash, which covers every maze produced.",
        _ => "One run = one seeded simulation: calls, memory policy, schedule, faults and random words all drawn from the run's seed. Non-trivial: at least one call of the kind the property is about was judged by its oracle. Distinct: hash of the event log (calls, results, context switches, entropy reads, refusals, stalls).",
    }
}

/// Runs `0..runs` of a seed on all processors.
fn search(prop: &str, seed: u64, runs: u64, deadline: Instant) -> (&'static Totals, usize) {
    let t: &Totals = unsafe { &*shm::map_shared(std::mem::size_of::<Totals>()).cast() };
    t.best.store(u64::MAX, SeqCst);
    let jobs = std::env::var("VP_JOBS")
        .ok()
        .and_then(|j| j.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map_or(4, usize::from));
    let mut pids = Vec::new();
    for _ in 0..jobs {
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
            worker(prop, seed, runs, t, deadline);
            unsafe { libc::_exit(0) };
        }
        pids.push(pid);
    }
    let mut lost = 0;
    for pid in pids {
        let mut status = 0;
        while unsafe { libc::waitpid(pid, &mut status, 0) } < 0 {}
        if !libc::WIFEXITED(status) || libc::WEXITSTATUS(status) != 0 {
            lost += 1;
        }
    }
    (t, lost)
}

/// What only the sums over all runs show.
fn overall(prop: &str, t: &Totals) -> Option<String> {
    if prop != "C05" || t.violations.load(SeqCst) > 0 {
        return None;
    }
    crate::dist::judge_sums(|i, j| t.tables[i][j].load(SeqCst))
}

#[allow(clippy::too_many_lines)]
pub fn check(prop: &str, seed: u64, thorough: bool) -> i32 {
    let started = Instant::now();
    let (runs, limit) = budget(prop, thorough);
    let (t, lost) = search(prop, seed, runs, started + limit);
    let search_s = started.elapsed().as_secs_f64();
    shm::create();
    let get = |a: &AtomicU64| a.load(SeqCst);

    // the first runs again: same seed, same event log
    let again = get(&t.runs).min(if prop == "C05" { 2 } else { 12 });
    let mut differing = 0;
    if get(&t.violations) == 0 && get(&t.broken) == 0 {
        for i in 0..again {
            simulate(prop, run_seed(prop, seed, i), None, false);
            if shm::get().log_hash != t.hashes[i as usize].load(SeqCst) {
                differing += 1;
            }
        }
    }
    let mut samples = Vec::new();
    if get(&t.violations) == 0 {
        for i in 0..2 {
            let s = run_seed(prop, seed, i);
            simulate(prop, s, None, true);
            let mut text = shm::get().trace_str();
            let mut n = text.len().min(1800);
            while !text.is_char_boundary(n) {
                n -= 1;
            }
            text.truncate(n);
            samples.push(format!("run {i}, seed {s}:\n{text}"));
        }
    }

    let mut code = 0;
    let mut found = String::from("null");
    if get(&t.violations) > 0 {
        let index = get(&t.best);
        let s = run_seed(prop, seed, index);
        let mut v = simulate(prop, s, None, true);
        for _ in 0..4 {
            if v.status != shm::VIOLATION {
                v = simulate(prop, s, None, true);
            }
        }
        let dir = std::env::var("VP_REPLAYS").unwrap_or_else(|_| "/verif/replays".into());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{prop}-{seed}-{index}.replay");
        println!("run {index} (seed {s}): [{}] {}", v.class, v.msg);
        let mut tries = 0;
        let mut tape = None;
        if v.status == shm::VIOLATION && shm::get().tape_overflow == 0 && v.class != "process-exit" {
            let full = current_tape();
            let w = simulate(prop, s, Some(&full), false);
            if w.status == shm::VIOLATION && w.class == v.class {
                let before = weight(&full).0;
                let (small, n) = minimise(prop, s, &v.class, full);
                println!("minimised from {before} to {} choices in {n} tries", weight(&small).0);
                tries = n;
                tape = Some(small);
            }
        }
        let last = simulate(prop, s, tape.as_deref(), true);
        let r = Replay {
            prop: prop.into(),
            seed: s,
            class: last.class.clone(),
            msg: last.msg.clone(),
            log_hash: shm::get().log_hash,
            tape,
            runs: None,
        };
        if let Err(e) = write_replay(&path, &r, &shm::get().trace_str()) {
            eprintln!("{path}: {e}");
        }
        let w = simulate(prop, s, r.tape.as_deref(), false);
        let confirmed = w.status == shm::VIOLATION
            && w.class == last.class
            && shm::get().log_hash == r.log_hash;
        println!("[{}] {}", last.class, last.msg);
        println!(
            "replaying {}: {}",
            path,
            if confirmed { "identical" } else { "NOT identical" }
        );
        println!("VIOLATION property={prop} replay={path}");
        found = format!(
            "{{\"run\": {index}, \"seed\": {s}, \"class\": {}, \"message\": {}, \"replay\": {}, \"replay_identical\": {confirmed}, \"minimisation_tries\": {tries}}}",
            esc(&last.class),
            esc(&last.msg),
            esc(&path)
        );
        code = 1;
    } else if let Some(m) = overall(prop, t) {
        // all runs up to the last one begun were completed
        let done = get(&t.next).min(runs);
        let dir = std::env::var("VP_REPLAYS").unwrap_or_else(|_| "/verif/replays".into());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{prop}-{seed}-all.replay");
        let text = format!(
            "puzzle-sim replay 1\nproperty {prop}\nseed {seed}\nclass biased\nmessage {m}\nruns {done}\ntrace:\nthe frequencies summed over runs 0..{done} of seed {seed}\n"
        );
        if let Err(e) = std::fs::write(&path, text) {
            eprintln!("{path}: {e}");
        }
        println!("[biased] {m}");
        println!("VIOLATION property={prop} replay={path}");
        found = format!(
            "{{\"runs\": {done}, \"class\": \"biased\", \"message\": {}, \"replay\": {}}}",
            esc(&m),
            esc(&path)
        );
        code = 1;
    } else if get(&t.broken) > 0 || lost > 0 {
        eprintln!("{} harness errors, {lost} workers lost", get(&t.broken));
        code = 2;
    }

    let mut faults = String::new();
    let mut probes = String::new();
    let mut work = String::new();
    for (n, c) in COUNTER_NAMES.iter().zip(&t.counters) {
        if *n == "sim_time_us" {
            continue; // given as simulated_seconds
        }
        let line = format!("\"{n}\": {}", get(c));
        let to = if n.starts_with("fault_") || n.starts_with("mem_") {
            &mut faults
        } else if n.starts_with("probe_") {
            if get(c) == 0 {
                continue;
            }
            &mut probes
        } else {
            &mut work
        };
        if !to.is_empty() {
            to.push_str(", ");
        }
        to.push_str(&line);
    }
    let runs_done = get(&t.runs);
    let wall = started.elapsed().as_secs_f64();
    let per_hour = runs_done as f64 / search_s.max(0.001) * 3600.0;
    let sim = get(&t.counters[shm::C::sim_time_us as usize]) as f64 / 1e6;
    let json = format!(
        "{{\n\"property\": \"{prop}\",\n\"tier\": \"{}\",\n\"seed\": {seed},\n\"level\": \"exploration\",\n\"coverage\": {{\n\
         \"evaluations\": {runs_done},\n\"distinct_nontrivial\": {},\n\"rule\": {},\n\"samples\": [{}],\n\
         \"judged_calls\": {},\n\"nontrivial_runs\": {},\n\"distinct_event_logs\": {},\n\"distinct_interleavings\": {},\n\
         \"runs_planned\": {runs},\n\"static_access_sites\": {}, \"engine_hook_built\": {}, \"longest_run_cpu_ms\": {},\n\"longest_run\": {},\n\"runs_per_hour_one_seed_each\": {per_hour:.0},\n\"simulated_seconds\": {sim:.3},\n\
         \"faults\": {{{faults}}},\n\"probes\": {{{probes}}},\n\"work\": {{{work}}},\n\
         \"determinism\": {{\"runs_repeated\": {again}, \"logs_that_differed\": {differing}}},\n\
         \"real_components\": [\"all of puzzle-utils, built from /repo/src\", \"rand 0.8.5 selection algorithms (and ChaCha12 reseeding generator where fault_production_rng counts)\", \"image, imageproc, ab_glyph, png\", \"std threads, panics, thread-locals\"],\n\
         \"stubs\": [\"global allocator (simulated heap)\", \"getrandom\", \"futex waits of code under test\", \"clock_gettime of code under test\", \"word source below rand::ThreadRng, except in production mode\"],\n\
         \"violation\": {found}\n}},\n\
         \"assumptions\": [\"Seeded sampling of schedules, faults and inputs: what was not drawn was not seen.\", \"Threads switch at allocations, releases, entropy reads, random words, lock waits, sleeps and clock reads; between other instructions of the main executable only inside the windows counted as preempt_windows (single-stepped, at most 12000 steps per run) and, in half the runs with several callers, before accesses to statics of the code under test (static_access_sites of them in this build; shared_accesses counts those met).\"],\n\
         \"wall_s\": {wall:.2},\n\"violations\": {}\n}}\n",
        if thorough { "thorough" } else { "quick" },
        get(&t.distinct_nontrivial),
        esc(rule(prop)),
        samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "),
        get(&t.judged),
        get(&t.nontrivial),
        get(&t.distinct),
        get(&t.schedules),
        crate::sites::count(),
        cfg!(feature = "engine"),
        get(&t.longest) >> 32,
        get(&t.longest) & 0xffff_ffff,
        get(&t.violations),
    );
    let dir = std::env::var("VP_EVIDENCE").unwrap_or_else(|_| "/verif/evidence".into());
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{dir}/{prop}.json"), json) {
        eprintln!("evidence: {e}");
        if code == 0 {
            code = 2;
        }
    }
    println!(
        "{prop}: {runs_done} runs, {} calls judged, {} distinct executions, {} interleavings, {wall:.1} s{}",
        get(&t.judged),
        get(&t.distinct),
        get(&t.schedules),
        if differing > 0 { ", REPEATED RUNS DIFFER" } else { "" }
    );
    code
}
