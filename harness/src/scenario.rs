//! One simulated run per property: configuration, calls, execution, oracles.

use std::cell::UnsafeCell;

use crate::{
    alloc::{self, Fill, MemCfg, Reuse},
    dist, gen, model_maze as mm, model_nonogram as mn, model_sudoku as ms,
    ops::{self, Call, Event, Op, Out, Words},
    rng::Rng,
    sched, seams,
    shm::{self, C},
    tape::{self, chance, draw, range, weighted, CFG, FAULT, OPS},
    trace, violation,
};

pub struct Plan {
    pub calls: Vec<Vec<Call>>,
    pub rounds: usize,
    pub stack: usize,
    pub mem: MemCfg,
}

impl Plan {
    fn call(&self, id: usize) -> &Call {
        self.calls.iter().flatten().find(|c| c.id == id).expect("known call")
    }
}

/// Chance of guard pages in percent.
fn memory(guard: u64) -> MemCfg {
    let guarded = draw(CFG, 100) >= 100 - guard;
    MemCfg {
        guard: guarded,
        low_side: draw(CFG, 4) == 3,
        reuse: [Reuse::Lifo, Reuse::Fifo, Reuse::Random, Reuse::Never][weighted(CFG, &[4, 2, 2, 1])],
        fill: [Fill::Zero, Fill::Stale, Fill::Garbage, Fill::Address][weighted(CFG, &[1, 2, 2, 2])],
        poison_free: draw(CFG, 2) == 1,
    }
}

/// Scheduling and transparent entropy faults of this run.
fn disturb(refuse: bool) {
    let s = sched::get();
    s.grain = [0, 1, 4, 32, 256, 4096][weighted(CFG, &[1, 2, 2, 2, 2, 1])];
    s.stall_in = [0, 8, 64][draw(CFG, 3) as usize];
    s.clock_jumps = draw(CFG, 3) == 2;
    s.watch = [0, 1, 50, 2000, 100_000][weighted(CFG, &[4, 2, 2, 2, 1])];
    s.preempt = [0, 2, 16, 128, 2048][weighted(CFG, &[88, 3, 3, 3, 3])];
    seams::set_entropy_faults(seams::EntropyFaults {
        interrupt: draw(CFG, 2) == 1,
        short: draw(CFG, 2) == 1,
        refuse,
    });
}

fn callers() -> usize {
    match weighted(CFG, &[30, 40, 20, 5, 2]) {
        3 => range(CFG, 4, 6) as usize,
        4 => range(CFG, 7, sched::MAX as u64) as usize,
        n => n + 1,
    }
}

/// How often the callers repeat their calls, and how many different calls each has at most. Long
/// histories show what needs many calls to wear out.
fn rounds(callers: usize, mem: MemCfg, per: u64, most: u64) -> (usize, u64) {
    if chance(CFG, 1, 25) && !mem.guard {
        shm::count(C::probe_long_history);
        let n = range(CFG, 10, most) as usize;
        ((n / callers).max(2), per.min(2))
    } else {
        (1, per)
    }
}

fn build(
    n: usize,
    per: u64,
    mut next: impl FnMut(&[Call]) -> (Op, Option<bool>, Words),
) -> Vec<Vec<Call>> {
    let mut all: Vec<Call> = Vec::new();
    let mut out = Vec::new();
    for _ in 0..n {
        let k = range(OPS, 1, per);
        let mut list = Vec::new();
        for _ in 0..k {
            let (op, known, words) = next(&all);
            let call = Call {
                id: all.len(),
                op,
                words,
                known,
            };
            all.push(call.clone());
            list.push(call);
        }
        out.push(list);
    }
    out
}

struct Shared<T>(UnsafeCell<T>);
unsafe impl<T> Sync for Shared<T> {}

/// Runs the plan and returns what happened, in order of completion.
pub fn run(plan: &Plan, between: impl FnMut(usize)) -> Vec<Event> {
    // only the caller that holds the baton touches the list
    let events = Shared(UnsafeCell::new(Vec::new()));
    let r = &events;
    let active = Shared(UnsafeCell::new(0u32));
    let a = &active;
    trace!(
        "callers {} rounds {} stack {} grain {} stall 1/{} windows 1/{} memory {:?}",
        plan.calls.len(),
        plan.rounds,
        plan.stack,
        sched::get().grain,
        sched::get().stall_in,
        sched::get().preempt,
        plan.mem
    );
    sched::run(
        plan.calls.len(),
        plan.rounds,
        plan.stack,
        move |id, round| {
            for call in &plan.calls[id] {
                unsafe {
                    *a.0.get() += 1;
                    if *a.0.get() > 1 {
                        shm::count(C::probe_overlapped_calls);
                    }
                }
                let e = ops::perform(call, round);
                unsafe {
                    *a.0.get() -= 1;
                    sched::progress();
                    (*r.0.get()).push(e);
                }
            }
        },
        between,
    );
    events.0.into_inner()
}

fn maze_of(out: &Out) -> Option<&ops::Maze> {
    match out {
        Out::Maze(m) | Out::MazeDraw(m, _) => Some(m),
        _ => None,
    }
}

fn size_of(op: &Op) -> Option<(usize, usize)> {
    match op {
        Op::Maze { w, h } | Op::MazeDraw { w, h } => Some((*w, *h)),
        _ => None,
    }
}

fn checked() {
    shm::get().nontrivial += 1;
}

fn short(op: &Op) -> String {
    let mut s = format!("{op:?}");
    s.truncate(900);
    s
}

/// Judges a call of the kinds with an independent model. `lenient`: errors that claim nothing about
/// the arguments are allowed (refused allocations).
fn judge(call: &Call, out: &Out, lenient: bool) {
    let bad = |class: &str, e: String| -> ! {
        violation!(class, "call {} {}: {e}", call.id, short(&call.op))
    };
    match (&call.op, out) {
        (Op::Maze { w: 0, .. } | Op::Maze { h: 0, .. }, _) => return,
        (_, Out::Panic(_)) if lenient => (),
        (_, Out::Panic(p)) => bad("panic", format!("panicked: {p}")),
        (Op::Maze { w, h }, Out::Maze(m)) => {
            if let Err(e) = mm::perfect(*w, *h, m).and_then(|()| mm::path(*w, *h, m)) {
                bad("wrong-answer", e);
            }
        }
        (Op::MazeDraw { w, h }, Out::MazeDraw(m, drawn)) => {
            if let Err(e) = mm::perfect(*w, *h, m).and_then(|()| mm::path(*w, *h, m)) {
                bad("wrong-answer", e);
            }
            match drawn {
                Ok((plain, Ok(solved))) => {
                    if let Err(e) = mm::drawn(*w, *h, m, plain, solved) {
                        bad("wrong-answer", e);
                    }
                }
                Ok((_, Err(e))) | Err(e) => {
                    if !lenient {
                        bad("wrong-error", format!("drawing failed: {e}"));
                    }
                }
            }
        }
        (Op::Sudoku { cells }, Out::Cells(r)) => {
            let verdict = match call.known {
                Some(true) => ms::Verdict::Solvable,
                Some(false) => ms::Verdict::Unsolvable,
                None => ms::Verdict::Unknown,
            };
            if let Err(e) = ms::check(cells, r, verdict) {
                if !(lenient && e.starts_with("unexpected error")) {
                    bad("wrong-answer", e);
                }
            }
        }
        (Op::Nonogram { col, row }, Out::Squares(r)) => {
            if let Err(e) = mn::check(col, row, r, call.known) {
                if !(lenient && e.starts_with("unexpected error")) {
                    bad("wrong-answer", e);
                }
            }
        }
        #[cfg(feature = "engine")]
        (Op::Cover { cons, adds, .. }, Out::Cover(answers, solved)) => {
            let m = crate::model_cover::Model::new(cons);
            if let Err(e) = m.check(adds, answers, solved) {
                bad("wrong-answer", e);
            }
        }
        _ => return,
    }
    checked();
}

// ------------------------------------------------------------------------------------------ mazes

fn mazes(prop: &str) {
    disturb(false);
    let mem = memory(6);
    alloc::start(mem);
    let mut n = callers();
    let draw_it = prop == "C04";
    // beyond 2^16 cells
    let huge = chance(CFG, 1, if draw_it { 800 } else { 500 });
    let big = huge || chance(CFG, 1, 40);
    let (mut repeat, mut per) = rounds(n, mem, if n > 3 { 3 } else { 8 }, 300);
    if big {
        (repeat, per) = (1, if huge { 1 } else { 2 });
        n = n.min(if huge { 2 } else { 4 });
    }
    let worn = repeat == 1 && !mem.guard && chance(CFG, 1, 300);
    let calls = build(n, per, |before| {
        if worn && before.is_empty() {
            return (gen::wear(true, false, false), None, Words::Production);
        }
        if chance(OPS, 1, 9) {
            let (op, known) = gen::neighbour();
            return (op, known, Words::Uniform);
        }
        let cap = if big {
            30_000
        } else if repeat > 1 {
            30
        } else {
            900
        };
        let (w, h) = if huge {
            shm::count(C::probe_huge_maze);
            gen::huge(draw_it)
        } else {
            gen::dims(if draw_it { cap.min(12_000) } else { cap })
        };
        let op = if draw_it {
            Op::MazeDraw { w, h }
        } else {
            Op::Maze { w, h }
        };
        (op, None, gen::words(true))
    });
    let plan = Plan {
        calls,
        rounds: repeat,
        stack: 2 << 20,
        mem,
    };
    let events = run(&plan, |_| ());
    for e in &events {
        let call = plan.call(e.call);
        worn_out(call, &e.out);
        let Some((w, h)) = size_of(&call.op) else { continue };
        if w == 0 || h == 0 {
            continue;
        }
        let bad = |class: &str, m: String| -> ! {
            violation!(class, "call {} {}: {m}", call.id, short(&call.op))
        };
        if let Out::Panic(p) = &e.out {
            bad("panic", format!("panicked: {p}"));
        }
        let Some(maze) = maze_of(&e.out) else { continue };
        if w * h >= 4000 {
            shm::count(C::probe_large_maze);
        }
        if maze.path.len() > w + h + 60 {
            shm::count(C::probe_long_path);
        }
        match prop {
            "C01" => {
                if let Err(m) = mm::perfect(w, h, maze) {
                    bad("wrong-maze", m);
                }
            }
            "C02" => {
                if let Err(m) = mm::path(w, h, maze) {
                    bad("wrong-path", m);
                }
            }
            _ => {
                let Out::MazeDraw(_, drawn) = &e.out else { continue };
                if let Ok(route) = mm::walk(w, h, maze) {
                    for p in route.windows(2) {
                        if p[1] + 1 == p[0] && p[1] % w == 0 && w > 1 {
                            shm::count(C::probe_path_left_to_edge);
                        }
                        if p[1] + w == p[0] && p[1] < w {
                            shm::count(C::probe_path_up_to_edge);
                        }
                    }
                }
                match drawn {
                    Err(m) => bad("refused-drawing", format!("drawing failed: {m}")),
                    Ok((_, Err(m))) => {
                        bad("refused-drawing", format!("drawing the path failed: {m}"))
                    }
                    Ok((plain, Ok(solved))) => {
                        if let Err(m) = mm::drawn(w, h, maze, plain, solved) {
                            bad("wrong-drawing", m);
                        }
                    }
                }
            }
        }
        checked();
    }
}

/// Judges a call repeated many times.
fn worn_out(call: &Call, out: &Out) {
    if let (Op::Wear { what, .. }, Out::Worn(r)) = (&call.op, out) {
        if let Some(e) = r {
            violation!("wrong-repetition", "call {} {what:?} again and again: {e}", call.id);
        }
        checked();
    }
}

fn entropy_failures() {
    let refuse = chance(CFG, 3, 4);
    disturb(refuse);
    let mem = memory(6);
    alloc::start(mem);
    let n = callers();
    // long passages need room
    let big = weighted(CFG, &[12, 4, 1]);
    let cap = [400, 12_000, 90_000][big];
    let calls = build(n, [6, 2, 1][big], |_| {
        if chance(OPS, 1, 9) {
            let (op, known) = gen::neighbour();
            return (op, known, Words::Uniform);
        }
        let op = if big > 0 && chance(OPS, 1, 2) {
            let w = match draw(OPS, 4) {
                0 => 1,
                1 => range(OPS, 2, 6) as usize,
                2 => cap,
                _ => range(OPS, 40, 300) as usize,
            };
            Op::Maze { w, h: (cap / w).max(1) }
        } else {
            gen::maze(cap)
        };
        (op, None, gen::words(true))
    });
    let plan = Plan {
        calls,
        rounds: if big > 1 { 1 } else { 2 },
        // no more than what a thread has by default
        stack: if big > 0 { 2 << 20 } else { 1 << 20 },
        mem,
    };
    let rounds = plan.rounds;
    let events = run(&plan, |round| {
        if round + 2 == rounds {
            trace!("  entropy is available again");
            seams::set_entropy_faults(seams::EntropyFaults {
                interrupt: true,
                short: true,
                refuse: false,
            });
        }
    });
    let mut failed = false;
    for e in &events {
        let call = plan.call(e.call);
        let Some((w, h)) = size_of(&call.op) else { continue };
        if w == 0 || h == 0 {
            continue;
        }
        match &e.out {
            Out::Panic(p) => {
                if e.refused == 0 {
                    violation!(
                        "panic",
                        "call {} {} panicked although no entropy request of it was refused: {p}",
                        call.id,
                        short(&call.op)
                    );
                }
                failed = true;
                shm::count(C::probe_entropy_panic);
            }
            out => {
                let Some(maze) = maze_of(out) else { continue };
                if let Err(m) = mm::perfect(w, h, maze).and_then(|()| mm::path(w, h, maze)) {
                    violation!("wrong-maze", "call {} {}: {m}", call.id, short(&call.op));
                }
                if w * h >= 4000 {
                    shm::count(C::probe_large_maze);
                }
                if maze.path.len() > 2 * (w + h) {
                    shm::count(C::probe_long_path);
                }
                if failed {
                    shm::count(C::probe_recovered_after_refusal);
                }
                checked();
            }
        }
    }
}

// ----------------------------------------------------------------------------------- distribution

fn fresh_processes() {
    disturb(false);
    let (w, h) = [(2usize, 2usize), (3, 2), (2, 3), (3, 3)][draw(CFG, 4) as usize];
    let base = draw(CFG, 0);
    let n = 400usize;
    trace!("{n} fresh processes with two callers, {w}x{h} mazes, rand's own generator");
    for k in 0..n {
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            tape::detach(crate::rng::mix(base, k as u64));
            alloc::start(MemCfg::PLAIN);
            let call = |id| Call {
                id,
                op: Op::MazeMany { w, h, n: 2 },
                words: Words::Production,
                known: None,
            };
            let plan = Plan {
                calls: vec![vec![call(0)], vec![call(1)]],
                rounds: 1,
                stack: 1 << 20,
                mem: MemCfg::PLAIN,
            };
            for e in run(&plan, |_| ()) {
                match &e.out {
                    Out::Codes(c) => {
                        for (i, v) in c.iter().enumerate() {
                            shm::get().scratch[k * 4 + e.caller * 2 + i] = *v;
                        }
                    }
                    _ => violation!("panic", "create_maze({w}, {h}) panicked"),
                }
            }
            unsafe { libc::_exit(0) };
        }
        wait_child(pid);
    }
    let get = |j: usize| -> Vec<u64> { (0..n).map(|k| shm::get().scratch[k * 4 + j]).collect() };
    let d = dist::exact(w, h);
    let names = [
        "first maze of the first caller",
        "second maze of the first caller",
        "first maze of the second caller",
        "second maze of the second caller",
    ];
    for j in 0..4 {
        if let Some(e) = dist::frequencies(w, h, &get(j), &d) {
            violation!("biased", "over {n} fresh processes, {}: {e}", names[j]);
        }
        for i in 0..j {
            let what = format!("over {n} fresh processes, {} and {}", names[i], names[j]);
            if let Some(e) = dist::repeats(&what, &get(i), &get(j), &d)
                .or_else(|| dist::pairs(&what, &get(i), &get(j), &d))
            {
                violation!("dependent", "{e}");
            }
        }
        if j != 0 {
            continue;
        }
        // neighbours in time: seeds that hardly differ
        let a = get(j);
        if let Some(e) = dist::repeats("fresh processes one after another", &a, &a[1..], &d) {
            violation!("dependent", "{e}");
        }
    }
    for j in 0..n {
        shm::log(60, j as u64, shm::get().scratch[j * 4]);
    }
    shm::add(C::calls, 2 * n as u64);
    checked();
}

fn distribution() {
    let kind = weighted(CFG, &[6, 5, 3, 1, 2]);
    if kind == 2 {
        return fresh_processes();
    }
    disturb(false);
    let s = sched::get();
    if s.grain > 0 {
        // millions of yield points
        s.grain = s.grain.max(256);
    }
    let mem = MemCfg {
        fill: Fill::Stale,
        ..MemCfg::PLAIN
    };
    alloc::start(mem);
    if kind == 1 {
        return larger(mem);
    }
    if kind == 4 {
        return bulk(mem);
    }
    let deep = kind == 3;
    let sizes = [
        (2usize, 2usize),
        (3, 2),
        (2, 3),
        (3, 3),
        (4, 2),
        (2, 4),
        (4, 3),
        (3, 4),
        (5, 2),
    ];
    let first = sizes[draw(OPS, 9) as usize];
    let second = sizes[draw(OPS, 9) as usize];
    let n = if deep { 1 } else { 2 };
    let mut calls: Vec<Vec<Call>> = Vec::new();
    let mut id = 0;
    let words = if deep || draw(OPS, 2) == 1 {
        Words::Production
    } else {
        Words::Uniform
    };
    for _ in 0..n {
        let mut list = Vec::new();
        let batches = if deep { 1 } else { 2 };
        for b in 0..batches {
            let (w, h) = if b == 0 { first } else { second };
            let count = if deep {
                700_000
            } else if words_recorded(&words) {
                5_000
            } else {
                12_000
            };
            let count = if w * h > 6 { count / 2 } else { count };
            list.push(Call {
                id,
                op: Op::MazeMany { w, h, n: count },
                words: words.clone(),
                known: None,
            });
            id += 1;
        }
        calls.push(list);
    }
    let plan = Plan {
        calls,
        rounds: 1,
        stack: 1 << 20,
        mem,
    };
    let events = run(&plan, |_| ());
    let codes = |e: &Event| match &e.out {
        Out::Codes(c) => c.clone(),
        Out::Panic(p) => violation!("panic", "call {} panicked: {p}", e.call),
        _ => Vec::new(),
    };
    for e in &events {
        let Op::MazeMany { w, h, .. } = plan.call(e.call).op else { continue };
        let d = dist::exact(w, h);
        let c = codes(e);
        if let Some(m) = dist::frequencies(w, h, &c, &d) {
            violation!("biased", "caller {} call {}: {m}", e.caller, e.call);
        }
        dist::sum_up(w, h, &c, &d);
        for lag in 1..=if deep { 2 } else { 6 } {
            let what = format!("{w}x{h}, caller {}, lag {lag}", e.caller);
            if let Some(m) = dist::repeats(&what, &c, &c[lag..], &d) {
                violation!("dependent", "{m}");
            }
            if lag <= 2 {
                if let Some(m) = dist::pairs(&what, &c, &c[lag..], &d) {
                    violation!("dependent", "{m}");
                }
            }
        }
        for f in &events {
            if f.caller <= e.caller {
                continue;
            }
            let Op::MazeMany { w: fw, h: fh, .. } = plan.call(f.call).op else { continue };
            if (fw, fh) != (w, h) {
                continue;
            }
            let o = codes(f);
            for (a, b) in [(0, 0), (1, 0), (0, 1)] {
                let what = format!(
                    "{w}x{h}, caller {} call {} against caller {} call {} shifted by {a},{b}",
                    e.caller, e.call, f.caller, f.call
                );
                if let Some(m) = dist::repeats(&what, &c[a..], &o[b..], &d)
                    .or_else(|| dist::pairs(&what, &c[a..], &o[b..], &d))
                {
                    violation!("dependent", "{m}");
                }
            }
        }
        checked();
    }
}

fn words_recorded(w: &Words) -> bool {
    !matches!(w, Words::Production)
}

/// Many small mazes, for the sums over all runs.
fn bulk(mem: MemCfg) {
    let (w, h) = dist::SUMMED[weighted(CFG, &[4, 2, 2, 1, 1, 1])];
    let plan = Plan {
        calls: vec![vec![Call {
            id: 0,
            op: Op::MazeMany { w, h, n: 400_000 },
            words: Words::Production,
            known: None,
        }]],
        rounds: 1,
        stack: 1 << 20,
        mem,
    };
    let events = run(&plan, |_| ());
    let Out::Codes(c) = &events[0].out else {
        violation!("panic", "create_maze({w}, {h}) panicked")
    };
    let d = dist::exact(w, h);
    if let Some(m) = dist::frequencies(w, h, c, &d) {
        violation!("biased", "{m}");
    }
    if let Some(m) = dist::repeats(&format!("{w}x{h}, lag 1"), c, &c[1..], &d) {
        violation!("dependent", "{m}");
    }
    dist::sum_up(w, h, c, &d);
    checked();
}

/// Mazes too large to enumerate, against a second generator.
fn larger(mem: MemCfg) {
    let sizes = [
        (6usize, 6usize),
        (8, 5),
        (5, 8),
        (10, 10),
        (16, 4),
        (4, 16),
        (20, 20),
        (2, 40),
        (40, 2),
        (12, 12),
    ];
    let (w, h) = sizes[draw(OPS, 10) as usize];
    let n = 150_000 / (w * h);
    let production = draw(OPS, 4) != 0;
    let call = Call {
        id: 0,
        op: Op::MazeMany { w, h, n },
        words: if production {
            Words::Production
        } else {
            Words::Uniform
        },
        known: None,
    };
    let plan = Plan {
        calls: vec![vec![call]],
        rounds: 1,
        stack: 1 << 20,
        mem,
    };
    let events = run(&plan, |_| ());
    let Out::Grids(grids) = &events[0].out else {
        violation!("panic", "create_maze({w}, {h}) panicked")
    };
    let (mut a, mut b) = (dist::Moments::default(), dist::Moments::default());
    for g in grids {
        if g.len() != w * h {
            violation!("biased", "a maze of {} cells", g.len());
        }
        a.add(&dist::features(w, h, g));
    }
    let mut r = Rng::new(draw(CFG, 1 << 60));
    for _ in 0..2 * n {
        b.add(&dist::features(w, h, &dist::reference(w, h, &mut r)));
    }
    if let Some(m) = dist::two_samples(w, h, &a, &b) {
        violation!("biased", "{m}");
    }
    // two mazes of a hundred cells are hardly ever equal
    if w * h >= 100 {
        let mut seen = std::collections::BTreeSet::new();
        if let Some(g) = grids.iter().find(|g| !seen.insert(*g)) {
            let k = grids.iter().filter(|x| x == &g).count();
            violation!("dependent", "{w}x{h}: one maze appeared {k} times in {n} calls");
        }
        // so few words cannot make every such maze appear
        let drawn = events[0].words;
        if drawn > 0 && drawn % n as u64 == 0 && drawn / n as u64 <= 3 {
            violation!(
                "biased",
                "{w}x{h}: {} random words of 32 bits decide a maze, too few for every maze to appear",
                drawn / n as u64
            );
        }
    }
    let equal = grids.windows(2).filter(|p| p[0] == p[1]).count();
    if equal > 2 {
        violation!("dependent", "{w}x{h}: {equal} mazes equal the one before, of {n}");
    }
    checked();
}

// ---------------------------------------------------------------------------------------- solvers

fn solver(prop: &str) {
    disturb(false);
    let mem = memory(match prop {
        "C11" if cfg!(feature = "engine") => 40,
        "C06" | "C11" => 8,
        _ => 6,
    });
    alloc::start(mem);
    let n = callers();
    let (per, most) = match prop {
        "C11" if cfg!(feature = "engine") => (14, 300),
        "C06" | "C11" => (5, 150),
        _ => (8, 300),
    };
    let (repeat, per) = rounds(n, mem, if n > 3 { 2 } else { per }, most);
    let large = chance(CFG, 1, 10);
    let worn = prop != "C11" && repeat == 1 && !mem.guard && chance(CFG, 1, 300);
    let calls = build(n, per, |before| {
        if worn && before.is_empty() {
            return (gen::wear(false, prop == "C06", prop == "C09"), None, Words::Uniform);
        }
        let own = |c: &&Call| {
            matches!(
                (&c.op, prop),
                (Op::Sudoku { .. }, "C06") | (Op::Nonogram { .. }, "C09")
            )
        };
        let mine: Vec<&Call> = before.iter().filter(own).collect();
        if !mine.is_empty() && chance(OPS, 1, 6) {
            let k = draw(OPS, mine.len() as u64) as usize;
            let (op, known) = gen::similar(mine[k]);
            return (op, known, Words::Uniform);
        }
        if chance(OPS, 1, 8) {
            let (op, known) = gen::neighbour();
            return (op, known, Words::Uniform);
        }
        #[cfg(feature = "engine")]
        if prop == "C11" {
            return (gen::cover(), None, Words::Uniform);
        }
        // C11 comes here only if the hook does not build: the matrix as `solve_sudoku` uses it
        let (op, known) = if prop != "C09" {
            if repeat == 1 && chance(OPS, 1, 14) {
                gen::hardest_sudoku_op()
            } else {
                gen::sudoku_op()
            }
        } else {
            gen::nonogram_op(match (repeat, large) {
                (1, true) => 20,
                (1, false) => 11,
                _ => 6,
            })
        };
        (op, known, Words::Uniform)
    });
    let plan = Plan {
        calls,
        rounds: repeat,
        stack: 2 << 20,
        mem,
    };
    let events = run(&plan, |_| ());
    let mut panicked = false;
    for e in &events {
        let call = plan.call(e.call);
        panicked |= matches!(e.out, Out::Panic(_));
        worn_out(call, &e.out);
        match (&call.op, prop) {
            (Op::Sudoku { .. }, "C06") | (Op::Nonogram { .. }, "C09") => judge(call, &e.out, false),
            #[cfg(not(feature = "engine"))]
            (Op::Sudoku { .. }, "C11") => judge(call, &e.out, false),
            #[cfg(feature = "engine")]
            (Op::Cover { cons, adds, solve }, "C11") => {
                judge(call, &e.out, false);
                if let Out::Cover(answers, solved) = &e.out {
                    let m = crate::model_cover::Model::new(cons);
                    let rejected = answers.iter().position(|a| *a == "rejected");
                    if let Some(r) = rejected {
                        shm::count(C::probe_cover_rejected);
                        if *solve || r + 1 < adds.len() {
                            shm::count(C::probe_cover_continue_after_reject);
                        }
                    }
                    if answers.contains(&"index") {
                        shm::count(C::probe_cover_bad_index);
                    }
                    shm::count(match solved {
                        None => C::probe_cover_dropped,
                        Some(Ok(_)) => C::probe_cover_solved,
                        Some(Err(_)) => C::probe_cover_unsolvable,
                    });
                    let _ = m;
                }
            }
            _ => (),
        }
        if panicked && !matches!(e.out, Out::Panic(_)) {
            shm::count(C::probe_recovered_after_panic);
        }
    }
    alloc::final_sweep();
    if prop == "C11" {
        no_growth(&plan);
    }
}

/// Making, using and dropping the same matrices again holds no more memory than before.
#[allow(unused_variables)]
fn no_growth(plan: &Plan) {
    #[cfg(feature = "engine")]
    {
        let only = plan
            .calls
            .iter()
            .flatten()
            .all(|c| matches!(c.op, Op::Cover { .. }));
        let (first, _) = alloc::live();
        if !only || first == 0 {
            return;
        }
        let mut held = [first, 0, 0];
        for k in 1..3 {
            run(plan, |_| ());
            held[k] = alloc::live().0;
        }
        if held[0] < held[1] && held[1] < held[2] {
            violation!("leak", "blocks held after matrices were dropped: {held:?}");
        }
    }
}

// ----------------------------------------------------------------------------------------- memory

fn memory_safety() {
    disturb(false);
    let mem = memory(25);
    let n = callers();
    let calls = build(n, 4, |before| {
        if !before.is_empty() && chance(OPS, 1, 8) {
            let k = draw(OPS, before.len() as u64) as usize;
            let (op, known) = gen::similar(&before[k]);
            return (op, known, Words::Uniform);
        }
        if chance(OPS, 1, 2) {
            let (op, known) = gen::sudoku_op();
            return (op, known, Words::Uniform);
        }
        let (op, known) = gen::any();
        (op, known, Words::Uniform)
    });
    let mut plan = Plan {
        calls,
        rounds: 3,
        stack: 2 << 20,
        mem,
    };
    // the same execution with every block zeroed and nothing ever reused: results may not differ
    let compare = chance(CFG, 1, 3);
    let total: usize = plan.calls.iter().map(Vec::len).sum();
    if compare {
        let mark = shm::mark();
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            tape::stop_recording();
            shm::quiet();
            plan.mem = MemCfg {
                reuse: Reuse::Never,
                ..MemCfg::PLAIN
            };
            alloc::start(plan.mem);
            for e in run(&plan, |_| ()) {
                shm::get().scratch[e.round * total + e.call] = ops::out_hash(&e.out);
            }
            unsafe { libc::_exit(0) };
        }
        wait_child(pid);
        shm::restore(&mark);
    }
    alloc::start(mem);
    let mut held = [(0u64, 0u64); 3];
    let events = run(&plan, |round| held[round] = alloc::live());
    alloc::final_sweep();
    for e in &events {
        let call = plan.call(e.call);
        judge(call, &e.out, false);
        if !matches!(call.op, Op::Maze { w: 0, .. } | Op::Maze { h: 0, .. }) {
            if let Out::Panic(p) = &e.out {
                violation!("panic", "call {} {} panicked: {p}", call.id, short(&call.op));
            }
        }
        if compare && shm::get().scratch[e.round * total + e.call] != ops::out_hash(&e.out) {
            violation!(
                "contents-dependence",
                "call {} {} gives another result when memory holds other values",
                call.id,
                short(&call.op)
            );
        }
    }
    // a buffer kept for later use may grow, their number may not
    if held[2].0 > held[1].0 {
        violation!(
            "leak",
            "{} blocks ({} bytes) held after two rounds of the same calls, {} ({} bytes) after three",
            held[1].0,
            held[1].1,
            held[2].0,
            held[2].1
        );
    }
    shm::count(C::probe_leak_rounds);
}

// -------------------------------------------------------------------------------------- refusals

/// Waits for a side process; its violations and errors are those of the run.
fn wait_child(pid: i32) {
    let mut status = 0;
    while unsafe { libc::waitpid(pid, &mut status, 0) } < 0 {}
    if shm::get().status != shm::RUNNING {
        unsafe { libc::_exit(0) };
    }
    if !libc::WIFEXITED(status) || libc::WEXITSTATUS(status) != 0 {
        shm::harness_error(format_args!("side process ended with status {status}"));
    }
}

fn refused_allocations() {
    disturb(false);
    let mem = memory(15);
    let kinds: [u64; 3] = [6, 1, 1];
    let pick = |history: &[Call]| -> (Op, Option<bool>, Words) {
        if !history.is_empty() && chance(OPS, 1, 4) {
            let (op, known) = gen::similar(&history[history.len() - 1]);
            return (op, known, Words::Uniform);
        }
        let (op, known) = match weighted(OPS, &kinds) {
            0 => match draw(OPS, 3) {
                0 => gen::sudoku_op(),
                1 => gen::nonogram_op(9),
                _ => (gen::maze_draw(40), None),
            },
            1 => gen::any(),
            _ => (gen::maze(2000), None),
        };
        (op, known, Words::Uniform)
    };
    let mut list: Vec<Call> = Vec::new();
    let before = draw(OPS, 2) as usize;
    let after = range(OPS, 1, 2) as usize;
    for id in 0..before + 1 + after {
        let (op, known, words) = pick(&list);
        list.push(Call {
            id,
            op,
            words,
            known,
        });
    }
    let plan = Plan {
        calls: vec![list],
        rounds: 1,
        stack: 2 << 20,
        mem,
    };
    let target = before;
    let n = plan.calls[0].len();
    // without refusals: how many allocations the call makes, and what every call returns
    let mark = shm::mark();
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        tape::stop_recording();
        shm::quiet();
        alloc::start(mem);
        let p = &plan;
        sched::run(
            1,
            1,
            plan.stack,
            move |_, _| {
                for (i, call) in p.calls[0].iter().enumerate() {
                    let from = alloc::allocations();
                    let e = ops::perform(call, 0);
                    shm::get().scratch[2 * i] = alloc::allocations() - from;
                    shm::get().scratch[2 * i + 1] = ops::out_hash(&e.out);
                }
            },
            |_| (),
        );
        unsafe { libc::_exit(0) };
    }
    wait_child(pid);
    shm::restore(&mark);
    let scratch: Vec<u64> = shm::get().scratch[..2 * n].to_vec();
    for i in 0..n {
        trace!("  call {i} makes {} allocations: {:?}", scratch[2 * i], plan.calls[0][i].op);
    }
    let count = scratch[2 * target];
    alloc::start(mem);
    if count == 0 {
        return;
    }
    let at = 1 + match draw(FAULT, 6) {
        0 => draw(FAULT, count.min(12)),
        1 => count - 1 - draw(FAULT, count.min(12)),
        _ => draw(FAULT, count),
    };
    let lasting = draw(FAULT, 3) == 2;
    trace!("  allocation {at} of {count} of call {target} is refused, lasting: {lasting}");
    checked();
    let p = &plan;
    let results = Shared(UnsafeCell::new(Vec::new()));
    let r = &results;
    sched::run(
        1,
        1,
        plan.stack,
        move |_, _| {
            for (i, call) in p.calls[0].iter().enumerate() {
                if i == target {
                    alloc::refuse(at, lasting);
                }
                let e = ops::perform(call, 0);
                alloc::refuse(0, false);
                unsafe { (*r.0.get()).push(e) };
            }
        },
        |_| (),
    );
    for (i, e) in results.0.into_inner().iter().enumerate() {
        let call = &plan.calls[0][i];
        let hit = i == target && alloc::refused() > 0;
        if hit {
            shm::count(C::probe_oom_survived);
        }
        judge(call, &e.out, hit);
        let same = ops::out_hash(&e.out) == scratch[2 * i + 1];
        // a call that survives a refusal may end with an error or a panic, but not with another image
        let excused = hit
            && match &e.out {
                Out::Panic(_) | Out::Image(Err(_)) | Out::MazeDraw(..) | Out::Maze(_) => true,
                // judged by their models
                Out::Cells(_) | Out::Squares(_) => {
                    matches!(call.op, Op::Sudoku { .. } | Op::Nonogram { .. })
                        || matches!(&e.out, Out::Cells(Err(x)) | Out::Squares(Err(x))
                            if !x.contains("NoSolution") && !x.contains("Invalid") && !x.contains("Empty"))
                }
                _ => false,
            };
        // random words left over from an interrupted call do not change later calls: every call has
        // its own
        if !same && !excused && !redrawn(call, e) {
            violation!(
                "wrong-answer",
                "call {} {} returned another result ({}) {}",
                call.id,
                short(&call.op),
                ops::brief(&e.out),
                if hit {
                    "because an allocation was refused"
                } else {
                    "after an earlier call met a refused allocation"
                }
            );
        }
    }
    alloc::final_sweep();
}

/// Results that may differ between executions: answers of the solvers that their models accept, and
/// mazes.
fn redrawn(call: &Call, e: &Event) -> bool {
    matches!(
        (&call.op, &e.out),
        (Op::Maze { .. }, Out::Maze(_))
            | (Op::MazeDraw { .. }, Out::MazeDraw(..))
            | (Op::Sudoku { .. }, Out::Cells(Ok(_)))
            | (Op::Nonogram { .. }, Out::Squares(Ok(_)))
    )
}

// -------------------------------------------------------------------------------------- isolation

fn isolation() {
    let refuse = chance(CFG, 1, 4);
    disturb(refuse);
    let mem = memory(6);
    let n = callers();
    let images = chance(CFG, 1, 3);
    let (repeat, per) = rounds(n, mem, if n > 3 { 2 } else { 6 }, 300);
    let worn = repeat == 1 && !mem.guard && !refuse && chance(CFG, 1, 400);
    let calls = build(n, per, |before| {
        if worn && before.is_empty() {
            return (gen::wear(true, true, true), None, Words::Production);
        }
        if !before.is_empty() && chance(OPS, 2, 5) {
            let last = before.len() - 1;
            let k = match draw(OPS, 2) {
                0 => last,
                _ => draw(OPS, before.len() as u64) as usize,
            };
            let (op, known) = gen::similar(&before[k]);
            return (op, known, Words::Uniform);
        }
        let (op, known) = gen::any();
        if !images && matches!(op, Op::SudokuPrint { .. } | Op::NonogramPrint { .. }) {
            let (op, known) = gen::neighbour();
            return (op, known, gen::words(false));
        }
        (op, known, gen::words(false))
    });
    let plan = Plan {
        calls,
        rounds: repeat,
        stack: 2 << 20,
        mem,
    };
    let total: usize = plan.calls.iter().map(Vec::len).sum();
    // every call alone in a fresh process, on ordinary memory and other entropy
    let mark = shm::mark();
    for id in 0..total {
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            tape::compare_side_run();
            tape::perturb_entropy();
            shm::quiet();
            let s = sched::get();
            s.grain = 0;
            s.stall_in = 0;
            s.clock_jumps = false;
            s.preempt = 0;
            s.watch = 0;
            seams::set_entropy_faults(seams::EntropyFaults {
                interrupt: false,
                short: false,
                refuse: false,
            });
            alloc::start(MemCfg::PLAIN);
            let solo = Plan {
                calls: vec![vec![plan.call(id).clone()]],
                rounds: 1,
                stack: 2 << 20,
                mem: MemCfg::PLAIN,
            };
            let e = run(&solo, |_| ());
            shm::get().scratch[2 * id] = ops::out_hash(&e[0].out);
            shm::get().scratch[2 * id + 1] =
                e[0].words << 1 | u64::from(matches!(e[0].out, Out::Panic(_)));
            unsafe { libc::_exit(0) };
        }
        wait_child(pid);
        shm::restore(&mark);
    }
    alloc::start(mem);
    let events = run(&plan, |_| ());
    let mut panicked = false;
    for e in &events {
        let call = plan.call(e.call);
        let [solo, info] = [0, 1].map(|i| shm::get().scratch[2 * e.call + i]);
        let got = ops::out_hash(&e.out);
        let is_panic = matches!(e.out, Out::Panic(_));
        if e.refused > 0 && is_panic {
            panicked = true;
            continue;
        }
        worn_out(call, &e.out);
        let random = matches!(call.op, Op::Maze { .. } | Op::MazeDraw { .. });
        if is_panic != (info & 1 == 1) {
            violation!(
                "influenced",
                "call {} {} {} in this history, but not alone",
                call.id,
                short(&call.op),
                if is_panic { "panics" } else { "does not panic" }
            );
        }
        // a generator that takes its numbers elsewhere cannot be compared, and later rounds draw
        // other numbers
        let comparable = !random || (info >> 1 > 0 && e.round == 0);
        if random && e.round > 0 {
            judge(call, &e.out, false);
        }
        if comparable && got != solo {
            violation!(
                "influenced",
                "call {} {} returned {} in this history, but something else when made alone",
                call.id,
                short(&call.op),
                ops::brief(&e.out)
            );
        }
        if panicked && !is_panic {
            shm::count(C::probe_recovered_after_panic);
        }
        panicked |= is_panic;
        if events.len() > 1 {
            checked();
        }
    }
}

pub fn run_property(prop: &str) {
    match prop {
        "C01" | "C02" | "C04" => mazes(prop),
        "C03" => entropy_failures(),
        "C05" => distribution(),
        "C06" | "C09" | "C11" => solver(prop),
        "C07" => memory_safety(),
        "C08" => refused_allocations(),
        "C10" => isolation(),
        _ => shm::harness_error(format_args!("unknown property {prop}")),
    }
}
