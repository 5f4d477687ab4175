//! The calls simulated callers make, and what they got back.

use std::panic::{catch_unwind, AssertUnwindSafe};

use puzzle_utils as pu;

use crate::{
    cells, sched,
    shm::{self, C},
    tape::{self, WORDS},
    trace, violation,
};

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Maze { w: usize, h: usize },
    /// generate, draw, draw the path
    MazeDraw { w: usize, h: usize },
    MazeMany { w: usize, h: usize, n: usize },
    Sudoku { cells: Vec<u8> },
    SudokuText { text: String },
    SudokuPrint { cells: Vec<u8> },
    Nonogram { col: Vec<Vec<usize>>, row: Vec<Vec<usize>> },
    NonogramText { col: String, row: String, w: usize, h: usize },
    NonogramPrint { col: Vec<Vec<usize>>, row: Vec<Vec<usize>>, grid: Vec<bool> },
    Png { w: u32, h: u32, seed: u64 },
    /// the same small call again and again
    Wear { what: Small, n: usize },
    #[cfg(feature = "engine")]
    Cover { cons: Vec<Vec<usize>>, adds: Vec<usize>, solve: bool },
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Small {
    Maze(usize, usize),
    /// a complete grid
    Sudoku,
    /// contradictory givens
    BadSudoku,
    Nonogram,
    BadNonogram,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Picture {
    pub w: u32,
    pub h: u32,
    pub raw: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Maze {
    pub cells: Vec<(bool, bool)>,
    /// as returned: last step first
    pub path: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Maze(Maze),
    MazeDraw(Maze, Result<(Picture, Result<Picture, String>), String>),
    Codes(Vec<u64>),
    Grids(Vec<Vec<(bool, bool)>>),
    Cells(Result<Vec<u8>, String>),
    Squares(Result<Vec<bool>, String>),
    /// the first wrong outcome
    Worn(Option<String>),
    /// size, hash of the contents
    Image(Result<(u64, u64), String>),
    Cover(Vec<&'static str>, Option<Result<Vec<usize>, String>>),
    Panic(String),
}

/// How the simulator makes the random words of a call.
#[derive(Clone, Debug)]
pub enum Words {
    Uniform,
    /// mostly the same choice
    Constant(u32),
    Cycle(Vec<u32>),
    Sticky(u64),
    /// rand's own generator over simulated entropy
    Production,
}

#[derive(Clone, Debug)]
pub struct Call {
    pub id: usize,
    pub op: Op,
    pub words: Words,
    /// whether the puzzle has a solution, where the model knows
    pub known: Option<bool>,
}

#[derive(Clone, Debug)]
pub struct Event {
    pub caller: usize,
    pub round: usize,
    pub call: usize,
    #[allow(dead_code)]
    pub begin: u64,
    #[allow(dead_code)]
    pub end: u64,
    /// entropy requests refused while the call ran
    pub refused: u64,
    /// random words drawn through the simulated source
    pub words: u64,
    pub out: Out,
}

struct WordSource {
    call: usize,
    mode: *const Words,
    n: usize,
    last: u32,
    drawn: u64,
    limit: u64,
}

static mut SOURCES: [WordSource; sched::MAX] = [const {
    WordSource {
        call: 0,
        mode: std::ptr::null(),
        n: 0,
        last: 0,
        drawn: 0,
        limit: u64::MAX,
    }
}; sched::MAX];

fn source() -> &'static mut WordSource {
    unsafe { &mut *(&raw mut SOURCES[sched::caller()]) }
}

/// Installed as the word source of rand's `ThreadRng`.
pub fn word() -> Option<u32> {
    if !sched::armed() {
        return None;
    }
    sched::seam_enter();
    let v = simulated_word();
    sched::seam_exit();
    v
}

#[inline(never)]
fn simulated_word() -> Option<u32> {
    sched::yield_point();
    let s = source();
    s.drawn += 1;
    shm::count(C::words_drawn);
    if s.drawn > s.limit {
        violation!(
            "endless-draws",
            "one call drew more than {} random words",
            s.limit
        );
    }
    let n = s.n;
    s.n += 1;
    let mode = unsafe { &*s.mode };
    let last = s.last;
    let value = match mode {
        Words::Production => return None,
        _ => tape::draw_with(WORDS + s.call, 0, |r| {
            let free = r.next() as u32;
            u64::from(match mode {
                Words::Constant(w) if r.below(12) != 0 => *w,
                Words::Cycle(ws) if r.below(12) != 0 => ws[n % ws.len()],
                Words::Sticky(k) if r.below(*k) != 0 => last,
                _ => free,
            })
        }) as u32,
    };
    s.last = value;
    Some(value)
}

pub fn hash(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for chunk in bytes.chunks(8) {
        let mut w = [0u8; 8];
        w[..chunk.len()].copy_from_slice(chunk);
        h = (h ^ u64::from_le_bytes(w)).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        h ^= h >> 29;
    }
    h
}

/// Identifies an outcome. Panics count by kind only: their text is not part of any promise.
pub fn out_hash(out: &Out) -> u64 {
    match out {
        Out::Panic(_) => 0xDEAD,
        Out::Codes(c) => c.iter().fold(7, |h, c| crate::rng::mix(h, *c)),
        Out::Grids(g) => g.iter().fold(9, |h, g| {
            g.iter().fold(h, |h, (r, d)| {
                h.wrapping_mul(0x100_0000_01b3) ^ u64::from(*r) << 1 ^ u64::from(*d)
            })
        }),
        Out::MazeDraw(m, r) => {
            let mut h = hash(format!("{m:?}").as_bytes());
            if let Ok((a, b)) = r {
                h ^= hash(&a.raw).rotate_left(7);
                match b {
                    Ok(b) => h ^= hash(&b.raw).rotate_left(13),
                    Err(e) => h ^= hash(e.as_bytes()),
                }
            }
            h
        }
        other => hash(format!("{other:?}").as_bytes()),
    }
}

pub fn brief(out: &Out) -> String {
    let mut s = match out {
        Out::MazeDraw(m, r) => format!(
            "{:?} / {:?}",
            Out::Maze(m.clone()),
            r.as_ref().map(|(a, b)| (a.w, a.h, b.as_ref().map(|b| (b.w, b.h))))
        ),
        Out::Codes(c) => format!("{} mazes", c.len()),
        Out::Grids(c) => format!("{} mazes", c.len()),
        other => format!("{other:?}"),
    };
    if s.len() > 380 {
        let mut n = 380;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        s.truncate(n);
        s.push_str("..");
    }
    s
}

/// Runs code under test: on the simulated allocator, entropy, locks and clocks.
fn under_test<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let f = AssertUnwindSafe(f);
    sched::set_armed(true);
    let r = catch_unwind(move || {
        let f = f;
        (f.0)()
    });
    sched::set_armed(false);
    r.map_err(|p| {
        p.downcast_ref::<&str>()
            .map(|s| (*s).to_string())
            .or_else(|| p.downcast_ref::<String>().cloned())
            .unwrap_or_default()
    })
}

fn kind<E: std::fmt::Debug>(e: E) -> String {
    format!("{e:?}")
}

fn maze_of(grid: &[pu::MazeNode], path: &[pu::MazeDirection]) -> Maze {
    Maze {
        cells: grid.iter().map(cells::cell).collect(),
        path: path.iter().map(cells::direction).collect(),
    }
}

fn picture(i: &pu::RgbBuffer) -> Picture {
    Picture {
        w: i.width(),
        h: i.height(),
        raw: i.as_raw().clone(),
    }
}

fn image(r: &Result<pu::RgbBuffer, String>) -> Result<(u64, u64), String> {
    r.as_ref()
        .map(|i| {
            (
                u64::from(i.width()) << 32 | u64::from(i.height()),
                hash(i.as_raw()),
            )
        })
        .map_err(Clone::clone)
}

fn create(w: usize, h: usize) -> (Vec<pu::MazeNode>, Vec<pu::MazeDirection>) {
    pu::create_maze(w, h, pu::MazeAlgorithm::RecursiveBacktrack)
}

fn wear(what: Small, n: usize) -> Out {
    let done: Vec<u8> = (0..81usize)
        .map(|i| ((i / 9 * 3 + i / 27 + i % 9) % 9) as u8 + 1)
        .collect();
    let mut bad = done.clone();
    bad[80] = bad[79];
    let col = vec![vec![2], vec![1]];
    let short = vec![vec![2], vec![2]];
    for k in 0..n {
        sched::progress();
        let r = under_test(|| match what {
            Small::Maze(w, h) => {
                let (grid, path) = create(w, h);
                Ok(Some((grid, path, w, h)))
            }
            Small::Sudoku => match pu::solve_sudoku(&done) {
                Ok(r) if r[..] == done[..] => Ok(None),
                r => Err(format!("{r:?}")),
            },
            Small::BadSudoku => match pu::solve_sudoku(&bad) {
                Err(pu::SudokuError::NoSolution) => Ok(None),
                r => Err(format!("{r:?}")),
            },
            Small::Nonogram => match pu::solve_nonogram(&col, &col) {
                Ok(r) if r[..] == [true, true, true, false] => Ok(None),
                r => Err(format!("{r:?}")),
            },
            Small::BadNonogram => match pu::solve_nonogram(&col, &short) {
                Err(pu::NonogramError::NoSolution) => Ok(None),
                r => Err(format!("{r:?}")),
            },
        });
        let wrong = match r {
            Err(p) => Some(format!("panicked: {p}")),
            Ok(Err(e)) => Some(e),
            Ok(Ok(None)) => None,
            Ok(Ok(Some((grid, path, w, h)))) => {
                let m = maze_of(&grid, &path);
                crate::model_maze::perfect(w, h, &m)
                    .and_then(|()| crate::model_maze::path(w, h, &m))
                    .err()
            }
        };
        if let Some(e) = wrong {
            return Out::Worn(Some(format!("repetition {k}: {e}")));
        }
    }
    Out::Worn(None)
}

pub fn execute(op: &Op) -> Out {
    match op {
        Op::Maze { w, h } => match under_test(|| create(*w, *h)) {
            Ok((grid, path)) => Out::Maze(maze_of(&grid, &path)),
            Err(p) => Out::Panic(p),
        },
        Op::MazeDraw { w, h } => match under_test(|| create(*w, *h)) {
            Ok((grid, path)) => {
                let maze = maze_of(&grid, &path);
                let first = under_test(|| pu::print_maze(*w as u32, *h as u32, &grid));
                match first {
                    Err(p) => Out::Panic(p),
                    Ok(Err(e)) => Out::MazeDraw(maze, Err(kind(e))),
                    Ok(Ok(plain)) => {
                        let plain_picture = picture(&plain);
                        match under_test(|| pu::print_maze_solution(plain, &path)) {
                            Err(p) => Out::Panic(p),
                            Ok(solved) => Out::MazeDraw(
                                maze,
                                Ok((plain_picture, solved.map(|i| picture(&i)).map_err(kind))),
                            ),
                        }
                    }
                }
            }
            Err(p) => Out::Panic(p),
        },
        Op::MazeMany { w, h, n } => {
            let small = w * h <= 30;
            let mut codes = Vec::new();
            let mut grids = Vec::new();
            for _ in 0..*n {
                match under_test(|| create(*w, *h)) {
                    Ok((grid, _)) => {
                        let cells: Vec<_> = grid.iter().map(cells::cell).collect();
                        if small {
                            codes.push(code(&cells, *w));
                        } else {
                            grids.push(cells);
                        }
                    }
                    Err(p) => return Out::Panic(p),
                }
            }
            if small {
                Out::Codes(codes)
            } else {
                Out::Grids(grids)
            }
        }
        Op::Sudoku { cells } => match under_test(|| pu::solve_sudoku(cells)) {
            Ok(r) => Out::Cells(r.map(|v| v.to_vec()).map_err(kind)),
            Err(p) => Out::Panic(p),
        },
        Op::SudokuText { text } => match under_test(|| pu::parse_sudoku(text)) {
            Ok(Ok(cells)) => match under_test(|| pu::solve_sudoku(&cells)) {
                Ok(r) => Out::Cells(r.map(|v| v.to_vec()).map_err(kind)),
                Err(p) => Out::Panic(p),
            },
            Ok(Err(e)) => Out::Cells(Err(kind(e))),
            Err(p) => Out::Panic(p),
        },
        Op::SudokuPrint { cells } => match under_test(|| pu::print_sudoku(cells)) {
            Ok(r) => Out::Image(image(&r.map_err(kind))),
            Err(p) => Out::Panic(p),
        },
        Op::Nonogram { col, row } => match under_test(|| pu::solve_nonogram(col, row)) {
            Ok(r) => Out::Squares(r.map(|v| v.to_vec()).map_err(kind)),
            Err(p) => Out::Panic(p),
        },
        Op::NonogramText { col, row, w, h } => {
            let parsed = under_test(|| {
                (
                    pu::parse_nonogram_rules(col, *h),
                    pu::parse_nonogram_rules(row, *w),
                )
            });
            match parsed {
                Err(p) => Out::Panic(p),
                Ok((Ok(c), Ok(r))) => match under_test(|| pu::solve_nonogram(&c, &r)) {
                    Ok(r) => Out::Squares(r.map(|v| v.to_vec()).map_err(kind)),
                    Err(p) => Out::Panic(p),
                },
                Ok((c, r)) => Out::Squares(Err(kind((c.err(), r.err())))),
            }
        }
        Op::NonogramPrint { col, row, grid } => {
            let (w, h) = (col.len() as u32, row.len() as u32);
            match under_test(|| {
                pu::print_nonogram(w, h, col, row)
                    .and_then(|i| pu::print_nonogram_solution(w, h, i, grid))
            }) {
                Ok(r) => Out::Image(image(&r.map_err(kind))),
                Err(p) => Out::Panic(p),
            }
        }
        Op::Wear { what, n } => wear(*what, *n),
        Op::Png { w, h, seed } => {
            let mut r = crate::rng::Rng::new(*seed);
            let raw: Vec<u8> = (0..*w * *h * 3)
                .map(|_| if r.below(3) == 0 { r.next() as u8 } else { 255 })
                .collect();
            let img = pu::RgbBuffer::from_raw(*w, *h, raw).expect("size fits");
            match under_test(|| pu::image_to_png_bytes(&img)) {
                Ok(Ok(b)) => Out::Image(Ok((b.len() as u64, hash(&b)))),
                Ok(Err(e)) => Out::Image(Err(kind(e))),
                Err(p) => Out::Panic(p),
            }
        }
        #[cfg(feature = "engine")]
        Op::Cover { cons, adds, solve } => {
            use pu::vp_sim::{DancingLinksError, DancingMatrix};
            fn name(e: &DancingLinksError) -> &'static str {
                match e {
                    DancingLinksError::IndexError => "index",
                    DancingLinksError::InvalidRow => "rejected",
                    DancingLinksError::NoSolution => "nosolution",
                }
            }
            let mut m = match under_test(|| DancingMatrix::new(cons.iter().map(|c| c.iter()))) {
                Ok(m) => m,
                Err(p) => return Out::Panic(p),
            };
            let mut added = Vec::new();
            for a in adds {
                match under_test(|| m.add_solution(*a)) {
                    Ok(Ok(())) => added.push("ok"),
                    Ok(Err(e)) => added.push(name(&e)),
                    Err(p) => return Out::Panic(p),
                }
            }
            if *solve {
                match under_test(move || m.solve()) {
                    Ok(r) => Out::Cover(
                        added,
                        Some(r.map(|v| v.to_vec()).map_err(|e| name(&e).to_string())),
                    ),
                    Err(p) => Out::Panic(p),
                }
            } else {
                match under_test(move || drop(m)) {
                    Ok(()) => Out::Cover(added, None),
                    Err(p) => Out::Panic(p),
                }
            }
        }
    }
}

/// Inner passages of a small maze as bits (the exit does not count).
pub fn code(cells: &[(bool, bool)], w: usize) -> u64 {
    let n = cells.len();
    let mut code = 1u64;
    for (i, (r, d)) in cells.iter().enumerate() {
        code = code << 1 | u64::from(!*r);
        code = code << 1 | u64::from(!*d && i + w < n);
    }
    code
}

/// Random words a call may draw: generous, so that it bounds progress and not a particular algorithm.
fn word_limit(op: &Op) -> u64 {
    let cells = match op {
        Op::Maze { w, h } | Op::MazeDraw { w, h } => w * h,
        Op::MazeMany { w, h, n } => w * h * n,
        Op::Wear { n, .. } => 8 * n,
        _ => 0,
    };
    400 * cells as u64 + 4096
}

/// Performs one call of a simulated caller and records it.
pub fn perform(call: &Call, round: usize) -> Event {
    sched::yield_point();
    let s = sched::get();
    let src = source();
    src.call = call.id;
    src.mode = &call.words;
    src.n = 0;
    src.last = 0;
    src.drawn = 0;
    src.limit = word_limit(&call.op);
    match call.words {
        Words::Uniform => (),
        Words::Production => shm::count(C::fault_production_rng),
        _ => shm::count(C::fault_extreme_words),
    }
    let begin = s.steps;
    let refused = crate::seams::refused();
    shm::count(C::calls);
    shm::log(30, sched::caller() as u64, call.id as u64);
    trace!(
        "  [step {begin}] caller {} round {round} call {}: {:.400}",
        sched::caller(),
        call.id,
        format!("{:?} words {:?}", call.op, call.words)
    );
    let out = execute(&call.op);
    let end = sched::get().steps;
    shm::log(31, call.id as u64, out_hash(&out));
    trace!(
        "  [step {end}] caller {} call {} returned {}",
        sched::caller(),
        call.id,
        brief(&out)
    );
    Event {
        caller: sched::caller(),
        round,
        call: call.id,
        begin,
        end,
        refused: crate::seams::refused() - refused,
        words: source().drawn,
        out,
    }
}
