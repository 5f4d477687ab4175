//! Random calls. Value 0 of every choice is the simplest.

use crate::{
    model_nonogram as mn, model_sudoku as ms,
    ops::{Call, Op, Small, Words},
    shm::{self, C},
    tape::{chance, draw, range, weighted, OPS},
};

pub fn dims(cap: usize) -> (usize, usize) {
    let (w, h) = match weighted(OPS, &[8, 2, 2, 5, 2, 1]) {
        0 => (range(OPS, 1, 6), range(OPS, 1, 6)),
        1 => (1, range(OPS, 1, 40)),
        2 => (range(OPS, 1, 40), 1),
        3 => (range(OPS, 2, 24), range(OPS, 2, 24)),
        4 => {
            let long = range(OPS, 30, 300);
            let short = range(OPS, 1, 5);
            if draw(OPS, 2) == 0 {
                (long, short)
            } else {
                (short, long)
            }
        }
        _ => (range(OPS, 20, 120), range(OPS, 20, 120)),
    };
    let (w, mut h) = (w as usize, h as usize);
    while w * h > cap && h > 1 {
        h = (h / 2).max(1);
    }
    if w == 1 {
        shm::count(C::probe_one_wide);
    }
    if h == 1 {
        shm::count(C::probe_one_high);
    }
    (w.min(cap), h)
}

/// Dimensions around and beyond 2^16 cells or pixels.
pub fn huge(pixels: bool) -> (usize, usize) {
    let (a, b) = match draw(OPS, 5) {
        0 => (range(OPS, 200, 330), range(OPS, 200, 330)),
        // sides beyond 2^15 and 2^16
        4 if !pixels => (2, if draw(OPS, 2) == 0 { range(OPS, 33_000, 40_000) } else { 65_535 + draw(OPS, 3) }),
        1 => (1, if pixels { range(OPS, 3_000, 7_000) } else { range(OPS, 60_000, 120_000) }),
        2 => (range(OPS, 2, 5), range(OPS, 6_500, 20_000)),
        _ => (256 + draw(OPS, 2), 256 + draw(OPS, 2)),
    };
    if draw(OPS, 2) == 0 {
        (a as usize, b as usize)
    } else {
        (b as usize, a as usize)
    }
}

pub fn words(production: bool) -> Words {
    let odd = |n: u64| match n {
        0 => 0,
        1 => u32::MAX,
        2 => 0x4000_0000,
        3 => 0x8000_0000,
        4 => 0xC000_0000,
        5 => 0x7FFF_FFFF,
        _ => draw(OPS, 1 << 32) as u32,
    };
    match weighted(OPS, &[5, 2, 2, 1, if production { 2 } else { 0 }]) {
        0 => Words::Uniform,
        1 => Words::Constant(odd(draw(OPS, 8))),
        2 => {
            let n = range(OPS, 2, 6);
            Words::Cycle((0..n).map(|_| odd(draw(OPS, 8))).collect())
        }
        3 => Words::Sticky(range(OPS, 2, 9)),
        _ => Words::Production,
    }
}

fn has_direct_conflict(cells: &[u8]) -> bool {
    for i in 0..81 {
        for j in 0..i {
            let same = i / 9 == j / 9
                || i % 9 == j % 9
                || (i / 27 == j / 27 && i % 9 / 3 == j % 9 / 3);
            if same && cells[i] != 0 && cells[i] == cells[j] {
                return true;
            }
        }
    }
    false
}

/// A sudoku and whether it is solvable.
pub fn sudoku() -> (Vec<u8>, Option<bool>) {
    let seed = draw(OPS, 1 << 48);
    let kind = weighted(OPS, &[8, 3, 3, 8, 5, 2, 2, 1, 1]);
    let mut cells: Vec<u8> = match kind {
        1 => ms::hard(seed),
        6 | 7 => {
            if kind == 6 {
                shm::count(C::probe_sudoku_complete);
                ms::random_grid(seed).to_vec()
            } else {
                vec![0; 81]
            }
        }
        _ => ms::random_grid(seed).to_vec(),
    };
    if matches!(kind, 0 | 2 | 3 | 4 | 5 | 8) {
        let keep = match draw(OPS, 4) {
            0 => 26,
            1 => 34,
            2 => range(OPS, 17, 60),
            _ => range(OPS, 0, 81),
        };
        for c in &mut cells {
            if draw(OPS, 81) < 81 - keep {
                *c = 0;
            }
        }
    }
    match kind {
        2 => {
            // few clues that need not come from any grid
            let n = range(OPS, 1, 20);
            cells = vec![0; 81];
            for _ in 0..n {
                let i = draw(OPS, 81) as usize;
                let old = cells[i];
                cells[i] = 1 + draw(OPS, 9) as u8;
                if has_direct_conflict(&cells) {
                    cells[i] = old;
                }
            }
        }
        3 => {
            // direct contradictions
            for _ in 0..range(OPS, 1, 3) {
                let i = draw(OPS, 81) as usize;
                if cells[i] == 0 {
                    cells[i] = 1 + draw(OPS, 9) as u8;
                }
                let k = draw(OPS, 9) as usize;
                let j = match draw(OPS, 3) {
                    0 => {
                        shm::count(C::probe_sudoku_dup_row);
                        i / 9 * 9 + k
                    }
                    1 => {
                        shm::count(C::probe_sudoku_dup_col);
                        k * 9 + i % 9
                    }
                    _ => {
                        shm::count(C::probe_sudoku_dup_box);
                        i / 27 * 27 + i % 9 / 3 * 3 + k / 3 * 9 + k % 3
                    }
                };
                cells[j] = cells[i];
            }
        }
        4 => {
            // wrong values that need not show at once
            for _ in 0..range(OPS, 1, 3) {
                let i = draw(OPS, 81) as usize;
                let old = cells[i];
                cells[i] = 1 + draw(OPS, 9) as u8;
                if draw(OPS, 4) != 3 && has_direct_conflict(&cells) {
                    cells[i] = old;
                }
            }
        }
        5 => {
            shm::count(C::probe_sudoku_bad_value);
            for _ in 0..range(OPS, 1, 2) {
                let i = draw(OPS, 81) as usize;
                cells[i] = match draw(OPS, 4) {
                    0 => 10,
                    1 => 255,
                    2 => 9 + draw(OPS, 20) as u8,
                    _ => range(OPS, 10, 255) as u8,
                };
            }
        }
        8 => {
            shm::count(C::probe_sudoku_bad_size);
            let n = match draw(OPS, 5) {
                0 => 80,
                1 => 82,
                2 => 0,
                3 => 9 * range(OPS, 0, 20) as usize,
                _ => draw(OPS, 200) as usize,
            };
            cells.resize(n, 0);
            for c in &mut cells {
                if draw(OPS, 40) == 39 {
                    *c = draw(OPS, 12) as u8;
                }
            }
        }
        _ => (),
    }
    if cells.len() != 81 {
        return (cells, None);
    }
    let (verdict, many, nodes) = ms::judge(&cells);
    match verdict {
        ms::Verdict::Unknown => {
            // too long a search to wait for
            cells = ms::random_grid(seed).to_vec();
            (cells, Some(true))
        }
        ms::Verdict::Solvable => {
            shm::count(if many {
                C::probe_sudoku_ambiguous
            } else {
                C::probe_sudoku_unique
            });
            (cells, Some(true))
        }
        ms::Verdict::Unsolvable => {
            if nodes > 10 {
                shm::count(C::probe_sudoku_unsolvable_deep);
            }
            (cells, Some(false))
        }
    }
}

fn nonogram_once(cap: u64) -> (mn::Rules, mn::Rules, bool) {
    let (w, h) = match weighted(OPS, &[24, 12, 8, 8, if cap > 11 { 6 } else { 0 }]) {
        0 => (range(OPS, 1, 5), range(OPS, 1, 5)),
        // lines longer than a machine word, and than a byte can count
        4 => {
            shm::count(C::probe_nonogram_long_line);
            let a = match draw(OPS, 3) {
                0 => range(OPS, 30, 70),
                1 => range(OPS, 60, 140),
                _ => range(OPS, 250, 300),
            };
            if draw(OPS, 2) == 0 {
                (a, range(OPS, 1, 2))
            } else {
                (range(OPS, 1, 2), a)
            }
        }
        1 => (range(OPS, 2, 8), range(OPS, 2, 8)),
        2 => {
            let a = range(OPS, 1, cap);
            if draw(OPS, 2) == 0 {
                (a, range(OPS, 1, 2))
            } else {
                (range(OPS, 1, 2), a)
            }
        }
        _ => (range(OPS, cap.min(6), cap), range(OPS, cap.min(6), cap)),
    };
    let (w, h) = (w as usize, h as usize);
    let density = match draw(OPS, 4) {
        0 => 55,
        1 => range(OPS, 0, 100),
        2 => 35,
        _ if w * h > 200 && draw(OPS, 2) == 1 => 100,
        _ => 70,
    };
    let grid: Vec<bool> = (0..w * h).map(|_| draw(OPS, 100) >= 100 - density).collect();
    let (mut col, mut row) = mn::rules_of(w, h, &grid);
    let kind = weighted(OPS, &[8, 6, 1, 1]);
    match kind {
        1 => {
            for _ in 0..range(OPS, 1, 3) {
                let side = draw(OPS, 2);
                let lines = if side == 0 { &mut col } else { &mut row };
                let n = lines.len() as u64;
                let i = draw(OPS, n) as usize;
                match draw(OPS, 6) {
                    0 => {
                        let j = draw(OPS, n) as usize;
                        lines.swap(i, j);
                    }
                    1 => {
                        let k = draw(OPS, lines[i].len() as u64) as usize;
                        lines[i][k] += 1;
                    }
                    2 => {
                        let k = draw(OPS, lines[i].len() as u64) as usize;
                        if lines[i][k] > 1 {
                            lines[i][k] -= 1;
                        }
                    }
                    3 => lines[i].push(1),
                    4 => {
                        if lines[i].len() > 1 {
                            lines[i].pop();
                        } else {
                            lines[i] = vec![0];
                        }
                    }
                    _ => lines[i].reverse(),
                }
                for l in [&mut col, &mut row] {
                    for r in l {
                        if r.len() > 1 {
                            r.retain(|v| *v > 0);
                        }
                    }
                }
            }
        }
        2 => {
            // an empty line written as no rules at all
            for l in [&mut col, &mut row] {
                for r in l {
                    if *r == [0] && draw(OPS, 2) == 1 {
                        r.clear();
                    }
                }
            }
        }
        3 => match draw(OPS, 3) {
            0 => col.clear(),
            1 => row.clear(),
            _ => {
                col.clear();
                row.clear();
            }
        },
        _ => (),
    }
    (col, row, kind == 0 || kind == 2)
}

/// Whether the nonogram has a solution; `None` if some order of guessing takes too long to wait for
/// (where the code guesses first is its own business).
fn judged(col: &mn::Rules, row: &mn::Rules) -> (mn::Judged, Option<bool>) {
    let j = mn::judge(col, row, 250, mn::ORDERS[0]);
    let long = col.len().max(row.len()) > 40;
    let wait = !(long && j.nodes > 2)
        && (j.nodes <= 4
            || mn::ORDERS[1..]
                .iter()
                .all(|o| mn::judge(col, row, 400, *o).solvable == j.solvable));
    let known = if wait { j.solvable } else { None };
    (j, known)
}

/// A nonogram and whether it is solvable.
pub fn nonogram(cap: u64) -> (mn::Rules, mn::Rules, Option<bool>) {
    let (col, row, from_grid) = nonogram_once(cap);
    if col.is_empty() || row.is_empty() {
        shm::count(C::probe_nonogram_empty);
        return (col, row, None);
    }
    let (j, known) = judged(&col, &row);
    let Some(solvable) = known else {
        // too long a search to wait for
        return (vec![vec![1]], vec![vec![1]], Some(true));
    };
    if from_grid && !solvable {
        shm::harness_error(format_args!("nonogram model refuses {col:?} {row:?}"));
    }
    if col.len() * row.len() <= 25 && !from_grid {
        if let Some(e) = mn::exhaustive(&col, &row, 20_000) {
            if e != solvable {
                shm::harness_error(format_args!("nonogram models disagree on {col:?} {row:?}"));
            }
        }
    }
    if j.nodes > 1 {
        shm::count(C::probe_nonogram_search);
    }
    if j.wrong_guesses > 0 {
        shm::count(C::probe_nonogram_wrong_guess_possible);
    }
    if !solvable {
        shm::count(C::probe_nonogram_unsolvable);
    }
    if col.iter().chain(&row).any(|r| r.iter().all(|v| *v == 0)) {
        shm::count(C::probe_nonogram_zero_rule);
    }
    if col.len() * row.len() >= 100 {
        shm::count(C::probe_nonogram_large);
    }
    (col, row, Some(solvable))
}

fn text_of(rules: &mn::Rules) -> String {
    rules
        .iter()
        .map(|r| {
            r.iter()
                .map(ToString::to_string)
                .collect::<Vec<_>>()
                .join(",")
        })
        .collect::<Vec<_>>()
        .join(";")
}

pub fn maze(cap: usize) -> Op {
    let (w, h) = dims(cap);
    Op::Maze { w, h }
}

pub fn maze_draw(cap: usize) -> Op {
    let (w, h) = dims(cap);
    Op::MazeDraw { w, h }
}

pub fn hardest_sudoku_op() -> (Op, Option<bool>) {
    shm::count(C::probe_sudoku_long_search);
    let (cells, solvable) = ms::hardest(draw(OPS, 1 << 48));
    (Op::Sudoku { cells }, Some(solvable))
}

pub fn sudoku_op() -> (Op, Option<bool>) {
    let (cells, known) = sudoku();
    (Op::Sudoku { cells }, known)
}

pub fn nonogram_op(cap: u64) -> (Op, Option<bool>) {
    let (col, row, known) = nonogram(cap);
    (Op::Nonogram { col, row }, known)
}

/// A call that panics: a maze without columns or rows.
pub fn panicking() -> Op {
    shm::count(C::fault_neighbour_panic);
    match draw(OPS, 3) {
        0 => Op::Maze { w: 0, h: 0 },
        1 => Op::Maze { w: 0, h: 3 },
        _ => Op::Maze { w: 3, h: 0 },
    }
}

/// A cheap call of any kind but drawing.
pub fn neighbour() -> (Op, Option<bool>) {
    match weighted(OPS, &[4, 3, 3, 3]) {
        0 => (maze(60), None),
        1 => nonogram_op(7),
        2 => sudoku_op(),
        _ => (panicking(), None),
    }
}

/// Tens of thousands of calls.
pub fn wear(maze: bool, sudoku: bool, nonogram: bool) -> Op {
    shm::count(C::probe_worn);
    let mut what = Vec::new();
    if maze {
        what.push(Small::Maze(1 + draw(OPS, 3) as usize, 1 + draw(OPS, 2) as usize));
    }
    if nonogram {
        what.push(Small::Nonogram);
        what.push(Small::BadNonogram);
    }
    if sudoku {
        what.push(Small::Sudoku);
        what.push(Small::BadSudoku);
    }
    let what = what[draw(OPS, what.len() as u64) as usize];
    let most = match what {
        Small::Maze(..) => 17,
        Small::Sudoku => 12,
        Small::BadSudoku => 13,
        _ => 17,
    };
    let k = range(OPS, 8, most);
    let n = (1 << (k - 1)) + draw(OPS, 1 << (k - 1)) as usize;
    Op::Wear { what, n }
}

/// Any call of the public interface.
pub fn any() -> (Op, Option<bool>) {
    match weighted(OPS, &[5, 5, 7, 3, 2, 2, 1, 1, 2, 2]) {
        0 => (maze(400), None),
        1 => sudoku_op(),
        2 => {
            let cap = if chance(OPS, 1, 4) { 20 } else { 10 };
            nonogram_op(cap)
        }
        3 => (maze_draw(60), None),
        4 => {
            let (cells, _) = sudoku();
            let mut text: String = cells
                .iter()
                .map(|c| char::from_digit(u32::from(*c), 10).unwrap_or('x'))
                .collect();
            if chance(OPS, 1, 4) && !text.is_empty() {
                let i = draw(OPS, text.len() as u64) as usize;
                let c = ['.', ' ', 'é', '٣', '-'][draw(OPS, 5) as usize];
                text.replace_range(i..=i, &c.to_string());
            }
            (Op::SudokuText { text }, None)
        }
        5 => {
            let (col, row, _) = nonogram(8);
            let mut w = col.len();
            let mut h = row.len();
            if chance(OPS, 1, 6) {
                w = w.saturating_sub(1);
            }
            if chance(OPS, 1, 6) {
                h = h.saturating_sub(1);
            }
            (
                Op::NonogramText {
                    col: text_of(&col),
                    row: text_of(&row),
                    w,
                    h,
                },
                None,
            )
        }
        6 => {
            let (cells, _) = sudoku();
            (Op::SudokuPrint { cells }, None)
        }
        7 => {
            let (mut col, mut row, _) = nonogram(5);
            if chance(OPS, 1, 5) {
                // rules of two digits
                let n = range(OPS, 10, 45) as usize;
                let m = range(OPS, 1, 2) as usize;
                let grid: Vec<bool> = (0..n * m).map(|_| draw(OPS, 100) >= 8).collect();
                (col, row) = if draw(OPS, 2) == 0 {
                    mn::rules_of(n, m, &grid)
                } else {
                    mn::rules_of(m, n, &grid)
                };
            }
            let mut n = col.len() * row.len();
            if chance(OPS, 1, 6) {
                n += 1;
            }
            let grid = (0..n).map(|_| draw(OPS, 2) == 1).collect();
            (Op::NonogramPrint { col, row, grid }, None)
        }
        8 => (
            Op::Png {
                w: range(OPS, 1, 40) as u32,
                h: range(OPS, 1, 40) as u32,
                seed: draw(OPS, 1 << 40),
            },
            None,
        ),
        _ => (panicking(), None),
    }
}

/// A call that resembles an earlier one: caches and leftovers show on these.
pub fn similar(to: &Call) -> (Op, Option<bool>) {
    if matches!(to.op, Op::Wear { .. }) {
        return any();
    }
    let mut op = to.op.clone();
    let mut known = to.known;
    if draw(OPS, 2) == 0 {
        return (op, known);
    }
    match &mut op {
        Op::Maze { w, h } | Op::MazeDraw { w, h } => {
            match draw(OPS, 4) {
                0 => std::mem::swap(w, h),
                // as many cells
                1 if *w % 2 == 0 => (*w, *h) = (*w / 2, *h * 2),
                2 if *h % 2 == 0 => (*w, *h) = (*w * 2, *h / 2),
                _ => *w += 1,
            }
        }
        Op::Sudoku { cells } if cells.len() == 81 => {
            let before = cells.clone();
            let (i, j) = (draw(OPS, 81) as usize, draw(OPS, 81) as usize);
            match draw(OPS, 5) {
                0 => cells[i] = draw(OPS, 10) as u8,
                // the same digits at other places
                1 => cells.swap(i, j),
                // the same puzzle under other names
                2 => {
                    let (a, b) = (1 + (i % 9) as u8, 1 + (j % 9) as u8);
                    for v in cells.iter_mut() {
                        *v = match *v {
                            v if v == a => b,
                            v if v == b => a,
                            v => v,
                        };
                    }
                }
                3 => {
                    for k in 0..81 {
                        cells[k] = before[k % 9 * 9 + k / 9];
                    }
                }
                _ => {
                    let band = i % 3 * 3;
                    for c in 0..9 {
                        cells.swap((band + j % 3) * 9 + c, (band + j / 3 % 3) * 9 + c);
                    }
                }
            }
            let (v, _, _) = ms::judge(cells);
            known = match v {
                ms::Verdict::Unknown => {
                    *cells = before;
                    known
                }
                v => Some(v == ms::Verdict::Solvable),
            };
        }
        Op::Nonogram { col, row } if !col.is_empty() && !row.is_empty() && draw(OPS, 2) == 0 => {
            // a puzzle of the same length with a line that shares its number of blocks and squares
            let upright = col.len() < row.len();
            let (lines, n) = if upright {
                (&*col, row.len())
            } else {
                (&*row, col.len())
            };
            let mut rule = lines[draw(OPS, lines.len() as u64) as usize].clone();
            rule.retain(|v| *v > 0);
            if rule.len() > 1 {
                let i = draw(OPS, rule.len() as u64) as usize;
                let j = draw(OPS, rule.len() as u64) as usize;
                if draw(OPS, 3) > 0 || rule[i] == 1 {
                    rule.swap(i, j);
                } else {
                    rule[i] -= 1;
                    rule[j] += 1;
                }
            }
            let used = (rule.iter().sum::<usize>() + rule.len()).saturating_sub(1);
            if used <= n {
                let mut spare = (n - used) as u64;
                let mut picture = Vec::new();
                for (k, v) in rule.iter().enumerate() {
                    let gap = draw(OPS, spare + 1);
                    spare -= gap;
                    picture.extend(vec![false; gap as usize + usize::from(k > 0)]);
                    picture.extend(vec![true; *v]);
                }
                picture.resize(n, false);
                let (c, r) = mn::rules_of(n, 1, &picture);
                (*col, *row) = if upright { (r, c) } else { (c, r) };
                known = Some(true);
            }
        }
        Op::Nonogram { col, row } if !col.is_empty() && !row.is_empty() => {
            let before = (col.clone(), row.clone());
            if draw(OPS, 2) == 0 {
                std::mem::swap(col, row);
            } else {
                let i = draw(OPS, row.len() as u64) as usize;
                let j = draw(OPS, row.len() as u64) as usize;
                row.swap(i, j);
            }
            match judged(col, row).1 {
                Some(v) => known = Some(v),
                None => (*col, *row) = before,
            }
        }
        Op::SudokuPrint { cells } if !cells.is_empty() => {
            let i = draw(OPS, cells.len() as u64) as usize;
            cells[i] = draw(OPS, 10) as u8;
        }
        Op::NonogramPrint { col, row, .. } if !col.is_empty() && draw(OPS, 3) > 0 => {
            // numbers that agree in their low bits
            let lines = if row.is_empty() || draw(OPS, 2) == 0 { col } else { row };
            let i = draw(OPS, lines.len() as u64) as usize;
            let by = 1 << range(OPS, 0, 9);
            match lines[i].first_mut() {
                Some(n) if *n > by && draw(OPS, 2) == 0 => *n -= by,
                Some(n) => *n += by,
                None => lines[i].push(by),
            }
        }
        Op::NonogramPrint { grid, .. } if !grid.is_empty() => {
            let i = draw(OPS, grid.len() as u64) as usize;
            grid[i] = !grid[i];
        }
        Op::Png { seed, .. } => *seed += 1,
        _ => (),
    }
    (op, known)
}

#[cfg(feature = "engine")]
pub fn cover() -> Op {
    if chance(OPS, 1, 8) {
        if let Some(op) = deep_cover() {
            shm::count(C::probe_cover_deep);
            return op;
        }
    }
    if chance(OPS, 1, 20) {
        return tall_cover();
    }
    // how the rows are chosen decides how much can be solved
    let big = chance(OPS, 1, 6);
    let (ncons, nrows) = if big {
        (range(OPS, 6, 24) as usize, range(OPS, 6, 40) as usize)
    } else {
        (range(OPS, 0, 6) as usize, range(OPS, 1, 9) as usize)
    };
    let mut cons: Vec<Vec<usize>> = vec![Vec::new(); ncons];
    let mut row = 0;
    if ncons > 0 {
        if chance(OPS, 3, 4) {
            // a planted exact cover
            let mut left: Vec<usize> = (0..ncons).collect();
            crate::tape::shuffle(OPS, &mut left);
            while !left.is_empty() {
                let n = (1 + draw(OPS, 4)).min(left.len() as u64) as usize;
                for c in left.drain(..n) {
                    cons[c].push(row);
                }
                row += 1 + usize::from(chance(OPS, 1, 12));
            }
        }
        while row < nrows {
            let percent = [20, 35, 60][draw(OPS, 3) as usize];
            for c in &mut cons {
                if draw(OPS, 100) >= 100 - percent {
                    c.push(row);
                }
            }
            row += 1;
        }
        // names of rows and orders within a constraint are arbitrary
        if chance(OPS, 1, 2) {
            let mut names: Vec<usize> = (0..row + draw(OPS, 3) as usize).collect();
            crate::tape::shuffle(OPS, &mut names);
            for c in &mut cons {
                for r in c.iter_mut() {
                    *r = names[*r];
                }
                if draw(OPS, 3) == 0 {
                    c.sort_unstable();
                } else {
                    crate::tape::shuffle(OPS, c);
                }
            }
        }
    }
    let model = crate::model_cover::Model::new(&cons);
    let mut adds = Vec::new();
    let n = match draw(OPS, 4) {
        0 => 0,
        1 => range(OPS, 1, 2),
        _ => range(OPS, 0, 6),
    };
    for _ in 0..n {
        let a = match weighted(OPS, &[10, 1, 1]) {
            0 => draw(OPS, model.rows.len().max(1) as u64) as usize,
            1 => model.rows.len() + draw(OPS, 3) as usize,
            _ => usize::MAX - draw(OPS, 2) as usize,
        };
        adds.push(a);
    }
    Op::Cover {
        cons,
        adds,
        solve: !chance(OPS, 1, 5),
    }
}

/// Few constraints with hundreds of rows each.
#[cfg(feature = "engine")]
fn tall_cover() -> Op {
    shm::count(C::probe_cover_tall);
    let ncons = range(OPS, 1, 6) as usize;
    let nrows = [range(OPS, 100, 300), 255 + draw(OPS, 3), range(OPS, 300, 800)][draw(OPS, 3) as usize];
    let percent = [100, 60, 30][draw(OPS, 3) as usize];
    let mut cons: Vec<Vec<usize>> = vec![Vec::new(); ncons];
    for row in 0..nrows as usize {
        for c in &mut cons {
            if draw(OPS, 100) < percent {
                c.push(row);
            }
        }
    }
    // some rows cover one constraint only, so that searches end soon
    for c in 0..ncons {
        for k in 0..draw(OPS, 3) as usize {
            let at = draw(OPS, cons[c].len() as u64 + 1) as usize;
            cons[c].insert(at, nrows as usize + 3 * c + k);
        }
    }
    if draw(OPS, 4) == 3 {
        let at = draw(OPS, ncons as u64 + 1) as usize;
        cons.insert(at, Vec::new());
    }
    let mut adds = Vec::new();
    for _ in 0..draw(OPS, 4) {
        adds.push(draw(OPS, nrows + 20) as usize);
    }
    let model = crate::model_cover::Model::new(&cons);
    let (_, _, covered) = model.add(&adds);
    let solve = model.solvable(covered, &mut 2_000).is_some() && !chance(OPS, 1, 5);
    Op::Cover { cons, adds, solve }
}

/// Many constraints and small rows, so that a search goes deep before it turns back.
#[cfg(feature = "engine")]
fn deep_cover() -> Option<Op> {
    let mut rows: Vec<Vec<usize>> = Vec::new();
    let ncons;
    if draw(OPS, 2) == 0 {
        // pieces laid side by side
        ncons = range(OPS, 20, 60) as usize;
        let mut at = 0;
        while at < ncons {
            let n = (1 + draw(OPS, 3) as usize).min(ncons - at);
            rows.push((at..at + n).collect());
            at += n;
        }
        let reach = range(OPS, 1, 8);
        for _ in 0..ncons as u64 * range(OPS, 2, 12) / 8 {
            let first = draw(OPS, ncons as u64) as usize;
            let mut row = vec![first];
            for _ in 0..draw(OPS, 3) {
                let next = (first + 1 + draw(OPS, reach) as usize) % ncons;
                if !row.contains(&next) {
                    row.push(next);
                }
            }
            rows.push(row);
        }
    } else {
        // squares in which every line holds every symbol
        let k = range(OPS, 3, 5) as usize;
        ncons = 3 * k * k;
        for r in 0..k {
            for c in 0..k {
                for v in 0..k {
                    rows.push(vec![r * k + c, k * k + r * k + v, 2 * k * k + c * k + v]);
                }
            }
        }
    }
    // some are missing
    let gone = draw(OPS, 30);
    if draw(OPS, 2) == 1 {
        rows.retain(|_| draw(OPS, 100) >= gone);
    }
    crate::tape::shuffle(OPS, &mut rows);
    let mut cons: Vec<Vec<usize>> = vec![Vec::new(); ncons];
    for (i, row) in rows.iter().enumerate() {
        for c in row {
            cons[*c].push(i);
        }
    }
    if draw(OPS, 2) == 1 {
        crate::tape::shuffle(OPS, &mut cons);
    }
    let mut adds = Vec::new();
    if !rows.is_empty() {
        for _ in 0..[0, 0, 2, 8][draw(OPS, 4) as usize] {
            adds.push(draw(OPS, rows.len() as u64) as usize);
        }
    }
    let model = crate::model_cover::Model::new(&cons);
    let (_, _, covered) = model.add(&adds);
    model.solvable(covered, &mut 3_000)?;
    Some(Op::Cover {
        cons,
        adds,
        solve: !chance(OPS, 1, 12),
    })
}
