//! Independent sudoku solver and puzzle generator.

use crate::rng::Rng;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Verdict {
    Solvable,
    Unsolvable,
    Unknown,
}

struct Solver<'a> {
    grid: [u8; 81],
    rows: [u16; 9],
    cols: [u16; 9],
    boxes: [u16; 9],
    nodes: u64,
    cap: u64,
    rng: Option<&'a mut Rng>,
    found: u32,
    want: u32,
    first: Option<[u8; 81]>,
}

fn box_of(i: usize) -> usize {
    i / 27 * 3 + i % 9 / 3
}

impl Solver<'_> {
    fn free(&self, i: usize) -> u16 {
        0x1FF & !(self.rows[i / 9] | self.cols[i % 9] | self.boxes[box_of(i)])
    }

    fn set(&mut self, i: usize, d: u8) {
        let bit = 1u16 << (d - 1);
        self.grid[i] = d;
        self.rows[i / 9] |= bit;
        self.cols[i % 9] |= bit;
        self.boxes[box_of(i)] |= bit;
    }

    fn unset(&mut self, i: usize) {
        let bit = 1u16 << (self.grid[i] - 1);
        self.grid[i] = 0;
        self.rows[i / 9] &= !bit;
        self.cols[i % 9] &= !bit;
        self.boxes[box_of(i)] &= !bit;
    }

    /// true: stop searching
    fn search(&mut self) -> bool {
        self.nodes += 1;
        if self.nodes > self.cap {
            return true;
        }
        // the most constrained choice: a cell, or the places of a digit in a unit
        let mut best: Option<Vec<(usize, u8)>> = None;
        let mut open = false;
        for i in 0..81 {
            if self.grid[i] != 0 {
                continue;
            }
            open = true;
            let f = self.free(i);
            let n = f.count_ones() as usize;
            if best.as_ref().is_none_or(|b| n < b.len()) {
                best = Some((1..=9).filter(|d| f >> (d - 1) & 1 == 1).map(|d| (i, d)).collect());
            }
            if n <= 1 {
                break;
            }
        }
        if !open {
            self.found += 1;
            if self.first.is_none() {
                self.first = Some(self.grid);
            }
            return self.found >= self.want;
        }
        if best.as_ref().is_some_and(|b| b.len() > 1) {
            'units: for unit in 0..27 {
                for d in 1..=9u8 {
                    let bit = 1u16 << (d - 1);
                    let taken = match unit / 9 {
                        0 => self.rows[unit % 9],
                        1 => self.cols[unit % 9],
                        _ => self.boxes[unit % 9],
                    };
                    if taken & bit != 0 {
                        continue;
                    }
                    let mut places = Vec::new();
                    for k in 0..9 {
                        let i = match unit / 9 {
                            0 => unit % 9 * 9 + k,
                            1 => k * 9 + unit % 9,
                            _ => unit % 9 / 3 * 27 + unit % 3 * 3 + k / 3 * 9 + k % 3,
                        };
                        if self.grid[i] == 0 && self.free(i) & bit != 0 {
                            places.push((i, d));
                        }
                    }
                    if best.as_ref().is_none_or(|b| places.len() < b.len()) {
                        let n = places.len();
                        best = Some(places);
                        if n <= 1 {
                            break 'units;
                        }
                    }
                }
            }
        }
        let mut choices = best.unwrap_or_default();
        if let Some(r) = &mut self.rng {
            for k in (1..choices.len()).rev() {
                let j = r.below(k as u64 + 1) as usize;
                choices.swap(k, j);
            }
        }
        for (i, d) in choices {
            self.set(i, d);
            if self.search() {
                return true;
            }
            self.unset(i);
        }
        false
    }
}

fn start<'a>(cells: &[u8], cap: u64, want: u32, rng: Option<&'a mut Rng>) -> Option<Solver<'a>> {
    let mut s = Solver {
        grid: [0; 81],
        rows: [0; 9],
        cols: [0; 9],
        boxes: [0; 9],
        nodes: 0,
        cap,
        rng,
        found: 0,
        want,
        first: None,
    };
    for (i, d) in cells.iter().enumerate() {
        if *d == 0 {
            continue;
        }
        if *d > 9 || s.free(i) >> (*d - 1) & 1 == 0 {
            return None;
        }
        s.set(i, *d);
    }
    Some(s)
}

pub const CAP: u64 = 3000;

/// Whether an 81-value puzzle has a solution, and whether it has several.
pub fn judge(cells: &[u8]) -> (Verdict, bool, u64) {
    let Some(mut s) = start(cells, CAP, 2, None) else {
        return (Verdict::Unsolvable, false, 0);
    };
    s.search();
    if s.found > 0 {
        (Verdict::Solvable, s.found > 1, s.nodes)
    } else if s.nodes > CAP {
        (Verdict::Unknown, false, s.nodes)
    } else {
        (Verdict::Unsolvable, false, s.nodes)
    }
}

pub fn random_grid(seed: u64) -> [u8; 81] {
    let mut r = Rng::new(seed);
    loop {
        let cap = 2000;
        let Some(mut s) = start(&[0; 81], cap, 1, Some(&mut r)) else {
            unreachable!()
        };
        s.search();
        if let Some(g) = s.first {
            return g;
        }
    }
}

/// Puzzles with a single solution that take search.
const HARD: &[&str] = &[
    "000000010400000000020000000000050407008000300001090000300400200050100000000806000",
    "800000000003600000070090200050007000000045700000100030001000068008500010090000400",
    "000000000000003085001020000000507000004000100090000000500000073002010000000040009",
    "100007090030020008009600500005300900010080002600004000300000010040000007007000300",
    "000006000059000008200008000045000000003000000006003054000325006000000000000000000",
];

/// A hard puzzle under a random symmetry.
pub fn hard(seed: u64) -> Vec<u8> {
    let mut r = Rng::new(seed);
    let base = HARD[r.below(HARD.len() as u64) as usize];
    symmetric(base, &mut r)
}

/// Found by climbing towards long searches of the exact cover engine (up to a million rows tried);
/// `u`: without solution, which a separate solver confirmed.
const HARDEST: &str = include_str!("hard_sudoku.txt");

/// A puzzle that takes a long search, as found or under a symmetry, and whether it has a solution.
pub fn hardest(seed: u64) -> (Vec<u8>, bool) {
    let mut r = Rng::new(seed);
    let n = HARDEST.lines().count() as u64;
    let line = HARDEST.lines().nth(r.below(n) as usize).unwrap_or_default();
    let (kind, text) = line.split_once(' ').unwrap_or_default();
    let cells = if r.below(3) > 0 {
        text.bytes().map(|b| b - b'0').collect()
    } else {
        symmetric(text, &mut r)
    };
    (cells, kind == "s")
}

fn symmetric(base: &str, r: &mut Rng) -> Vec<u8> {
    let base: Vec<u8> = base.bytes().map(|b| b - b'0').collect();
    let mut digits: Vec<u8> = (1..=9).collect();
    let shuffle = |v: &mut Vec<usize>, r: &mut Rng| {
        for k in (1..v.len()).rev() {
            let j = r.below(k as u64 + 1) as usize;
            v.swap(k, j);
        }
    };
    let lines = |r: &mut Rng| {
        let mut bands = vec![0, 1, 2];
        shuffle(&mut bands, r);
        let mut out = Vec::new();
        for b in bands {
            let mut l = vec![0, 1, 2];
            shuffle(&mut l, r);
            out.extend(l.iter().map(|x| b * 3 + x));
        }
        out
    };
    for k in (1..9).rev() {
        let j = r.below(k as u64 + 1) as usize;
        digits.swap(k, j);
    }
    let (rows, cols) = (lines(r), lines(r));
    let flip = r.below(2) == 1;
    let mut out = vec![0; 81];
    for y in 0..9 {
        for x in 0..9 {
            let d = base[rows[y] * 9 + cols[x]];
            let d = if d == 0 { 0 } else { digits[d as usize - 1] };
            out[if flip { x * 9 + y } else { y * 9 + x }] = d;
        }
    }
    out
}

/// Checks the outcome of solving `cells`.
pub fn check(cells: &[u8], out: &Result<Vec<u8>, String>, verdict: Verdict) -> Result<(), String> {
    match out {
        Ok(grid) => {
            if cells.len() != 81 {
                return Err(format!("{} values were accepted", cells.len()));
            }
            if grid.len() != 81 {
                return Err(format!("the answer has {} values", grid.len()));
            }
            for (i, (given, got)) in cells.iter().zip(grid).enumerate() {
                if *given != 0 && given != got {
                    return Err(format!("given {given} in cell {i} became {got}"));
                }
            }
            for unit in 0..27 {
                let mut seen = [false; 10];
                for k in 0..9 {
                    let i = match unit / 9 {
                        0 => unit % 9 * 9 + k,
                        1 => k * 9 + unit % 9,
                        _ => unit % 9 / 3 * 27 + unit % 3 * 3 + k / 3 * 9 + k % 3,
                    };
                    let d = grid[i] as usize;
                    if !(1..=9).contains(&d) || seen[d] {
                        return Err(format!(
                            "the answer has {d} wrongly in {} {}",
                            ["row", "column", "box"][unit / 9],
                            unit % 9
                        ));
                    }
                    seen[d] = true;
                }
            }
            Ok(())
        }
        Err(e) if e.starts_with("InvalidSize") => {
            if cells.len() == 81 {
                Err("81 values were refused for their number".into())
            } else {
                Ok(())
            }
        }
        Err(e) if e == "NoSolution" => {
            if cells.len() != 81 {
                Err(format!("{} values gave the no-solution error", cells.len()))
            } else if verdict == Verdict::Solvable {
                Err("a puzzle with a solution was reported to have none".into())
            } else {
                Ok(())
            }
        }
        Err(e) => Err(format!("unexpected error {e}")),
    }
}
