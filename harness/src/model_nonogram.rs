//! Independent nonogram model: rule check, reference solver, and a cost estimate of overlap solving.

pub type Rules = Vec<Vec<usize>>;

pub fn runs(line: impl Iterator<Item = bool>) -> Vec<usize> {
    let mut out = Vec::new();
    let mut n = 0;
    for filled in line {
        if filled {
            n += 1;
        } else if n > 0 {
            out.push(n);
            n = 0;
        }
    }
    if n > 0 {
        out.push(n);
    }
    out
}

fn normal(rule: &[usize]) -> Vec<usize> {
    rule.iter().copied().filter(|v| *v > 0).collect()
}

pub fn satisfies(col: &Rules, row: &Rules, grid: &[bool]) -> Result<(), String> {
    let (w, h) = (col.len(), row.len());
    if grid.len() != w * h {
        return Err(format!("the answer has {} squares", grid.len()));
    }
    for (y, rule) in row.iter().enumerate() {
        let got = runs((0..w).map(|x| grid[y * w + x]));
        if got != normal(rule) {
            return Err(format!("row {y} has runs {got:?}, its rule is {rule:?}"));
        }
    }
    for (x, rule) in col.iter().enumerate() {
        let got = runs((0..h).map(|y| grid[y * w + x]));
        if got != normal(rule) {
            return Err(format!("column {x} has runs {got:?}, its rule is {rule:?}"));
        }
    }
    Ok(())
}

/// Rules of a grid; empty lines as `[0]`.
pub fn rules_of(w: usize, h: usize, grid: &[bool]) -> (Rules, Rules) {
    let fix = |r: Vec<usize>| if r.is_empty() { vec![0] } else { r };
    let col = (0..w)
        .map(|x| fix(runs((0..h).map(|y| grid[y * w + x]))))
        .collect();
    let row = (0..h)
        .map(|y| fix(runs((0..w).map(|x| grid[y * w + x]))))
        .collect();
    (col, row)
}

/// 0: unknown, 1: filled, 2: empty
type Line = Vec<u8>;

/// Start of every block in the leftmost arrangement that agrees with the known squares.
fn leftmost(rule: &[usize], line: &[u8]) -> Option<Vec<usize>> {
    let n = line.len();
    let k = rule.len();
    // fits[b][i]: blocks b.. fit into squares i..
    let mut fits = vec![vec![false; n + 2]; k + 1];
    for i in (0..=n + 1).rev() {
        fits[k][i] = i >= n || (line[i] != 1 && fits[k][i + 1]);
    }
    let can = |b: usize, i: usize, fits: &Vec<Vec<bool>>| {
        let len = rule[b];
        i + len <= n
            && (i..i + len).all(|j| line[j] != 2)
            && (i + len == n || line[i + len] != 1)
            && fits[b + 1][(i + len + 1).min(n + 1)]
    };
    for b in (0..k).rev() {
        for i in (0..n).rev() {
            fits[b][i] = can(b, i, &fits) || (line[i] != 1 && fits[b][i + 1]);
        }
    }
    if !fits[0][0] {
        return None;
    }
    let mut at = 0;
    let mut starts = Vec::new();
    for b in 0..k {
        while !can(b, at, &fits) {
            at += 1;
        }
        starts.push(at);
        at += rule[b] + 1;
    }
    Some(starts)
}

/// One pass of overlap solving; `None`: contradiction.
fn overlap(rule: &[usize], line: &mut Line) -> Option<bool> {
    let n = line.len();
    let left = leftmost(rule, line)?;
    let back: Vec<usize> = rule.iter().rev().copied().collect();
    let mirrored: Line = line.iter().rev().copied().collect();
    let right: Vec<usize> = leftmost(&back, &mirrored)?
        .iter()
        .rev()
        .zip(rule)
        .map(|(s, len)| n - s - len)
        .collect();
    let mut changed = false;
    let mut put = |line: &mut Line, i: usize, v: u8| {
        if line[i] == 0 {
            line[i] = v;
            changed = true;
        }
    };
    for b in 0..rule.len() {
        for i in right[b]..left[b] + rule[b] {
            put(line, i, 1);
        }
    }
    for b in 0..=rule.len() {
        let from = if b == 0 { 0 } else { right[b - 1] + rule[b - 1] };
        let to = if b == rule.len() { n } else { left[b] };
        for i in from..to {
            put(line, i, 2);
        }
    }
    Some(changed)
}

pub struct Judged {
    /// `None`: gave up
    pub solvable: Option<bool>,
    /// search nodes of overlap solving with guesses
    pub nodes: usize,
    pub wrong_guesses: usize,
}

/// Which unknown square is guessed first, and as what.
#[derive(Clone, Copy)]
pub struct Order {
    pub last: bool,
    pub by_columns: bool,
    pub empty_first: bool,
}

pub const ORDERS: [Order; 8] = {
    let mut all = [Order { last: false, by_columns: false, empty_first: false }; 8];
    let mut i = 0;
    while i < 8 {
        all[i] = Order { last: i & 1 != 0, by_columns: i & 2 != 0, empty_first: i & 4 != 0 };
        i += 1;
    }
    all
};

/// Overlap solving with guesses.
pub fn judge(col: &Rules, row: &Rules, cap: usize, order: Order) -> Judged {
    let (w, h) = (col.len(), row.len());
    let c: Rules = col.iter().map(|r| normal(r)).collect();
    let r: Rules = row.iter().map(|r| normal(r)).collect();
    struct S<'a> {
        w: usize,
        h: usize,
        c: &'a Rules,
        r: &'a Rules,
        nodes: usize,
        cap: usize,
        wrong: usize,
        order: Order,
    }
    fn propagate(s: &S, grid: &mut [u8]) -> bool {
        loop {
            let mut changed = false;
            for x in 0..s.w {
                let mut line: Line = (0..s.h).map(|y| grid[y * s.w + x]).collect();
                match overlap(&s.c[x], &mut line) {
                    None => return false,
                    Some(false) => (),
                    Some(true) => {
                        changed = true;
                        for y in 0..s.h {
                            grid[y * s.w + x] = line[y];
                        }
                    }
                }
            }
            for y in 0..s.h {
                let mut line: Line = grid[y * s.w..(y + 1) * s.w].to_vec();
                match overlap(&s.r[y], &mut line) {
                    None => return false,
                    Some(false) => (),
                    Some(true) => {
                        changed = true;
                        grid[y * s.w..(y + 1) * s.w].copy_from_slice(&line);
                    }
                }
            }
            if !changed {
                return true;
            }
        }
    }
    fn search(s: &mut S, grid: &mut [u8]) -> Option<bool> {
        s.nodes += 1;
        if s.nodes > s.cap {
            return None;
        }
        if !propagate(s, grid) {
            return Some(false);
        }
        let (w, h, o) = (s.w, s.h, s.order);
        let mut places: Vec<usize> = if o.by_columns {
            (0..w * h).map(|k| k % h * w + k / h).collect()
        } else {
            (0..w * h).collect()
        };
        if o.last {
            places.reverse();
        }
        let Some(i) = places.into_iter().find(|i| grid[*i] == 0) else {
            return Some(true);
        };
        for v in if o.empty_first { [2, 1] } else { [1, 2] } {
            let mut g = grid.to_vec();
            g[i] = v;
            if search(s, &mut g)? {
                return Some(true);
            }
            s.wrong += 1;
        }
        Some(false)
    }
    let mut s = S {
        w,
        h,
        c: &c,
        r: &r,
        nodes: 0,
        cap,
        wrong: 0,
        order,
    };
    let mut grid = vec![0u8; w * h];
    let solvable = search(&mut s, &mut grid);
    Judged {
        solvable,
        nodes: s.nodes,
        wrong_guesses: s.wrong,
    }
}

/// Exhaustive reference for small puzzles: rows one by one, every arrangement; `None`: too large.
pub fn exhaustive(col: &Rules, row: &Rules, mut budget: u64) -> Option<bool> {
    let (w, h) = (col.len(), row.len());
    if w > 12 {
        return None;
    }
    let arrangements: Vec<Vec<u32>> = row
        .iter()
        .map(|r| {
            let rule = normal(r);
            (0u32..1 << w)
                .filter(|m| runs((0..w).map(|x| m >> x & 1 == 1)) == rule)
                .collect()
        })
        .collect();
    let c: Rules = col.iter().map(|r| normal(r)).collect();
    fn prefix_ok(rule: &[usize], column: &[bool], complete: bool) -> bool {
        let got = runs(column.iter().copied());
        let open = column.last() == Some(&true) && !complete;
        if got.len() > rule.len() || (complete && got.len() != rule.len()) {
            return false;
        }
        for (k, g) in got.iter().enumerate() {
            let last = k + 1 == got.len();
            if last && open {
                if *g > rule[k] {
                    return false;
                }
            } else if *g != rule[k] {
                return false;
            }
        }
        true
    }
    fn go(
        y: usize,
        h: usize,
        columns: &mut Vec<Vec<bool>>,
        a: &[Vec<u32>],
        c: &Rules,
        budget: &mut u64,
    ) -> Option<bool> {
        if y == h {
            return Some(true);
        }
        for m in &a[y] {
            if *budget == 0 {
                return None;
            }
            *budget -= 1;
            let mut ok = true;
            for x in 0..columns.len() {
                columns[x].push(m >> x & 1 == 1);
            }
            for x in 0..columns.len() {
                if !prefix_ok(&c[x], &columns[x], y + 1 == h) {
                    ok = false;
                    break;
                }
            }
            let r = if ok { go(y + 1, h, columns, a, c, budget) } else { Some(false) };
            for column in columns.iter_mut() {
                column.pop();
            }
            if r != Some(false) {
                return r;
            }
        }
        Some(false)
    }
    let mut columns = vec![Vec::new(); w];
    go(0, h, &mut columns, &arrangements, &c, &mut budget)
}

/// Checks the outcome of solving. `solvable`: known answer, if any.
pub fn check(
    col: &Rules,
    row: &Rules,
    out: &Result<Vec<bool>, String>,
    solvable: Option<bool>,
) -> Result<(), String> {
    let empty = col.is_empty() || row.is_empty();
    match out {
        Ok(grid) => {
            if empty {
                return Err("an empty puzzle was answered".into());
            }
            satisfies(col, row, grid)
        }
        Err(e) if e == "EmptyPuzzle" && empty => Ok(()),
        Err(e) if e == "NoSolution" && !empty => {
            if solvable == Some(true) {
                Err("a puzzle with a solution was reported to have none".into())
            } else {
                Ok(())
            }
        }
        Err(e) => Err(format!("unexpected error {e}")),
    }
}
