//! Statistics of generated mazes against uniform randomised depth-first search.

use std::collections::BTreeMap;

use crate::rng::Rng;

fn steps(w: usize, h: usize, i: usize) -> Vec<usize> {
    let (x, y) = (i % w, i / w);
    let mut v = Vec::new();
    if x + 1 < w {
        v.push(i + 1);
    }
    if y + 1 < h {
        v.push(i + w);
    }
    if x > 0 {
        v.push(i - 1);
    }
    if y > 0 {
        v.push(i - w);
    }
    v
}

fn open(cells: &mut [(bool, bool)], a: usize, b: usize) {
    let (lo, hi) = (a.min(b), a.max(b));
    // the caller passes neighbours; horizontal ones in mazes of width 1 do not exist
    if hi == lo + 1 && cells.len() > 1 {
        cells[lo].0 = false;
    } else {
        cells[lo].1 = false;
    }
}

/// Closed grid; `vertical` says the mazes are one cell wide.
fn carve(w: usize, cells: &mut [(bool, bool)], a: usize, b: usize) {
    if w == 1 {
        cells[a.min(b)].1 = false;
    } else {
        open(cells, a, b);
    }
}

/// Probability of every maze under uniform randomised depth-first search from cell 0.
pub fn exact(w: usize, h: usize) -> BTreeMap<u64, f64> {
    fn go(
        w: usize,
        h: usize,
        stack: &mut Vec<usize>,
        seen: u64,
        cells: &mut Vec<(bool, bool)>,
        p: f64,
        out: &mut BTreeMap<u64, f64>,
    ) {
        let popped = stack.clone();
        while let Some(top) = stack.last().copied() {
            let next: Vec<usize> = steps(w, h, top)
                .into_iter()
                .filter(|j| seen >> j & 1 == 0)
                .collect();
            if next.is_empty() {
                stack.pop();
                continue;
            }
            let q = p / next.len() as f64;
            for j in next {
                let before = cells.clone();
                carve(w, cells, top, j);
                let mut deeper = stack.clone();
                deeper.push(j);
                go(w, h, &mut deeper, seen | 1 << j, cells, q, out);
                *cells = before;
            }
            *stack = popped;
            return;
        }
        *out.entry(crate::ops::code(cells, w)).or_insert(0.0) += p;
        *stack = popped;
    }
    let mut out = BTreeMap::new();
    let mut cells = vec![(true, true); w * h];
    go(w, h, &mut vec![0], 1, &mut cells, 1.0, &mut out);
    out
}

/// A maze by uniform randomised depth-first search.
pub fn reference(w: usize, h: usize, r: &mut Rng) -> Vec<(bool, bool)> {
    let mut cells = vec![(true, true); w * h];
    let mut seen = vec![false; w * h];
    seen[0] = true;
    let mut stack = vec![0];
    while let Some(top) = stack.last().copied() {
        let mut next = [0usize; 4];
        let mut n = 0;
        for j in steps(w, h, top) {
            if !seen[j] {
                next[n] = j;
                n += 1;
            }
        }
        if n == 0 {
            stack.pop();
            continue;
        }
        let j = next[r.below(n as u64) as usize];
        carve(w, &mut cells, top, j);
        seen[j] = true;
        stack.push(j);
    }
    cells
}

const SIGMAS: f64 = 6.5;

fn off(count: f64, n: f64, p: f64) -> bool {
    (count - n * p).abs() > SIGMAS * (n * p * (1.0 - p)).sqrt() + 8.0
}

/// `None`: the frequencies agree with the exact distribution.
pub fn frequencies(w: usize, h: usize, codes: &[u64], dist: &BTreeMap<u64, f64>) -> Option<String> {
    let n = codes.len() as f64;
    let mut seen: BTreeMap<u64, u64> = BTreeMap::new();
    for c in codes {
        *seen.entry(*c).or_insert(0) += 1;
    }
    if let Some(c) = seen.keys().find(|c| !dist.contains_key(c)) {
        return Some(format!(
            "{w}x{h}: maze {c:#b} cannot come from depth-first search"
        ));
    }
    let mut chi2 = 0.0;
    let mut cells = 0.0;
    for (c, p) in dist {
        let k = seen.get(c).copied().unwrap_or(0) as f64;
        if off(k, n, *p) {
            return Some(format!(
                "{w}x{h}: maze {c:#b} appeared {k} times in {n} calls, expected {:.1}",
                n * p
            ));
        }
        if n * p >= 5.0 {
            chi2 += (k - n * p).powi(2) / (n * p);
            cells += 1.0;
        }
    }
    let bound = cells + 8.0 * (2.0 * cells + 10.0f64).sqrt() + 40.0;
    if chi2 > bound {
        return Some(format!(
            "{w}x{h}: chi-square {chi2:.0} over {cells} mazes in {n} calls, at most {bound:.0} expected"
        ));
    }
    for bit in 0..2 * w * h {
        let p: f64 = dist
            .iter()
            .filter(|(c, _)| *c >> bit & 1 == 1)
            .map(|(_, p)| *p)
            .sum();
        let k = codes.iter().filter(|c| *c >> bit & 1 == 1).count() as f64;
        if off(k, n, p) {
            return Some(format!(
                "{w}x{h}: passage {bit} is open in {k} of {n} mazes, expected {:.1}",
                n * p
            ));
        }
    }
    None
}

/// Equal results in two sequences that ought to be independent.
pub fn repeats(what: &str, a: &[u64], b: &[u64], dist: &BTreeMap<u64, f64>) -> Option<String> {
    let n = a.len().min(b.len()) as f64;
    let p: f64 = dist.values().map(|p| p * p).sum();
    let k = a.iter().zip(b).filter(|(x, y)| x == y).count() as f64;
    // pairs of neighbours overlap, hence the factor 3
    let limit = SIGMAS * (3.0 * n * p * (1.0 - p)).sqrt() + 10.0;
    ((k - n * p).abs() > limit).then(|| {
        format!(
            "{what}: {k} equal mazes in {n} pairs, expected {:.1}",
            n * p
        )
    })
}

/// Same maze joint distribution of neighbours for the smallest sizes.
pub fn pairs(what: &str, a: &[u64], b: &[u64], dist: &BTreeMap<u64, f64>) -> Option<String> {
    if dist.len() > 40 {
        return None;
    }
    let n = a.len().min(b.len()) as f64;
    let mut seen: BTreeMap<(u64, u64), u64> = BTreeMap::new();
    for (x, y) in a.iter().zip(b) {
        *seen.entry((*x, *y)).or_insert(0) += 1;
    }
    for (x, p) in dist {
        for (y, q) in dist {
            let e = n * p * q;
            let k = seen.get(&(*x, *y)).copied().unwrap_or(0) as f64;
            if (k - e).abs() > SIGMAS * (3.0 * e).sqrt() + 10.0 {
                return Some(format!(
                    "{what}: maze {y:#b} follows {x:#b} {k} times in {n} pairs, expected {e:.1}"
                ));
            }
        }
    }
    None
}

/// Numbers that describe a maze of any size: open passages and shape.
pub fn features(w: usize, h: usize, cells: &[(bool, bool)]) -> Vec<f64> {
    let mut f = Vec::with_capacity(2 * w * h + 12);
    let mut degree = vec![0usize; w * h];
    let mut straight = 0;
    for (i, (r, d)) in cells.iter().enumerate() {
        let right = !*r && i % w + 1 < w;
        let down = !*d && i / w + 1 < h;
        f.push(f64::from(u8::from(right)));
        f.push(f64::from(u8::from(down)));
        if right {
            degree[i] += 1;
            degree[i + 1] += 1;
        }
        if down {
            degree[i] += 1;
            degree[i + w] += 1;
        }
    }
    for i in 0..w * h {
        if degree[i] == 2 {
            let (x, y) = (i % w, i / w);
            let horizontal = x > 0 && x + 1 < w && !cells[i - 1].0 && !cells[i].0;
            let vertical = y > 0 && y + 1 < h && !cells[i - w].1 && !cells[i].1;
            straight += usize::from(horizontal || vertical);
        }
    }
    for k in 1..=4 {
        f.push(degree.iter().filter(|d| **d == k).count() as f64);
    }
    f.push(straight as f64);
    let dist = crate::model_maze::distances(w, h, cells);
    let far = dist.iter().filter(|d| **d != usize::MAX).max().copied().unwrap_or(0);
    f.push(far as f64);
    f.push(dist.iter().filter(|d| **d != usize::MAX).sum::<usize>() as f64 / (w * h) as f64);
    f.push(dist[w * h - 1].min(w * h) as f64);
    f.push(dist[w - 1].min(w * h) as f64);
    f.push(cells.iter().filter(|c| !c.0).count() as f64);
    f
}

#[derive(Default)]
pub struct Moments {
    n: f64,
    sum: Vec<f64>,
    sq: Vec<f64>,
}

impl Moments {
    pub fn add(&mut self, f: &[f64]) {
        self.sum.resize(f.len(), 0.0);
        self.sq.resize(f.len(), 0.0);
        self.n += 1.0;
        for (i, v) in f.iter().enumerate() {
            self.sum[i] += v;
            self.sq[i] += v * v;
        }
    }
}

/// Compares the means of two samples.
pub fn two_samples(w: usize, h: usize, a: &Moments, b: &Moments) -> Option<String> {
    for i in 0..a.sum.len() {
        let (ma, mb) = (a.sum[i] / a.n, b.sum[i] / b.n);
        let va = (a.sq[i] / a.n - ma * ma).max(0.0);
        let vb = (b.sq[i] / b.n - mb * mb).max(0.0);
        // a pooled variance, and a constant against empty samples
        let var = va.max(vb) * (1.0 / a.n + 1.0 / b.n);
        let slack = if i < 2 * w * h { 10.0 / a.n } else { 40.0 / a.n };
        if (ma - mb).abs() > 7.0 * var.sqrt() + slack {
            let what = if i < 2 * w * h {
                format!(
                    "passage {} of cell {}",
                    ["right", "down"][i % 2],
                    i / 2
                )
            } else {
                [
                    "dead ends",
                    "corridor cells",
                    "junctions",
                    "crossings",
                    "straight cells",
                    "greatest distance",
                    "mean distance",
                    "distance to the last cell",
                    "distance to the top right cell",
                    "horizontal passages",
                ][i - 2 * w * h]
                    .to_string()
            };
            return Some(format!(
                "{w}x{h}: {what}: mean {ma:.4} over {} mazes, {mb:.4} expected",
                a.n
            ));
        }
    }
    None
}

/// Sizes whose frequencies are added up over all runs; the last two tables hold the joint
/// frequencies of a maze and the one before it.
pub const SUMMED: [(usize, usize); 6] = [(2, 2), (3, 2), (2, 3), (4, 2), (2, 4), (3, 3)];

/// Adds the mazes of one generator to the tables of this run.
pub fn sum_up(w: usize, h: usize, codes: &[u64], dist: &BTreeMap<u64, f64>) {
    let Some(t) = SUMMED.iter().position(|s| *s == (w, h)) else { return };
    let s = crate::shm::get();
    s.tables_used = 1;
    let index: BTreeMap<u64, usize> = dist.keys().enumerate().map(|(i, c)| (*c, i)).collect();
    let mut last = None;
    for c in codes {
        // others were reported by `frequencies`
        let Some(&i) = index.get(c) else { continue };
        s.tables[t][i] += 1;
        if let (Some(l), true) = (last, t < 2) {
            let l: usize = l;
            s.tables[SUMMED.len() + t][l * dist.len() + i] += 1;
        }
        last = Some(i);
    }
}

/// Judges the sums of all runs.
pub fn judge_sums(get: impl Fn(usize, usize) -> u64) -> Option<String> {
    for (t, &(w, h)) in SUMMED.iter().enumerate() {
        let d = exact(w, h);
        let n: u64 = (0..d.len()).map(|i| get(t, i)).sum();
        for (i, (c, p)) in d.iter().enumerate() {
            let k = get(t, i) as f64;
            if off(k, n as f64, *p) {
                return Some(format!(
                    "over all runs, {w}x{h}: maze {c:#b} appeared {k} times in {n} calls, expected {:.1}",
                    n as f64 * p
                ));
            }
        }
        for bit in 0..2 * w * h {
            let (mut p, mut k) = (0.0, 0);
            for (i, (c, q)) in d.iter().enumerate() {
                if c >> bit & 1 == 1 {
                    p += q;
                    k += get(t, i);
                }
            }
            if off(k as f64, n as f64, p) {
                return Some(format!(
                    "over all runs, {w}x{h}: passage {bit} is open in {k} of {n} mazes, expected {:.1}",
                    n as f64 * p
                ));
            }
        }
        if t >= 2 {
            continue;
        }
        let u = SUMMED.len() + t;
        let n: u64 = (0..d.len() * d.len()).map(|i| get(u, i)).sum();
        let p: Vec<f64> = d.values().copied().collect();
        for i in 0..d.len() {
            for j in 0..d.len() {
                let k = get(u, i * d.len() + j) as f64;
                let e = p[i] * p[j];
                if off(k, n as f64, e) {
                    return Some(format!(
                        "over all runs, {w}x{h}: maze {i} is followed by maze {j} {k} times in {n} pairs, expected {:.1}",
                        n as f64 * e
                    ));
                }
            }
        }
    }
    None
}
