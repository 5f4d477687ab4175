//! Independent model of mazes: perfection, the route, the drawing.

use crate::ops::{Maze, Picture};

fn inner(w: usize, h: usize, cells: &[(bool, bool)]) -> Vec<(usize, usize)> {
    let mut edges = Vec::new();
    for (i, (r, d)) in cells.iter().enumerate() {
        if !*r && i % w + 1 < w {
            edges.push((i, i + 1));
        }
        if !*d && i / w + 1 < h {
            edges.push((i, i + w));
        }
    }
    edges
}

fn root(parent: &mut [usize], mut i: usize) -> usize {
    while parent[i] != i {
        parent[i] = parent[parent[i]];
        i = parent[i];
    }
    i
}

/// Exactly one route between any two cells, closed outer walls, exactly one exit.
pub fn perfect(w: usize, h: usize, maze: &Maze) -> Result<(), String> {
    let cells = &maze.cells;
    if cells.len() != w * h {
        return Err(format!("{} cells instead of {}", cells.len(), w * h));
    }
    for y in 0..h {
        if !cells[y * w + w - 1].0 {
            return Err(format!("outer wall right of row {y} is open"));
        }
    }
    let exits = (0..w).filter(|x| !cells[(h - 1) * w + x].1).count();
    if exits != 1 {
        return Err(format!("{exits} exits"));
    }
    let mut parent: Vec<usize> = (0..w * h).collect();
    let mut joined = 1;
    for (a, b) in inner(w, h, cells) {
        let (ra, rb) = (root(&mut parent, a), root(&mut parent, b));
        if ra == rb {
            return Err(format!("the passage between cells {a} and {b} closes a loop"));
        }
        parent[ra] = rb;
        joined += 1;
    }
    if joined != w * h {
        return Err(format!("{} separate parts", w * h + 1 - joined));
    }
    Ok(())
}

fn neighbours(w: usize, h: usize, cells: &[(bool, bool)], i: usize, f: &mut dyn FnMut(usize)) {
    let (x, y) = (i % w, i / w);
    if x + 1 < w && !cells[i].0 {
        f(i + 1);
    }
    if y + 1 < h && !cells[i].1 {
        f(i + w);
    }
    if x > 0 && !cells[i - 1].0 {
        f(i - 1);
    }
    if y > 0 && !cells[i - w].1 {
        f(i - w);
    }
}

pub fn distances(w: usize, h: usize, cells: &[(bool, bool)]) -> Vec<usize> {
    let mut dist = vec![usize::MAX; w * h];
    dist[0] = 0;
    let mut queue = std::collections::VecDeque::from([0usize]);
    while let Some(i) = queue.pop_front() {
        let d = dist[i];
        neighbours(w, h, cells, i, &mut |j| {
            if dist[j] == usize::MAX {
                dist[j] = d + 1;
                queue.push_back(j);
            }
        });
    }
    dist
}

/// The cells along the returned path, first to last, if it stays inside and in open passages.
pub fn walk(w: usize, h: usize, maze: &Maze) -> Result<Vec<usize>, String> {
    let (mut x, mut y) = (0usize, 0usize);
    let mut route = vec![0];
    for (n, step) in maze.path.iter().rev().enumerate() {
        let i = y * w + x;
        let open = match step {
            b'R' => x + 1 < w && !maze.cells[i].0,
            b'D' => y + 1 < h && !maze.cells[i].1,
            b'L' => x > 0 && !maze.cells[i - 1].0,
            _ => y > 0 && !maze.cells[i - w].1,
        };
        if !open {
            return Err(format!(
                "step {n} ({}) from cell {i} goes through a wall or leaves the maze",
                *step as char
            ));
        }
        match step {
            b'R' => x += 1,
            b'D' => y += 1,
            b'L' => x -= 1,
            _ => y -= 1,
        }
        route.push(y * w + x);
    }
    Ok(route)
}

pub fn path(w: usize, h: usize, maze: &Maze) -> Result<(), String> {
    if maze.cells.len() != w * h {
        return Err(format!("{} cells instead of {}", maze.cells.len(), w * h));
    }
    let route = walk(w, h, maze)?;
    let mut seen = vec![false; w * h];
    for i in &route {
        if seen[*i] {
            return Err(format!("the path enters cell {i} twice"));
        }
        seen[*i] = true;
    }
    let last = route[route.len() - 1];
    if last / w != h - 1 {
        return Err(format!("the path ends at cell {last}, not in the bottom row"));
    }
    if maze.cells[last].1 {
        return Err(format!("the path ends at cell {last}, whose bottom wall is closed"));
    }
    let dist = distances(w, h, &maze.cells);
    let far = (0..w)
        .map(|x| dist[(h - 1) * w + x])
        .filter(|d| *d != usize::MAX)
        .max()
        .unwrap_or(0);
    if dist[last] != far {
        return Err(format!(
            "the exit is {} steps away, another bottom cell {far}",
            dist[last]
        ));
    }
    Ok(())
}

const WHITE: [u8; 3] = [255, 255, 255];
const BLACK: [u8; 3] = [0, 0, 0];
const RED: [u8; 3] = [255, 0, 0];

struct Canvas {
    w: usize,
    h: usize,
    px: Vec<[u8; 3]>,
}

impl Canvas {
    fn bar(&mut self, x0: usize, y0: usize, x1: usize, y1: usize, c: [u8; 3]) {
        for y in y0.min(y1)..=y0.max(y1) {
            for x in x0.min(x1)..=x0.max(x1) {
                self.px[y * self.w + x] = c;
            }
        }
    }

    fn compare(&self, p: &Picture, what: &str) -> Result<(), String> {
        if (p.w as usize, p.h as usize) != (self.w, self.h) {
            return Err(format!(
                "{what} is {}x{}, expected {}x{}",
                p.w, p.h, self.w, self.h
            ));
        }
        if p.raw.len() != self.px.len() * 3 {
            return Err(format!("{what} has {} bytes", p.raw.len()));
        }
        for (i, c) in self.px.iter().enumerate() {
            if p.raw[i * 3..i * 3 + 3] != *c {
                return Err(format!(
                    "{what}: pixel ({}, {}) is {:?}, expected {c:?}",
                    i % self.w,
                    i / self.w,
                    &p.raw[i * 3..i * 3 + 3]
                ));
            }
        }
        Ok(())
    }
}

/// Both drawings of a maze, pixel by pixel.
pub fn drawn(w: usize, h: usize, maze: &Maze, plain: &Picture, solved: &Picture) -> Result<(), String> {
    if maze.cells.len() != w * h {
        return Err(format!("{} cells instead of {}", maze.cells.len(), w * h));
    }
    let mut c = Canvas {
        w: w * 10 + 1,
        h: h * 10 + 1,
        px: vec![WHITE; (w * 10 + 1) * (h * 10 + 1)],
    };
    c.bar(0, 0, 0, h * 10, BLACK);
    c.bar(10, 0, w * 10, 0, BLACK);
    for (i, (right, down)) in maze.cells.iter().enumerate() {
        let (x, y) = (i % w * 10, i / w * 10);
        if *right {
            c.bar(x + 10, y, x + 10, y + 10, BLACK);
        }
        if *down {
            c.bar(x, y + 10, x + 10, y + 10, BLACK);
        }
    }
    c.compare(plain, "the drawing")?;
    let route = walk(w, h, maze)?;
    let last = route[route.len() - 1];
    if last / w != h - 1 || maze.cells[last].1 {
        return Err("the drawn path does not end at the exit".into());
    }
    let centre = |i: usize| (i % w * 10 + 5, i / w * 10 + 5);
    let (mut x, mut y) = (5, 0);
    for i in &route {
        let (nx, ny) = centre(*i);
        c.bar(x, y, nx, ny, RED);
        (x, y) = (nx, ny);
    }
    c.bar(x, y, x, y + 5, RED);
    c.compare(solved, "the drawing of the path")
}
