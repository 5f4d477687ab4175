//! Independent model of the exact-cover matrix.

pub struct Model {
    /// per row: the constraints it covers
    pub rows: Vec<u128>,
    pub all: u128,
}

impl Model {
    pub fn new(cons: &[Vec<usize>]) -> Model {
        let n = cons.iter().flatten().map(|r| r + 1).max().unwrap_or(0);
        let mut rows = vec![0u128; n];
        let mut all = 0u128;
        for (c, list) in cons.iter().enumerate() {
            all |= 1 << c;
            for r in list {
                rows[*r] |= 1u128 << c;
            }
        }
        Model { rows, all }
    }

    /// Expected answers of the choices, and the constraints covered afterwards.
    pub fn add(&self, adds: &[usize]) -> (Vec<&'static str>, Vec<usize>, u128) {
        let mut covered = 0;
        let mut accepted = Vec::new();
        let answers = adds
            .iter()
            .map(|a| match self.rows.get(*a) {
                None => "index",
                Some(0) => "rejected",
                Some(r) if r & covered != 0 => "rejected",
                Some(r) => {
                    covered |= r;
                    accepted.push(*a);
                    "ok"
                }
            })
            .collect();
        (answers, accepted, covered)
    }

    pub fn solvable(&self, covered: u128, budget: &mut u64) -> Option<bool> {
        if covered == self.all {
            return Some(true);
        }
        if *budget == 0 {
            return None;
        }
        *budget -= 1;
        let open = self.all & !covered;
        let mut best = (usize::MAX, 0);
        for c in 0..128 {
            if open >> c & 1 == 1 {
                let n = self
                    .rows
                    .iter()
                    .filter(|r| **r >> c & 1 == 1 && **r & covered == 0)
                    .count();
                if n < best.0 {
                    best = (n, c);
                }
            }
        }
        for r in &self.rows {
            if r >> best.1 & 1 == 1 && r & covered == 0 && self.solvable(covered | r, budget)? {
                return Some(true);
            }
        }
        Some(false)
    }

    pub fn check(
        &self,
        adds: &[usize],
        answers: &[&'static str],
        solved: &Option<Result<Vec<usize>, String>>,
    ) -> Result<(), String> {
        let (expected, accepted, covered) = self.add(adds);
        if expected != answers {
            return Err(format!("choices answered {answers:?}, expected {expected:?}"));
        }
        match solved {
            None => Ok(()),
            Some(Err(e)) if e == "nosolution" => {
                if self.solvable(covered, &mut 200_000) == Some(true) {
                    Err("a solvable family was reported unsolvable".into())
                } else {
                    Ok(())
                }
            }
            Some(Err(e)) => Err(format!("solving gave the error {e}")),
            Some(Ok(rows)) => {
                let mut done = 0u128;
                for (i, r) in rows.iter().enumerate() {
                    let Some(mask) = self.rows.get(*r) else {
                        return Err(format!("the solution names the unknown row {r}"));
                    };
                    if mask & done != 0 || *mask == 0 || rows[..i].contains(r) {
                        return Err(format!("row {r} of the solution covers a constraint twice"));
                    }
                    done |= mask;
                }
                if done != self.all {
                    return Err(format!("the solution {rows:?} leaves constraints uncovered"));
                }
                for a in &accepted {
                    if !rows.contains(a) {
                        return Err(format!("the accepted row {a} is not in the solution {rows:?}"));
                    }
                }
                Ok(())
            }
        }
    }
}
