//! Exact-cover engine monitor: D01 (and the histories that D02 and D03 run).
use crate::rt::*;
use crate::Prop;
use puzzle_utils::verif_hooks::{DancingLinksError, DancingMatrix};
use serde_json::json;

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "D01", plan: |t| exhaustive(t) + LARGE * if t { 20 } else { 1 } + if t { 20_000_000 } else { 900_000 }, case: cover_case }]
}

/// A constraint system and what is done with it.
pub struct History {
    pub constraints: Vec<Vec<usize>>,
    pub select: Vec<usize>,
    pub solve: bool,
    pub kind: &'static str,
}

impl History {
    pub fn show(&self) -> serde_json::Value {
        json!({"constraints": self.constraints, "preselect": self.select, "then": if self.solve { "solve" } else { "drop" }})
    }
}

// ---------------------------------------------------------------- model
pub struct Model {
    /// Constraint set of every row number up to the largest one.
    rows: Vec<u128>,
    all: u128,
    covered: u128,
    pub accepted: Vec<usize>,
}

impl Model {
    pub fn new(constraints: &[Vec<usize>]) -> Self {
        let n = constraints.iter().flatten().max().map_or(0, |m| m + 1);
        let mut rows = vec![0u128; n];
        for (k, c) in constraints.iter().enumerate() {
            for &r in c {
                rows[r] |= 1 << k;
            }
        }
        let all = if constraints.len() == 128 { u128::MAX } else { (1 << constraints.len()) - 1 };
        Model { rows, all, covered: 0, accepted: vec![] }
    }
    /// Ok, Err(true) for an unknown number, Err(false) for a row that cannot be taken.
    fn select(&mut self, row: usize) -> Result<(), bool> {
        if row >= self.rows.len() {
            return Err(true);
        }
        let m = self.rows[row];
        if m == 0 || m & self.covered != 0 {
            return Err(false);
        }
        self.covered |= m;
        self.accepted.push(row);
        Ok(())
    }
    /// Some(exists), or None when the search is too long.
    fn solvable(&self, nodes: &mut u64) -> Option<bool> {
        fn go(m: &Model, covered: u128, nodes: &mut u64, backtracks: &mut u64) -> Option<bool> {
            *nodes += 1;
            if *nodes > 20_000 {
                return None;
            }
            let open = m.all & !covered;
            if open == 0 {
                return Some(true);
            }
            // The open constraint with the fewest usable rows.
            let mut best = None;
            let mut best_n = usize::MAX;
            let mut rest = open;
            while rest != 0 {
                let bit = rest & rest.wrapping_neg();
                rest ^= bit;
                let n = m.rows.iter().filter(|&&r| r & bit != 0 && r & covered == 0).count();
                if n < best_n {
                    best_n = n;
                    best = Some(bit);
                }
            }
            let bit = best?;
            for &r in &m.rows {
                if r & bit != 0 && r & covered == 0 && go(m, covered | r, nodes, backtracks)? {
                    return Some(true);
                }
            }
            *backtracks += 1;
            Some(false)
        }
        go(self, self.covered, nodes, &mut 0)
    }
    fn fault(&self, s: &[usize]) -> Option<String> {
        let mut covered = 0u128;
        let mut seen = std::collections::HashSet::new();
        for &r in s {
            if !seen.insert(r) {
                return Some(format!("row {r} is returned twice"));
            }
            let Some(&m) = self.rows.get(r).filter(|m| **m != 0) else {
                return Some(format!("row {r} occurs in no constraint"));
            };
            if m & covered != 0 {
                return Some(format!("constraint {} is covered twice", (m & covered).trailing_zeros()));
            }
            covered |= m;
        }
        if covered != self.all {
            return Some(format!("constraint {} is not covered", (self.all & !covered).trailing_zeros()));
        }
        self.accepted.iter().find(|r| !seen.contains(r)).map(|r| format!("accepted row {r} is missing"))
    }
}

// ---------------------------------------------------------------- generators
fn exhaustive_blocks(t: bool) -> Vec<(usize, usize, usize)> {
    // (constraints, rows, preselections)
    let mut v = vec![(0, 0, 2), (1, 1, 2), (1, 2, 3), (2, 1, 3), (2, 2, 3), (2, 3, 2), (3, 2, 3), (3, 3, 2), (4, 2, 2), (2, 4, 2)];
    if t {
        v.extend([(3, 4, 3), (4, 3, 3), (2, 5, 3), (5, 2, 3), (4, 4, 1)]);
    }
    v
}
const CHUNK: u64 = 64;
fn block_size(b: &(usize, usize, usize)) -> u64 {
    (1u64 << (b.0 * b.1)) * ((b.1 + 2) as u64).pow(b.2 as u32)
}
fn exhaustive(t: bool) -> u64 {
    exhaustive_blocks(t).iter().map(|b| block_size(b).div_ceil(CHUNK)).sum()
}

fn exhaustive_history(b: &(usize, usize, usize), mut m: u64) -> History {
    let (c, r, p) = *b;
    let constraints = (0..c)
        .map(|k| (0..r).filter(|j| m >> (k * r + j) & 1 == 1).collect())
        .collect();
    m >>= c * r;
    let mut select = Vec::new();
    for _ in 0..p {
        let v = (m % (r as u64 + 2)) as usize;
        m /= r as u64 + 2;
        // 0 means none, the last number is unknown or unused.
        if v > 0 {
            select.push(v - 1);
        }
    }
    History { constraints, select, solve: true, kind: "every small system" }
}

/// Turns rows (sets of constraints) into constraints over row numbers, with optional gaps between numbers.
fn transpose(r: &mut Rng, n: usize, rows: &[Vec<usize>]) -> (Vec<Vec<usize>>, Vec<usize>) {
    let mut order: Vec<usize> = (0..rows.len()).collect();
    if r.chance(1, 2) {
        r.shuffle(&mut order);
    }
    let stretch = if r.chance(1, 4) { r.range(2, 40) } else { 1 };
    let shift = if r.chance(1, 4) { r.below(9) } else { 0 };
    let mut number = vec![0; rows.len()];
    for (k, &o) in order.iter().enumerate() {
        number[o] = shift + k * stretch;
    }
    let mut constraints = vec![Vec::new(); n];
    for (k, row) in rows.iter().enumerate() {
        for &c in row {
            constraints[c].push(number[k]);
        }
    }
    let sorted = r.chance(1, 2);
    for c in &mut constraints {
        c.sort_unstable();
        if !sorted {
            r.shuffle(c);
        }
    }
    (constraints, number)
}

pub fn random_history(r: &mut Rng, max: usize) -> History {
    let n = r.range(1, max);
    let (rows, planted, kind): (Vec<Vec<usize>>, Vec<usize>, _) = match r.below(6) {
        0 => {
            let p = r.range(1, 9);
            let k = r.range(1, max + 6);
            let rows = (0..k).map(|_| (0..n).filter(|_| r.chance(p, 18)).collect()).collect();
            (rows, vec![], "random rows")
        }
        1 | 2 => {
            // A partition of the constraints hidden among other rows.
            let mut order: Vec<usize> = (0..n).collect();
            r.shuffle(&mut order);
            let mut rows = Vec::new();
            let mut rest = &order[..];
            while !rest.is_empty() {
                let k = r.range(1, rest.len().min(4));
                rows.push(rest[..k].to_vec());
                rest = &rest[k..];
            }
            let planted = (0..rows.len()).collect();
            for _ in 0..r.below(max + 4) {
                let k = r.range(1, 4.min(n));
                let mut row: Vec<usize> = (0..k).map(|_| r.below(n)).collect();
                row.sort_unstable();
                row.dedup();
                rows.push(row);
            }
            (rows, planted, "hidden cover")
        }
        3 => {
            // Rows of two: matchings, with many dead ends.
            let k = r.range(1, 3 * max / 2);
            let rows = (0..k)
                .map(|_| {
                    let (a, b) = (r.below(n), r.below(n));
                    if a == b { vec![a] } else { vec![a, b] }
                })
                .filter(|v: &Vec<usize>| v.len() == 2 || n < 4)
                .collect();
            (rows, vec![], "pairs")
        }
        4 => {
            // Tiling a strip with pieces: constraints are squares, rows are placements.
            let piece = [2, 3][r.below(2)];
            let w = r.range(2, 4).min(max / 2 + 1);
            let h = (max / w).max(1);
            let mut rows = Vec::new();
            for y in 0..h {
                for x in 0..w {
                    if x + piece <= w {
                        rows.push((0..piece).map(|d| y * w + x + d).collect::<Vec<_>>());
                    }
                    if y + piece <= h {
                        rows.push((0..piece).map(|d| (y + d) * w + x).collect());
                    }
                }
            }
            if r.chance(1, 2) {
                rows.push(vec![r.below(w * h)]);
            }
            let (mut constraints, number) = transpose(r, w * h, &rows);
            if r.chance(1, 4) {
                let k = r.below(constraints.len());
                constraints[k].clear();
            }
            let select = selection(r, &constraints, &number, &[]);
            return History { constraints, select, solve: !r.chance(1, 12), kind: "tiling" };
        }
        _ => {
            // Identical and nested rows.
            let mut rows: Vec<Vec<usize>> = Vec::new();
            for _ in 0..r.range(1, max + 4) {
                if !rows.is_empty() && r.chance(1, 2) {
                    let mut v = r.pick(&rows).clone();
                    if v.len() > 1 && r.chance(1, 2) {
                        let k = r.below(v.len());
                        v.remove(k);
                    }
                    rows.push(v);
                } else {
                    let p = r.range(1, 3);
                    rows.push((0..n).filter(|_| r.chance(p, 4)).collect());
                }
            }
            (rows, vec![], "repeated and nested rows")
        }
    };
    let (mut constraints, number) = transpose(r, n, &rows);
    if r.chance(1, 30) {
        let k = r.range(0, constraints.len());
        constraints.insert(k, vec![]);
    }
    let planted: Vec<usize> = planted.iter().map(|&k| number[k]).collect();
    let select = selection(r, &constraints, &number, &planted);
    History { constraints, select, solve: !r.chance(1, 12), kind }
}

/// Systems whose search undoes hundreds of choices.
pub fn deep_history(r: &mut Rng) -> History {
    let n = r.range(20, 44);
    let size = r.range(2, 4);
    let mut rows: Vec<Vec<usize>> = Vec::new();
    if r.chance(2, 3) {
        let mut order: Vec<usize> = (0..n).collect();
        r.shuffle(&mut order);
        for part in order.chunks(size) {
            rows.push(part.to_vec());
        }
    }
    let planted: Vec<usize> = (0..rows.len()).collect();
    for _ in 0..r.range(n, n * 5 / 2) {
        let mut row: Vec<usize> = (0..size).map(|_| r.below(n)).collect();
        row.sort_unstable();
        row.dedup();
        rows.push(row);
    }
    let (constraints, number) = transpose(r, n, &rows);
    let planted: Vec<usize> = planted.iter().map(|&k| number[k]).collect();
    let mut select = selection(r, &constraints, &number, &planted);
    if r.chance(2, 3) {
        select.truncate(1);
    }
    History { constraints, select, solve: true, kind: "deep search" }
}

// ---------------------------------------------------------------- large systems
/// Systems past the limits of bytes and words, solvable or not by construction.
const LARGE: u64 = 216;

pub fn large_history(r: &mut Rng, k: usize) -> (History, bool) {
    let shuffled = |r: &mut Rng, n: usize| {
        let mut v: Vec<usize> = (0..n).collect();
        r.shuffle(&mut v);
        v
    };
    let kind = k % 6;
    let (mut constraints, mut truth): (Vec<Vec<usize>>, bool) = match kind {
        // Wide: each row alone satisfies everything.
        0 => {
            let n = [255, 256, 257, 300, 511, 512, 1000, 32_768, 65_535, 65_536, 65_537, 70_000][k / 6 % 12];
            let v = shuffled(r, n);
            (vec![v; r.range(1, 3)], true)
        }
        // Two or three groups of rows with one constraint each; the groups are wide.
        1 => {
            let n = [128, 255, 256, 257, 400, 32_769, 65_536][k / 6 % 7];
            let g = r.range(2, 3);
            let v = shuffled(r, n * g);
            (v.chunks(n).map(|x| x.to_vec()).collect(), true)
        }
        // Both outer constraints need the middle one.
        2 => {
            let n = [60, 127, 128, 255, 256, 257, 300][k / 6 % 7];
            let v = shuffled(r, 2 * n);
            let mut c = vec![v[..n].to_vec(), v.clone(), v[n..].to_vec()];
            let mut solvable = false;
            if r.chance(1, 2) {
                // One row spares the middle.
                let spare = v[r.below(2 * n)];
                c[1].retain(|&x| x != spare);
                solvable = true;
            }
            (c, solvable)
        }
        // Far apart row numbers that agree in their low bytes.
        4 => {
            let m = r.range(4, 14);
            let numbers: Vec<usize> = match k / 6 % 3 {
                0 => (0..4 * m).map(|i| i % 2 * 65_536 + i / 2).collect(),
                1 => (0..4 * m).map(|i| i * 256 + 7).collect(),
                _ => (0..4 * m).map(|i| i % 3 * 65_536 + i / 3 % 2 * 256 + i / 6).collect(),
            };
            let order = shuffled(r, m);
            let mut names = shuffled(r, numbers.len());
            // Rows of the partition next to each other in their low bytes, mostly.
            if r.chance(2, 3) {
                names.sort_unstable();
            }
            let mut c = vec![Vec::new(); m];
            let (mut at, mut row) = (0, 0);
            while at < m {
                let size = r.range(1, 2).min(m - at);
                order[at..at + size].iter().for_each(|&o| c[o].push(numbers[names[row]]));
                row += 1;
                at += size;
            }
            // And rows of arbitrary constraints.
            for _ in 0..r.below(m) {
                for o in 0..m {
                    if r.chance(1, 4) {
                        c[o].push(numbers[names[row]]);
                    }
                }
                row += 1;
            }
            (c, true)
        }
        // Many constraints: a hidden partition, some of its rows several times.
        _ => {
            let m = if kind == 3 { [129, 200, 256, 257, 324, 511, 700, 1200][k / 6 % 8] } else { [1500, 2100, 2600, 4200, 5000][k / 6 % 5] };
            let order = shuffled(r, m);
            let mut c = vec![Vec::new(); m];
            let (mut at, mut row) = (0, 0);
            while at < m {
                let size = r.range(1, if kind == 3 { 5 } else { 2 }).min(m - at);
                for _ in 0..r.range(1, 3) {
                    order[at..at + size].iter().for_each(|&o| c[o].push(row));
                    row += 1;
                }
                at += size;
            }
            let mut solvable = true;
            if r.chance(1, 6) {
                let o = r.below(m);
                c[o].clear();
                solvable = false;
            }
            (c, solvable)
        }
    };
    if kind != 4 && r.chance(1, 5) {
        let stretch = r.range(2, 30);
        constraints.iter_mut().flatten().for_each(|x| *x *= stretch);
    }
    if r.chance(1, 12) {
        constraints.push(vec![]);
        truth = false;
    }
    let top = constraints.iter().flatten().max().copied().unwrap_or(0);
    let mut select = Vec::new();
    if kind != 2 {
        let most = match kind {
            3 => 40,
            4 => 12,
            5 => *r.pick(&[3, 300, 3000, 12_000]),
            _ => 4,
        };
        for _ in 0..r.below(most) {
            let of = r.pick(&constraints).clone();
            select.push(match r.below(8) {
                0 => r.range(0, top),
                1 => top + 1 + r.below(3),
                2 if !select.is_empty() => *r.pick(&select),
                _ if !of.is_empty() => *r.pick(&of),
                _ => top,
            });
        }
    }
    (History { constraints, select, solve: !r.chance(1, 10), kind: "large system" }, truth)
}

fn large_case(c: &mut Ctx, k: usize) {
    let mut r = c.rng("large cover");
    let (h, mut truth) = large_history(&mut r, k);
    if h.constraints.len() < 16 && k % 6 == 4 {
        let mut model = Model::new(&h.constraints);
        for &row in &h.select {
            let _ = model.select(row);
        }
        match model.solvable(&mut 0) {
            Some(t) => truth = t,
            None => {
                c.unjudged += 1;
                return;
            }
        }
    }
    let n = h.constraints.iter().flatten().max().map_or(0, |m| m + 1);
    let mut rows: Vec<Vec<usize>> = vec![vec![]; n];
    for (i, l) in h.constraints.iter().enumerate() {
        for &x in l {
            rows[x].push(i);
        }
    }
    let show = || json!({"constraints": h.constraints.len(), "rows": n, "kind": k % 6, "preselect": h.select.iter().take(200).collect::<Vec<_>>(), "sizes": h.constraints.iter().take(4).map(|c| c.len()).collect::<Vec<_>>()});
    let got = match guard(|| run(&h)) {
        Err(m) => return c.violate(format!("the engine {m}"), show()),
        Ok(g) => g,
    };
    let mut covered = vec![false; h.constraints.len()];
    let mut accepted = Vec::new();
    for (&row, got) in h.select.iter().zip(&got.selected) {
        let takes = row < n && !rows[row].is_empty() && rows[row].iter().all(|&x| !covered[x]);
        let ok = match got {
            Ok(()) => takes,
            Err(DancingLinksError::IndexError) => row >= n,
            Err(_) => row < n && !takes,
        };
        if !ok {
            return c.violate(format!("preselecting row {row} gives {got:?}"), show());
        }
        if takes {
            rows[row].iter().for_each(|&x| covered[x] = true);
            accepted.push(row);
        }
    }
    match got.answer {
        None => c.count("dropped without solving"),
        Some(Err(e)) => {
            c.count("no solution");
            if truth {
                c.violate(format!("'{e}' although a cover exists"), show());
            }
        }
        Some(Ok(s)) => {
            c.count("solved");
            let mut times = vec![0; h.constraints.len()];
            s.iter().for_each(|&x| {
                if let Some(v) = rows.get(x) {
                    v.iter().for_each(|&o| times[o] += 1);
                }
            });
            let distinct: std::collections::HashSet<_> = s.iter().collect();
            if !truth || times.iter().any(|&t| t != 1) || distinct.len() != s.len() || s.iter().any(|&x| x >= n || rows[x].is_empty()) || accepted.iter().any(|a| !distinct.contains(a)) {
                c.violate(format!("wrong answer with {} rows", s.len()), show());
            }
        }
    }
    c.count(h.kind);
    c.max("constraints", h.constraints.len() as u64);
    c.max("rows", n as u64);
    c.eval(Some(hash_bytes(show().to_string().as_bytes())));
}

fn selection(r: &mut Rng, constraints: &[Vec<usize>], number: &[usize], planted: &[usize]) -> Vec<usize> {
    let top = constraints.iter().flatten().max().copied().unwrap_or(0);
    let mut select = Vec::new();
    for _ in 0..r.below(6) {
        let v = match r.below(10) {
            0 => r.range(0, top + 2),
            1 if !select.is_empty() => *r.pick(&select),
            2 => *r.pick(&[top + 1, top + 2, usize::MAX, usize::MAX / 2]),
            3..=6 if !planted.is_empty() => *r.pick(planted),
            _ if !number.is_empty() => *r.pick(number),
            _ => 0,
        };
        select.push(v);
    }
    select
}

// ---------------------------------------------------------------- execution
/// Result of a history on the real engine.
pub struct Run {
    pub selected: Vec<Result<(), DancingLinksError>>,
    pub answer: Option<Result<Vec<usize>, DancingLinksError>>,
}

pub fn run(h: &History) -> Run {
    let mut m = DancingMatrix::new(h.constraints.iter().map(|c| c.iter()));
    let selected = h.select.iter().map(|&r| m.add_solution(r)).collect();
    let answer = if h.solve { Some(m.solve()) } else { None };
    Run { selected, answer }
}

pub fn check(c: &mut Ctx, h: &History) {
    // Systems too hard for the model are not run, so that an endless search stands out.
    let mut nodes = 0;
    let truth = if h.solve {
        let mut m = Model::new(&h.constraints);
        for &row in &h.select {
            let _ = m.select(row);
        }
        let Some(t) = m.solvable(&mut nodes) else {
            c.unjudged += 1;
            return;
        };
        t
    } else {
        false
    };
    let mut model = Model::new(&h.constraints);
    let got = match guard(|| run(h)) {
        Err(m) => {
            c.violate(format!("the engine {m}"), h.show());
            c.eval(None);
            return;
        }
        Ok(g) => g,
    };
    for (&row, got) in h.select.iter().zip(&got.selected) {
        let want = model.select(row);
        let ok = match (&want, got) {
            (Ok(()), Ok(())) => true,
            (Err(true), Err(DancingLinksError::IndexError)) => true,
            (Err(false), Err(_)) => true,
            _ => false,
        };
        if !ok {
            let w = match want {
                Ok(()) => "accepted",
                Err(true) => "refused as out of bounds",
                Err(false) => "refused",
            };
            c.violate(format!("preselecting row {row} gives {got:?}, it should be {w}"), h.show());
            return;
        }
        c.count(match want {
            Ok(()) => "rows accepted",
            Err(true) => "unknown rows refused",
            Err(false) => "rows refused",
        });
    }
    if let Some(answer) = got.answer {
        c.max("model search nodes", nodes);
        match answer {
            Ok(s) => {
                c.count("solved");
                if let Some(f) = model.fault(&s) {
                    c.violate(format!("wrong answer {s:?}: {f}"), h.show());
                } else if !truth {
                    c.violate("harness: model disagrees with a valid cover", h.show());
                }
            }
            Err(e) => {
                c.count("no solution");
                if truth {
                    c.violate(format!("'{e}' although a cover exists"), h.show());
                } else if !matches!(e, DancingLinksError::NoSolution) {
                    c.violate(format!("'{e}' instead of no solution"), h.show());
                }
            }
        }
    } else {
        c.count("dropped without solving");
    }
    c.count(h.kind);
    let mut bytes = Vec::new();
    for l in h.constraints.iter().chain(std::iter::once(&h.select)) {
        for &v in l {
            bytes.extend_from_slice(&(v as u32).to_le_bytes());
        }
        bytes.push(0xFF);
    }
    let nontrivial = !h.constraints.is_empty() && h.constraints.iter().any(|c| !c.is_empty());
    c.eval(nontrivial.then(|| hash_bytes(&bytes)));
}

fn cover_case(c: &mut Ctx) {
    let mut i = c.idx;
    for b in exhaustive_blocks(c.thorough) {
        let n = block_size(&b);
        let cases = n.div_ceil(CHUNK);
        if i < cases {
            for m in i * CHUNK..((i + 1) * CHUNK).min(n) {
                check(c, &exhaustive_history(&b, m));
            }
            return;
        }
        i -= cases;
    }
    let large = LARGE * if c.thorough { 20 } else { 1 };
    if i < large {
        return large_case(c, i as usize);
    }
    let mut r = c.rng("cover");
    let max = *r.pick(&[4, 7, 7, 10, 10, 14, 18]);
    let h = if c.idx % 20 == 3 { deep_history(&mut r) } else { random_history(&mut r, max) };
    if c.idx % 997 == 5 {
        c.sample(|| h.show());
    }
    check(c, &h);
}
