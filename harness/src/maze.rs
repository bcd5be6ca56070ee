//! Maze monitors: M01 .. M09.
use crate::rt::*;
use crate::{draw, Prop};
use image::RgbImage;
use puzzle_utils::{
    create_maze, print_maze, print_maze_solution, MazeAlgorithm, MazeDirection, MazeError, MazeNode,
};
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::{BTreeMap, HashMap, HashSet};

pub fn props() -> Vec<Prop> {
    fn plan(t: bool) -> u64 {
        SMALL + edge_sizes(EDGE_CELLS).len() as u64 + if t { 900_000 } else { 60_000 }
    }
    vec![
        Prop { id: "M01", plan, case: |c| generated_case(c, perfect) },
        Prop { id: "M02", plan, case: |c| generated_case(c, exit_farthest) },
        Prop { id: "M03", plan, case: |c| generated_case(c, solution_walks) },
        Prop { id: "M04", plan: |t| DISTRIBUTIONS.len() as u64 + REPEATS + STEP_SAMPLES.len() as u64 + LARGE_SAMPLES.len() as u64 * if t { 6 } else { 1 } + if t { 200 } else { 30 }, case: random_case },
        Prop { id: "M05", plan, case: |c| generated_case(c, depth_first) },
        Prop { id: "M06", plan: |t| edge_sizes(70_000).len() as u64 + if t { 800_000 } else { 180_000 }, case: picture_case },
        Prop { id: "M07", plan: |t| edge_sizes(70_000).len() as u64 + LONG_PICTURES + if t { 1_000_000 } else { 240_000 }, case: solution_picture_case },
        Prop { id: "M08", plan: |t| if t { 300_000 } else { 100_000 }, case: serde_case },
        Prop { id: "M09", plan: |t| if t { 48 } else { 16 }, case: large_case },
    ]
}

// ---------------------------------------------------------------- view of the result
#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub struct Cell {
    pub right: bool,
    pub down: bool,
}

#[derive(Clone)]
pub struct Maze {
    pub w: usize,
    pub h: usize,
    pub cells: Vec<Cell>,
    /// Directions in walking order (start to exit).
    pub path: Vec<char>,
    pub nodes: Vec<MazeNode>,
    pub dirs: Vec<MazeDirection>,
}

pub fn letter(d: &MazeDirection) -> char {
    match d {
        MazeDirection::Right => 'R',
        MazeDirection::Down => 'D',
        MazeDirection::Left => 'L',
        MazeDirection::Up => 'U',
    }
}
pub fn direction(c: char) -> MazeDirection {
    match c {
        'R' => MazeDirection::Right,
        'D' => MazeDirection::Down,
        'L' => MazeDirection::Left,
        _ => MazeDirection::Up,
    }
}

// The cell fields are private; a minimal serializer reads the two booleans by name.
pub fn cells_of(nodes: &[MazeNode]) -> Result<Vec<Cell>, String> {
    let text = serde_json::to_string(nodes).map_err(|e| format!("cells do not serialize: {e}"))?;
    serde_json::from_str(&text).map_err(|e| format!("cells serialize to {:.80}: {e}", text))
}
pub fn nodes_of(cells: &[Cell]) -> Result<Vec<MazeNode>, String> {
    let text = serde_json::to_string(cells).map_err(|e| e.to_string())?;
    serde_json::from_str(&text).map_err(|e| format!("cells do not deserialize: {e}"))
}

pub fn view(w: usize, h: usize, nodes: Vec<MazeNode>, dirs: Vec<MazeDirection>) -> Result<Maze, String> {
    Ok(Maze { w, h, cells: cells_of(&nodes)?, path: dirs.iter().rev().map(letter).collect(), nodes, dirs })
}

/// Generates on the current thread.
pub fn generate_here(w: usize, h: usize) -> Result<Maze, String> {
    let (nodes, dirs) =
        guard(|| create_maze(w, h, MazeAlgorithm::RecursiveBacktrack)).map_err(|m| format!("generating {m}"))?;
    view(w, h, nodes, dirs)
}

pub fn show(m: &Maze) -> serde_json::Value {
    let n = m.cells.len().min(900);
    let cells: String = m.cells[..n].iter().map(|c| char::from(b'0' + c.right as u8 + 2 * c.down as u8)).collect();
    let path: String = m.path.iter().take(2000).collect();
    json!({"width": m.w, "height": m.h, "cells(0-3: 1=right wall,2=bottom wall)": cells, "walk": path})
}

// ---------------------------------------------------------------- checks
fn neighbours(m: &Maze, i: usize) -> impl Iterator<Item = (char, usize)> + '_ {
    let (w, h) = (m.w, m.h);
    let (x, y) = (i % w, i / w);
    let mut v: [Option<(char, usize)>; 4] = [None; 4];
    if x + 1 < w && !m.cells[i].right {
        v[0] = Some(('R', i + 1));
    }
    if y + 1 < h && !m.cells[i].down {
        v[1] = Some(('D', i + w));
    }
    if x > 0 && !m.cells[i - 1].right {
        v[2] = Some(('L', i - 1));
    }
    if y > 0 && !m.cells[i - w].down {
        v[3] = Some(('U', i - w));
    }
    v.into_iter().flatten()
}

fn distances(m: &Maze) -> Vec<usize> {
    let mut d = vec![usize::MAX; m.w * m.h];
    d[0] = 0;
    let mut q = std::collections::VecDeque::from([0]);
    while let Some(i) = q.pop_front() {
        let next: Vec<usize> = neighbours(m, i).map(|n| n.1).collect();
        for j in next {
            if d[j] == usize::MAX {
                d[j] = d[i] + 1;
                q.push_back(j);
            }
        }
    }
    d
}

fn exits(m: &Maze) -> Vec<usize> {
    (0..m.w).filter(|x| !m.cells[(m.h - 1) * m.w + x].down).collect()
}

pub fn perfect(m: &Maze) -> Result<(), String> {
    if m.cells.len() != m.w * m.h {
        return Err(format!("{} cells instead of {}", m.cells.len(), m.w * m.h));
    }
    for y in 0..m.h {
        if !m.cells[y * m.w + m.w - 1].right {
            return Err(format!("right border open in row {y}"));
        }
    }
    let e = exits(m);
    if e.len() != 1 {
        return Err(format!("{} openings in the bottom border: {:?}", e.len(), &e[..e.len().min(5)]));
    }
    let mut open = 0;
    for i in 0..m.cells.len() {
        if i % m.w + 1 < m.w && !m.cells[i].right {
            open += 1;
        }
        if i / m.w + 1 < m.h && !m.cells[i].down {
            open += 1;
        }
    }
    if open != m.cells.len() - 1 {
        return Err(format!("{open} passages among {} cells", m.cells.len()));
    }
    let d = distances(m);
    if let Some(i) = d.iter().position(|&x| x == usize::MAX) {
        return Err(format!("cell {i} cannot be reached"));
    }
    Ok(())
}

fn exit_farthest(m: &Maze) -> Result<(), String> {
    if m.cells.len() != m.w * m.h {
        return Err(format!("{} cells instead of {}", m.cells.len(), m.w * m.h));
    }
    let e = exits(m);
    if e.len() != 1 {
        return Err(format!("{} openings in the bottom border: {:?}", e.len(), &e[..e.len().min(5)]));
    }
    let d = distances(m);
    let bottom = (m.h - 1) * m.w;
    let far = d[bottom..].iter().copied().max().unwrap_or(0);
    if d[bottom + e[0]] != far {
        return Err(format!("exit column {} at distance {}, farthest is {far}", e[0], d[bottom + e[0]]));
    }
    Ok(())
}

pub fn solution_walks(m: &Maze) -> Result<(), String> {
    if m.cells.len() != m.w * m.h {
        return Err(format!("{} cells instead of {}", m.cells.len(), m.w * m.h));
    }
    let mut seen = vec![false; m.cells.len()];
    let mut at = 0;
    seen[0] = true;
    for (k, &step) in m.path.iter().enumerate() {
        let next = neighbours(m, at).find(|n| n.0 == step).map(|n| n.1);
        match next {
            None => return Err(format!("step {k} goes {step} from cell {at}, where there is no passage")),
            Some(j) if seen[j] => return Err(format!("step {k} returns to cell {j}")),
            Some(j) => {
                seen[j] = true;
                at = j;
            }
        }
    }
    let bottom = (m.h - 1) * m.w;
    if at < bottom || m.cells[at].down {
        return Err(format!("the walk ends in cell {at}, which is not the exit"));
    }
    Ok(())
}

fn depth_first(m: &Maze) -> Result<(), String> {
    perfect(m)?;
    // Entry and leave times of a walk over the tree give the ancestor relation.
    let n = m.cells.len();
    let (mut tin, mut tout) = (vec![0u32; n], vec![0u32; n]);
    let mut clock = 1;
    let mut stack = vec![(0usize, usize::MAX, neighbours(m, 0).map(|x| x.1).collect::<Vec<_>>())];
    tin[0] = clock;
    while let Some((at, parent, rest)) = stack.last_mut() {
        match rest.pop() {
            Some(j) if j == *parent => (),
            Some(j) => {
                clock += 1;
                tin[j] = clock;
                let p = *at;
                let next = neighbours(m, j).map(|x| x.1).collect();
                stack.push((j, p, next));
            }
            None => {
                tout[*at] = clock;
                stack.pop();
            }
        }
    }
    let related = |a: usize, b: usize| (tin[a] <= tin[b] && tin[b] <= tout[a]) || (tin[b] <= tin[a] && tin[a] <= tout[b]);
    for i in 0..n {
        if i % m.w + 1 < m.w && !related(i, i + 1) {
            return Err(format!("cells {i} and {} are neighbours on different branches", i + 1));
        }
        if i + m.w < n && !related(i, i + m.w) {
            return Err(format!("cells {i} and {} are neighbours on different branches", i + m.w));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- sizes at which counters and widths run over
/// Sizes around powers of two and at round decimal numbers, as strips of several widths in both
/// directions and as squares.
pub fn edge_sizes(cells: usize) -> &'static [(usize, usize)] {
    static ALL: std::sync::OnceLock<Vec<(usize, usize)>> = std::sync::OnceLock::new();
    let all = ALL.get_or_init(|| {
        let mut v = Vec::new();
        for n in [
            63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 254, 255, 256, 257, 300, 400, 500, 511, 512, 513, 600, 700, 800, 900, 999,
            1000, 1001, 1023, 1024, 1025, 2000, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000, 6553, 6554, 8191, 8192, 8193, 10_000, 13_107,
            16_383, 16_384, 16_385, 21_845, 21_846, 32_767, 32_768, 32_769, 65_535, 65_536, 65_537,
        ] {
            for p in [1, 2, 3, 4, 5, 7, 10, 16] {
                v.push((n, p));
                v.push((p, n));
            }
        }
        for s in [64, 100, 101, 127, 128, 129, 181, 182, 200, 255, 256, 257, 300, 362, 363, 400, 513, 600, 725] {
            v.extend([(s, s), (s, s - 1), (s - 1, s), (s / 2, s), (s, s / 2)]);
        }
        v.sort_by_key(|d| (d.0 * d.1, d.0));
        v.dedup();
        v
    });
    &all[..all.partition_point(|d| d.0 * d.1 <= cells)]
}

// ---------------------------------------------------------------- M01 M02 M03 M05
const SMALL: u64 = 14 * 14 * 6 + 240;
const EDGE_CELLS: usize = 530_000;

pub fn dimensions(c: &Ctx, r: &mut Rng) -> (usize, usize) {
    let i = c.idx;
    if i < 14 * 14 * 6 {
        let k = i / 6;
        return (1 + (k % 14) as usize, 1 + (k / 14) as usize);
    }
    let i = i - 14 * 14 * 6;
    if i < 240 {
        // Strips of width or height 1, 2, 3.
        let n = 1 + (i / 6) as usize * if i % 2 == 0 { 1 } else { 7 };
        let s = 1 + (i % 6 / 2) as usize;
        return if r.chance(1, 2) { (s, n) } else { (n, s) };
    }
    if let Some(&d) = edge_sizes(EDGE_CELLS).get((i - 240) as usize) {
        return d;
    }
    match r.below(10) {
        0..=4 => (r.range(1, 12), r.range(1, 12)),
        5 | 6 => (r.range(1, 40), r.range(1, 40)),
        7 => (r.range(1, 3), r.range(1, 400)),
        8 => (r.range(1, 400), r.range(1, 3)),
        _ => (r.range(20, 70), r.range(20, 70)),
    }
}

fn generated_case(c: &mut Ctx, check: fn(&Maze) -> Result<(), String>) {
    let mut r = c.rng("maze");
    let (w, h) = dimensions(c, &mut r);
    let repeats = if w * h > 5000 { 1 } else { 1 + r.below(3) };
    let mazes = with_entropy(r.next(), || (0..repeats).map(|_| generate_here(w, h)).collect::<Vec<_>>());
    for m in mazes {
        match m {
            Err(e) => c.violate(e, json!({"width": w, "height": h})),
            Ok(m) => {
                if let Err(e) = check(&m) {
                    c.violate(e, show(&m));
                }
                c.add("cells", m.cells.len() as u64);
                c.add("solution steps", m.path.len() as u64);
                for (ch, name) in [('L', "steps left"), ('U', "steps up")] {
                    c.add(name, m.path.iter().filter(|&&x| x == ch).count() as u64);
                }
                c.count(match (w, h) {
                    (1, 1) => "1x1",
                    (1, _) => "one cell wide",
                    (_, 1) => "one cell high",
                    _ => "two-dimensional",
                });
                let bits: Vec<u8> = m.cells.iter().map(|c| c.right as u8 + 2 * c.down as u8).collect();
                c.eval((w * h > 1).then(|| hash_bytes(&bits) ^ mix(w as u64)));
                if c.evals % 499 == 40 {
                    c.sample(|| show(&m));
                }
            }
        }
    }
}

// ---------------------------------------------------------------- M04
const DISTRIBUTIONS: &[(usize, usize)] = &[(2, 2), (2, 3), (3, 2), (3, 3), (4, 2), (2, 4), (4, 3), (3, 4), (2, 6), (6, 2), (4, 4)];

/// Exact probability of every passage set that a depth-first generator with uniform choice among
/// unvisited neighbours can produce. A passage set is a bit mask over cell*2 (right), cell*2+1 (down).
fn exact_distribution(w: usize, h: usize) -> BTreeMap<u64, f64> {
    fn go(w: usize, h: usize, path: &mut Vec<usize>, seen: u64, open: u64, p: f64, out: &mut BTreeMap<u64, f64>) {
        let Some(&at) = path.last() else {
            *out.entry(open).or_insert(0.0) += p;
            return;
        };
        let (x, y) = (at % w, at / w);
        let mut next = Vec::new();
        if x + 1 < w {
            next.push((at + 1, 1u64 << (at * 2)));
        }
        if y + 1 < h {
            next.push((at + w, 1u64 << (at * 2 + 1)));
        }
        if x > 0 {
            next.push((at - 1, 1u64 << ((at - 1) * 2)));
        }
        if y > 0 {
            next.push((at - w, 1u64 << ((at - w) * 2 + 1)));
        }
        next.retain(|n| seen & (1 << n.0) == 0);
        if next.is_empty() {
            path.pop();
            go(w, h, path, seen, open, p, out);
            path.push(at);
            return;
        }
        let q = p / next.len() as f64;
        for (j, bit) in next {
            path.push(j);
            go(w, h, path, seen | 1 << j, open | bit, q, out);
            path.pop();
        }
    }
    let mut out = BTreeMap::new();
    go(w, h, &mut vec![0], 1, 0, 1.0, &mut out);
    out
}

fn passages(m: &Maze) -> u64 {
    let mut b = 0;
    for i in 0..m.cells.len() {
        if i % m.w + 1 < m.w && !m.cells[i].right {
            b |= 1 << (i * 2);
        }
        if i / m.w + 1 < m.h && !m.cells[i].down {
            b |= 1 << (i * 2 + 1);
        }
    }
    b
}

/// Standard-normal score of a chi-square value (Wilson-Hilferty).
pub fn chi_score(chi: f64, df: f64) -> f64 {
    ((chi / df).powf(1.0 / 3.0) - (1.0 - 2.0 / (9.0 * df))) / (2.0 / (9.0 * df)).sqrt()
}
/// Above this score a random deviation has a probability below 1e-10.
pub const SCORE: f64 = 6.5;

/// Independent depth-first generator used for two-sample comparison on larger grids.
fn model_maze(w: usize, h: usize, r: &mut Rng) -> Maze {
    let n = w * h;
    let mut cells = vec![Cell { right: true, down: true }; n];
    let mut seen = vec![false; n];
    seen[0] = true;
    let mut path = vec![0];
    while let Some(&at) = path.last() {
        let (x, y) = (at % w, at / w);
        let mut next = Vec::new();
        if x + 1 < w && !seen[at + 1] {
            next.push(at + 1);
        }
        if y + 1 < h && !seen[at + w] {
            next.push(at + w);
        }
        if x > 0 && !seen[at - 1] {
            next.push(at - 1);
        }
        if y > 0 && !seen[at - w] {
            next.push(at - w);
        }
        if next.is_empty() {
            path.pop();
            continue;
        }
        let j = *r.pick(&next);
        if j == at + 1 && (w > 1) {
            cells[at].right = false;
        } else if j + 1 == at && w > 1 {
            cells[j].right = false;
        } else if j > at {
            cells[at].down = false;
        } else {
            cells[j].down = false;
        }
        seen[j] = true;
        path.push(j);
    }
    Maze { w, h, cells, path: vec![], nodes: vec![], dirs: vec![] }
}

/// Shape statistics of a maze: per-edge openness is added to `edges`, the rest is returned.
fn shape(m: &Maze, edges: &mut [f64]) -> [f64; 4] {
    let mut dead = 0.0;
    let mut straight = 0.0;
    for i in 0..m.cells.len() {
        if i % m.w + 1 < m.w && !m.cells[i].right {
            edges[i * 2] += 1.0;
        }
        if i / m.w + 1 < m.h && !m.cells[i].down {
            edges[i * 2 + 1] += 1.0;
        }
        let n: Vec<char> = neighbours(m, i).map(|x| x.0).collect();
        if n.len() == 1 {
            dead += 1.0;
        }
        if n.len() == 2 && matches!((n[0], n[1]), ('R', 'L') | ('D', 'U')) {
            straight += 1.0;
        }
    }
    let d = distances(m);
    let far = d.iter().copied().max().unwrap_or(0) as f64;
    let corner = d[m.cells.len() - 1] as f64;
    [dead, straight, far, corner]
}

fn random_case(c: &mut Ctx) {
    let mut r = c.rng("maze-random");
    let k = c.idx as usize;
    if k < DISTRIBUTIONS.len() {
        let (w, h) = DISTRIBUTIONS[k];
        let exact = exact_distribution(w, h);
        let total: f64 = exact.values().sum();
        assert!((total - 1.0).abs() < 1e-9, "harness: distribution sums to {total}");
        let n = if c.thorough { 1_500_000 } else { 150_000 };
        let mut seen: HashMap<u64, u64> = HashMap::new();
        let mut drawn = 0;
        while drawn < n {
            // Mostly long histories on one thread, some fresh threads.
            let batch = if r.chance(1, 2) { 400 } else { 1 };
            let got = with_entropy(r.next(), || (0..batch).map(|_| generate_here(w, h)).collect::<Vec<_>>());
            for m in got {
                match m {
                    Err(e) => {
                        c.violate(e, json!({"width": w, "height": h}));
                        return;
                    }
                    Ok(m) if m.cells.len() != w * h => {
                        c.violate(format!("{} cells", m.cells.len()), json!({"width": w, "height": h}));
                        return;
                    }
                    Ok(m) => {
                        let key = passages(&m);
                        *seen.entry(key).or_insert(0) += 1;
                        if !exact.contains_key(&key) {
                            c.violate("a maze the algorithm cannot produce", show(&m));
                            return;
                        }
                        c.eval(Some(mix(key) ^ (w * 100 + h) as u64));
                        drawn += 1;
                    }
                }
            }
        }
        // Pool rare outcomes so that every class expects at least 20.
        let (mut chi, mut classes, mut pool_e, mut pool_o) = (0.0, 0usize, 0.0, 0.0);
        let mut worst = (0.0f64, 0u64);
        for (key, p) in &exact {
            let e = p * drawn as f64;
            let o = *seen.get(key).unwrap_or(&0) as f64;
            if e < 20.0 {
                pool_e += e;
                pool_o += o;
            } else {
                let t = (o - e) * (o - e) / e;
                chi += t;
                classes += 1;
                if t > worst.0 {
                    worst = (t, *key);
                }
            }
        }
        if pool_e >= 20.0 {
            chi += (pool_o - pool_e) * (pool_o - pool_e) / pool_e;
            classes += 1;
        }
        let z = chi_score(chi, (classes - 1).max(1) as f64);
        c.add("distinct outcomes", seen.len() as u64);
        c.add("outcome classes", classes as u64);
        c.max("score_milli", (z.max(0.0) * 1000.0) as u64);
        c.sample(|| json!({"size": [w, h], "draws": drawn, "possible": exact.len(), "seen": seen.len(), "chi_square": chi, "classes": classes, "score": z}));
        if z > SCORE {
            c.violate(
                format!("maze frequencies deviate: chi-square {chi:.1} over {classes} classes (score {z:.1}); worst outcome {:#x}", worst.1),
                json!({"width": w, "height": h, "draws": drawn, "outcomes seen": seen.len(), "outcomes possible": exact.len()}),
            );
        }
        return;
    }
    let k = k - DISTRIBUTIONS.len();
    if k == 4 {
        return long_history(c, &mut r);
    }
    if k == 5 {
        return processes(c);
    }
    if k < 4 {
        // No repeats: within a thread, across threads, across a long history, on concurrent threads.
        let (w, h) = [(20, 20), (16, 16), (12, 30), (24, 18)][k];
        let base = r.next();
        let n = 400;
        let mut all = Vec::new();
        match k {
            0 => all = with_entropy(base, || (0..n).map(|_| generate_here(w, h)).collect()),
            1 => {
                for t in 0..n {
                    all.push(with_entropy(mix(base + t as u64), || generate_here(w, h)));
                }
            }
            2 => {
                // Entropy taken from the operating system, as in production.
                let hs: Vec<_> = (0..8)
                    .map(|_| std::thread::spawn(move || (0..n / 8).map(|_| generate_here(w, h)).collect::<Vec<_>>()))
                    .collect();
                for t in hs {
                    all.extend(t.join().expect("harness: join"));
                }
            }
            _ => {
                let hs: Vec<_> = (0..8u64)
                    .map(|t| {
                        std::thread::spawn(move || {
                            getrandom::inject(mix(base ^ t));
                            (0..n / 8).map(|_| generate_here(w, h)).collect::<Vec<_>>()
                        })
                    })
                    .collect();
                for t in hs {
                    all.extend(t.join().expect("harness: join"));
                }
            }
        }
        let mut set = HashSet::new();
        for m in all {
            match m {
                Err(e) => c.violate(e, json!({"width": w, "height": h})),
                Ok(m) => {
                    let bits: Vec<u8> = m.cells.iter().map(|c| c.right as u8 + 2 * c.down as u8).collect();
                    c.eval(Some(hash_bytes(&bits)));
                    if !set.insert(bits) {
                        c.violate(format!("the same {w}x{h} maze came up twice among {n} (mode {k})"), show(&m));
                        return;
                    }
                }
            }
        }
        c.add("mazes compared for repeats", set.len() as u64);
        return;
    }
    let k = k - REPEATS as usize;
    if k < STEP_SAMPLES.len() {
        let (w, h, n) = STEP_SAMPLES[k];
        return step_sample(c, &mut r, w, h, if c.thorough { n * 12 } else { n });
    }
    let k = k - STEP_SAMPLES.len();
    let large = LARGE_SAMPLES.len() * if c.thorough { 6 } else { 1 };
    if k < large {
        let (w, h, n) = LARGE_SAMPLES[k % LARGE_SAMPLES.len()];
        return large_sample(c, &mut r, w, h, if c.thorough { n * 6 } else { n });
    }
    let k = k - large;
    // Two-sample comparison with the model on larger grids.
    let sizes = [(9, 9), (15, 15), (25, 8), (8, 25), (30, 30), (12, 12)];
    let (w, h) = sizes[k % sizes.len()];
    let n = (if c.thorough { 400_000 } else { 120_000 }) / (w * h).max(60);
    let mut e_real = vec![0.0; w * h * 2];
    let mut e_model = e_real.clone();
    let mut stats = [[(0.0f64, 0.0f64); 4]; 2];
    let mut left = n;
    while left > 0 {
        let batch = left.min(50);
        left -= batch;
        let got = with_entropy(r.next(), || (0..batch).map(|_| generate_here(w, h)).collect::<Vec<_>>());
        for m in got {
            let m = match m {
                Ok(m) if m.cells.len() == w * h => m,
                Ok(_) => return c.violate("wrong number of cells", json!({"width": w, "height": h})),
                Err(e) => return c.violate(e, json!({"width": w, "height": h})),
            };
            let model = model_maze(w, h, &mut r);
            for (side, maze, edges) in [(0, &m, &mut e_real), (1, &model, &mut e_model)] {
                let s = shape(maze, edges);
                for (acc, v) in stats[side].iter_mut().zip(s) {
                    acc.0 += v;
                    acc.1 += v * v;
                }
            }
            let bits: Vec<u8> = m.cells.iter().map(|c| c.right as u8 + 2 * c.down as u8).collect();
            c.eval(Some(hash_bytes(&bits)));
        }
    }
    let nf = n as f64;
    let mut worst = 0.0f64;
    for i in 0..e_real.len() {
        let (a, b) = (e_real[i] / nf, e_model[i] / nf);
        let p = (a + b) / 2.0;
        if p * nf > 20.0 && (1.0 - p) * nf > 20.0 {
            let z = (a - b).abs() / (p * (1.0 - p) * 2.0 / nf).sqrt();
            worst = worst.max(z);
            if z > SCORE {
                return c.violate(
                    format!("passage {} of cell {} is open in {:.3} of the mazes, {:.3} expected (score {z:.1})", if i % 2 == 0 { "right" } else { "down" }, i / 2, a, b),
                    json!({"width": w, "height": h, "draws": n}),
                );
            }
        }
    }
    for (k, name) in ["dead ends", "straight cells", "greatest distance", "distance of the far corner"].iter().enumerate() {
        let mean = |s: usize| stats[s][k].0 / nf;
        let var = |s: usize| (stats[s][k].1 / nf - mean(s) * mean(s)).max(0.0);
        let se = ((var(0) + var(1)) / nf).sqrt();
        if se > 0.0 {
            let z = (mean(0) - mean(1)).abs() / se;
            worst = worst.max(z);
            if z > SCORE {
                return c.violate(
                    format!("{name}: mean {:.3}, expected {:.3} (score {z:.1})", mean(0), mean(1)),
                    json!({"width": w, "height": h, "draws": n}),
                );
            }
        }
    }
    c.max("two_sample_score_milli", (worst * 1000.0) as u64);
    c.count("two-sample comparisons");
}

const REPEATS: u64 = 6;
/// Sizes of the comparison of single steps, and how many mazes of each.
const STEP_SAMPLES: &[(usize, usize, usize)] = &[
    (2, 2, 200_000), (3, 3, 200_000), (5, 4, 150_000), (9, 9, 40_000), (12, 12, 30_000), (20, 20, 12_000), (40, 40, 3_000), (90, 80, 700), (2, 60, 20_000), (70, 3, 12_000),
    (7, 300, 1_500), (300, 6, 1_500), (33, 17, 6_000), (16, 32, 6_000),
];
/// What is scored: each direction given the set of open ones, going straight given how many are
/// open, straight by depth, right by column, down by row, and agreement with the maze before.
const SCORES: usize = 64 + 5 + 12 + 4 + 4 + 1;

/// Deviation of the choices that a maze shows from fair ones, per category; each has mean zero.
///
/// In a depth-first tree the unvisited neighbours of a cell when it is entered are exactly its
/// descendants, and the order in which its branches grew is known up to the chances of the orders,
/// so every step's set of possibilities is known, or known in distribution.
fn step_scores(m: &Maze, first: &mut [f32], before: Option<&[f32]>) -> Option<([f64; SCORES], u64)> {
    let (w, h) = (m.w, m.h);
    let n = w * h;
    let (mut enter, mut leave, mut depth, mut from) = (vec![usize::MAX; n], vec![0usize; n], vec![0u32; n], vec![4u8; n]);
    let mut time = 0;
    let mut stack = vec![(0usize, false)];
    let mut order = Vec::with_capacity(n);
    while let Some((v, done)) = stack.pop() {
        if done {
            leave[v] = time;
            continue;
        }
        enter[v] = time;
        time += 1;
        order.push(v);
        stack.push((v, true));
        for (d, j) in neighbours(m, v) {
            if enter[j] == usize::MAX && !(j == 0) {
                let side = match d {
                    'R' => 0,
                    'D' => 1,
                    'L' => 2,
                    _ => 3,
                };
                if side == (from[v] + 2) % 4 && from[v] < 4 {
                    continue;
                }
                from[j] = side;
                depth[j] = depth[v] + 1;
                stack.push((j, false));
            }
        }
    }
    if order.len() != n {
        return None;
    }
    let mut out = [0.0; SCORES];
    let mut steps = 0;
    for &v in &order {
        let (x, y) = (v % w, v / w);
        let at = [(x + 1 < w).then(|| v + 1), (y + 1 < h).then(|| v + w), (x > 0).then(|| v.wrapping_sub(1)), (y > 0).then(|| v.wrapping_sub(w))];
        let child = |d: usize| at[d].is_some_and(|j| from[j] == d as u8 && j != 0 && depth[j] == depth[v] + 1 && !wall(m, v, d));
        // Branches, and which of the possibilities at entry each took away.
        let mut groups = [0usize; 4];
        let mut all = 0usize;
        for d in 0..4 {
            let Some(j) = at[d] else { continue };
            if enter[j] <= enter[v] {
                continue;
            }
            if enter[j] >= leave[v] {
                return None; // not a depth-first tree: another property's matter
            }
            all |= 1 << d;
            let owner = (0..4).find(|&b| child(b) && at[b].is_some_and(|c| enter[c] <= enter[j] && enter[j] < leave[c]))?;
            groups[owner] |= 1 << d;
        }
        let branches: Vec<usize> = (0..4).filter(|&b| groups[b] != 0).collect();
        first[v] = 0.0;
        if all.count_ones() < 2 {
            continue;
        }
        let mut orders: Vec<(f64, Vec<usize>)> = Vec::new();
        permute(&branches, &mut Vec::new(), &mut |p| {
            let mut open = all;
            let mut chance = 1.0;
            for &b in p {
                chance /= open.count_ones() as f64;
                open &= !groups[b];
            }
            orders.push((chance, p.to_vec()));
        });
        let total: f64 = orders.iter().map(|o| o.0).sum();
        for (chance, p) in &orders {
            let weight = chance / total;
            let mut open = all;
            for (k, &b) in p.iter().enumerate() {
                let count = open.count_ones() as usize;
                if count > 1 {
                    let fair = 1.0 / count as f64;
                    for d in 0..4 {
                        if open >> d & 1 == 1 {
                            let s = weight * (f64::from(d == b) - fair);
                            out[open * 4 + d] += s;
                            if d as u8 == from[v] {
                                out[64 + count] += s;
                                out[69 + (32 - (depth[v] + 1).leading_zeros() as usize).min(11)] += s;
                            }
                            if d == 0 {
                                out[81 + x * 4 / w] += s;
                            }
                            if d == 1 {
                                out[85 + y * 4 / h] += s;
                            }
                        }
                    }
                    if k == 0 {
                        let low = open.trailing_zeros() as usize;
                        first[v] += (weight * (f64::from(low == b) - fair)) as f32;
                    }
                }
                open &= !groups[b];
            }
        }
        steps += 1;
    }
    if let Some(b) = before {
        out[89] = first.iter().zip(b).map(|(x, y)| f64::from(x * y)).sum();
    }
    Some((out, steps))
}

fn wall(m: &Maze, v: usize, d: usize) -> bool {
    match d {
        0 => m.cells[v].right,
        1 => m.cells[v].down,
        2 => m.cells[v - 1].right,
        _ => m.cells[v - m.w].down,
    }
}

fn permute(rest: &[usize], head: &mut Vec<usize>, f: &mut impl FnMut(&[usize])) {
    if rest.is_empty() {
        return f(head);
    }
    for (k, &x) in rest.iter().enumerate() {
        let mut others = rest.to_vec();
        others.remove(k);
        head.push(x);
        permute(&others, head, f);
        head.pop();
    }
}

/// The choices of single steps, over many mazes of one size, mostly in long histories of a thread.
fn step_sample(c: &mut Ctx, r: &mut Rng, w: usize, h: usize, n: usize) {
    let mut sums = [(0.0f64, 0.0f64); SCORES];
    let (mut done, mut steps, mut strange) = (0usize, 0u64, 0u64);
    while done < n {
        let batch = (if r.chance(3, 4) { 500 } else { 20 }).min(n - done);
        let got = with_entropy(r.next(), || (0..batch).map(|_| generate_here(w, h)).collect::<Vec<_>>());
        done += batch;
        let mut before: Option<Vec<f32>> = None;
        for m in got {
            let m = match m {
                Ok(m) if m.cells.len() == w * h => m,
                Ok(_) => return c.violate("wrong number of cells", json!({"width": w, "height": h})),
                Err(e) => return c.violate(e, json!({"width": w, "height": h})),
            };
            let mut first = vec![0.0; w * h];
            let Some((s, k)) = step_scores(&m, &mut first, before.as_deref()) else {
                strange += 1;
                before = None;
                continue;
            };
            for (a, x) in sums.iter_mut().zip(s) {
                a.0 += x;
                a.1 += x * x;
            }
            steps += k;
            before = Some(first);
            let bits: Vec<u8> = m.cells.iter().map(|c| c.right as u8 + 2 * c.down as u8).collect();
            c.eval(Some(hash_bytes(&bits)));
        }
    }
    let mut worst = (0.0f64, 0);
    for (k, (sum, squares)) in sums.iter().enumerate() {
        // Enough for the sum to be close to normal.
        if *squares > 60.0 || k == 89 && *squares > 2.0 {
            let z = sum.abs() / squares.sqrt();
            if z > worst.0 {
                worst = (z, k);
            }
        }
    }
    c.add("steps scored", steps);
    c.add("mazes not scored", strange);
    c.max("step_score_milli", (worst.0 * 1000.0) as u64);
    c.sample(|| json!({"size": [w, h], "mazes": n, "steps": steps, "greatest score": worst.0, "category": worst.1}));
    if worst.0 > SCORE {
        let set = |k: usize| "RDLU".chars().enumerate().filter(|(d, _)| k >> d & 1 == 1).map(|x| x.1).collect::<String>();
        let what = match worst.1 {
            k @ 0..=63 => format!("going {} with {} open", "RDLU".chars().nth(k % 4).unwrap_or('?'), set(k / 4)),
            k @ 64..=68 => format!("going straight with {} directions open", k - 64),
            k @ 69..=80 => format!("going straight at depth about 2^{}", k - 69),
            k @ 81..=84 => format!("going right in quarter {} of the columns", k - 80),
            k @ 85..=88 => format!("going down in quarter {} of the rows", k - 84),
            _ => "agreement with the choices of the maze before".into(),
        };
        c.violate(format!("{what}: {:+.1} against fair choice in {steps} steps of {n} mazes (score {:.1})", sums[worst.1].0, worst.0), json!({"width": w, "height": h, "mazes": n}));
    }
}

/// Sizes of the local comparison with the model, and how many mazes of each.
const LARGE_SAMPLES: &[(usize, usize, usize)] =
    &[(60, 60, 200), (200, 200, 48), (300, 300, 40), (1000, 70, 40), (70, 1000, 40), (2, 3000, 150), (3000, 2, 150), (3, 1200, 150), (130, 130, 80), (520, 130, 40)];

/// A very long history on one thread: no maze comes twice.
fn long_history(c: &mut Ctx, r: &mut Rng) {
    let n = if c.thorough { 300_000 } else { 70_000 };
    let (w, h) = (10, 10);
    let faults = with_entropy(r.next(), || {
        let mut seen: HashMap<[u64; 4], usize> = HashMap::new();
        for k in 0..n {
            let m = match generate_here(w, h) {
                Ok(m) => m,
                Err(e) => return Err((e, k)),
            };
            let mut key = [0u64; 4];
            for (i, x) in m.cells.iter().enumerate() {
                let b = 2 * i;
                key[b / 64] |= (u64::from(x.right) | u64::from(x.down) << 1) << (b % 64);
            }
            if let Some(j) = seen.insert(key, k) {
                return Err((format!("maze {k} of one thread is maze {j} again"), k));
            }
        }
        Ok(())
    });
    if let Err((e, k)) = faults {
        c.violate(e, json!({"width": w, "height": h, "calls before": k}));
    }
    c.add("mazes compared for repeats", n as u64);
    c.evals += n as u64;
}

/// One line of text for a maze drawn with the randomness of this process.
pub fn fingerprint() -> String {
    let m: Vec<_> = (0..3).map(|_| generate_here(16, 16).map(|m| hash_bytes(&m.cells.iter().map(|c| c.right as u8 + 2 * c.down as u8).collect::<Vec<_>>()))).collect();
    format!("{m:?}")
}

/// Processes of the same program do not draw the same mazes.
fn processes(c: &mut Ctx) {
    let exe = std::env::current_exe().expect("harness: own path");
    let n = 40;
    let mut seen = HashMap::new();
    let start: Vec<_> = (0..n)
        .map(|_| {
            std::process::Command::new(&exe)
                .arg("fingerprint")
                .stdout(std::process::Stdio::piped())
                .stderr(std::process::Stdio::null())
                .spawn()
                .expect("harness: start a process")
        })
        .collect();
    for (k, p) in start.into_iter().enumerate() {
        let out = p.wait_with_output().expect("harness: wait");
        if !out.status.success() {
            c.unjudged += 1;
            continue;
        }
        if let Some(j) = seen.insert(out.stdout, k) {
            c.violate(format!("two processes draw the same mazes ({j} and {k} of {n})"), json!({"width": 16, "height": 16}));
            return;
        }
        c.eval(None);
    }
    c.add("processes compared", seen.len() as u64);
}

/// Local shapes by region, against the model: bias that shows only far into a large maze.
fn large_sample(c: &mut Ctx, r: &mut Rng, w: usize, h: usize, n: usize) {
    // Regions: thirds of both axes and the four border lines; shapes: the open sides of a cell.
    const REGIONS: usize = 13;
    let mut sums = [vec![(0.0f64, 0.0f64); REGIONS * 16], vec![(0.0f64, 0.0f64); REGIONS * 16]];
    for _ in 0..n {
        let m = match with_entropy(r.next(), || generate_here(w, h)) {
            Ok(m) if m.cells.len() == w * h => m,
            Ok(_) => return c.violate("wrong number of cells", json!({"width": w, "height": h})),
            Err(e) => return c.violate(e, json!({"width": w, "height": h})),
        };
        let model = model_maze(w, h, r);
        for (acc, maze) in sums.iter_mut().zip([&m, &model]) {
            let mut count = vec![0.0; REGIONS * 16];
            for i in 0..w * h {
                let (x, y) = (i % w, i / w);
                let mut s = 0;
                s |= usize::from(x + 1 < w && !maze.cells[i].right);
                s |= usize::from(y + 1 < h && !maze.cells[i].down) << 1;
                s |= usize::from(x > 0 && !maze.cells[i.wrapping_sub(1)].right) << 2;
                s |= usize::from(y > 0 && !maze.cells[i.wrapping_sub(w)].down) << 3;
                count[(x * 3 / w + y * 3 / h * 3) * 16 + s] += 1.0;
                for (k, on) in [x == 0, y == 0, x + 1 == w, y + 1 == h].into_iter().enumerate() {
                    if on {
                        count[(9 + k) * 16 + s] += 1.0;
                    }
                }
            }
            for (a, v) in acc.iter_mut().zip(count) {
                a.0 += v;
                a.1 += v * v;
            }
        }
        c.eval(Some(r.next()));
    }
    let nf = n as f64;
    let mut worst = 0.0f64;
    for k in 0..REGIONS * 16 {
        let mean = |s: usize| sums[s][k].0 / nf;
        let var = |s: usize| (sums[s][k].1 / nf - mean(s) * mean(s)).max(0.0) * nf / (nf - 1.0);
        let se = ((var(0) + var(1)) / nf).sqrt();
        // Rare shapes are far from normal; they are covered by the others.
        if sums[0][k].0 + sums[1][k].0 < 400.0 || se == 0.0 {
            continue;
        }
        let z = (mean(0) - mean(1)).abs() / se.max(0.02 * (mean(0) + mean(1)).sqrt());
        worst = worst.max(z);
        if z > 9.0 {
            return c.violate(
                format!("cells of shape {:04b} in region {} of {w}x{h} mazes: {:.1} on average, {:.1} expected (score {z:.1})", k % 16, k / 16, mean(0), mean(1)),
                json!({"width": w, "height": h, "draws": n}),
            );
        }
    }
    c.max("large_sample_score_milli", (worst * 1000.0) as u64);
    c.count("local comparisons of large mazes");
}

// ---------------------------------------------------------------- M06
/// Pixels of the documented picture of a grid.
pub fn reference_picture(w: usize, h: usize, cells: &[Cell]) -> RgbImage {
    let (iw, ih) = (w * 10 + 1, h * 10 + 1);
    let mut black = vec![false; iw * ih];
    for y in 0..ih {
        black[y * iw] = true;
    }
    for x in 10..iw {
        black[x] = true;
    }
    for (i, c) in cells.iter().enumerate() {
        let (x0, y0) = (i % w * 10, i / w * 10);
        for k in 0..11 {
            if c.right {
                black[(y0 + k) * iw + x0 + 10] = true;
            }
            if c.down {
                black[(y0 + 10) * iw + x0 + k] = true;
            }
        }
    }
    RgbImage::from_fn(iw as u32, ih as u32, |x, y| if black[y as usize * iw + x as usize] { draw::BLACK } else { draw::WHITE })
}

fn picture_case(c: &mut Ctx) {
    let mut r = c.rng("maze-picture");
    let edges = edge_sizes(70_000);
    let edge = edges.get(c.idx as usize);
    let (w, h) = match r.below(8) {
        _ if edge.is_some() => edges[c.idx as usize],
        0..=3 => (r.range(1, 8), r.range(1, 8)),
        4 => (1, r.range(1, 60)),
        5 => (r.range(1, 60), 1),
        6 => (r.range(1, 30), r.range(1, 30)),
        _ => (r.range(1, 4), r.range(1, 40)),
    };
    let mode = r.below(6);
    let cells: Vec<Cell> = match mode {
        0 => match with_entropy(r.next(), || generate_here(w, h)) {
            Ok(m) => m.cells,
            Err(e) => return c.violate(e, json!({"width": w, "height": h})),
        },
        1 => vec![Cell { right: false, down: false }; w * h],
        2 => vec![Cell { right: true, down: true }; w * h],
        3 => {
            // A single wall, so that a misplaced one cannot hide behind others.
            let mut v = vec![Cell { right: false, down: false }; w * h];
            let i = r.below(w * h);
            if r.chance(1, 2) {
                v[i].right = true
            } else {
                v[i].down = true
            }
            v
        }
        _ => {
            let p = r.range(1, 9);
            (0..w * h).map(|_| Cell { right: r.chance(p, 10), down: r.chance(p, 10) }).collect()
        }
    };
    let nodes = match nodes_of(&cells) {
        Ok(n) => n,
        Err(e) => return c.violate(e, json!({"width": w, "height": h})),
    };
    // Dimensions as passed: matching, or off in some way.
    let (pw, ph) = match r.below(4) {
        0 if edge.is_none() => match r.below(8) {
            6 | 7 => {
                // Dimensions whose product is the number of cells but for some high bits.
                let bits = *r.pick(&[8, 16, 32]);
                let mask = (1u64 << bits) - 1;
                let a = (r.next() & mask.min(if r.chance(1, 2) { 255 } else { mask })) | 1;
                let mut inverse = 1u64;
                for _ in 0..6 {
                    inverse = inverse.wrapping_mul(2u64.wrapping_sub(a.wrapping_mul(inverse)));
                }
                let b = (w as u64 * h as u64).wrapping_mul(inverse) & mask;
                if r.chance(1, 2) { (a as u32, b as u32) } else { (b as u32, a as u32) }
            }
            0 => (w as u32 + 1, h as u32),
            1 => (w as u32, h as u32 + 1),
            2 => (w as u32 - 1, h as u32),
            3 => (h as u32, w as u32),
            4 => (r.below(20) as u32, r.below(20) as u32),
            _ => *r.pick(&[(u32::MAX, u32::MAX), (1 << 16, 1 << 16), (u32::MAX, 1), (1, u32::MAX), (1 << 31, 2), (0, 5), (7, 0)]),
        },
        _ => (w as u32, h as u32),
    };
    let matches = pw as u64 as u128 * ph as u128 == cells.len() as u128;
    let input = || json!({"width": pw, "height": ph, "cells": cells.iter().take(2000).map(|c| char::from(b'0' + c.right as u8 + 2 * c.down as u8)).collect::<String>()});
    match guard(|| print_maze(pw, ph, &nodes)) {
        Err(m) => c.violate(format!("drawing {m}"), input()),
        Ok(Err(e)) => {
            c.count("refused");
            if matches {
                c.violate(format!("drawing reported {e:?}"), input());
            } else if !matches!(e, MazeError::InvalidDimensions) {
                c.violate(format!("mismatched dimensions reported as {e:?}"), input());
            }
        }
        Ok(Ok(img)) => {
            c.count("drawn");
            if !matches {
                c.violate("drew a grid of another size", input());
            } else {
                let want = reference_picture(pw as usize, ph as usize, &cells);
                c.add("pixels compared", want.pixels().len() as u64);
                if let Some(d) = draw::difference(&img, &want) {
                    c.violate(d, input());
                }
            }
        }
    }
    let bits: Vec<u8> = cells.iter().map(|c| c.right as u8 + 2 * c.down as u8).collect();
    c.eval((mode != 1 && mode != 2).then(|| hash_bytes(&bits) ^ mix(((pw as u64) << 32) | ph as u64)));
    if c.evals % 301 == 9 {
        c.sample(input);
    }
}

// ---------------------------------------------------------------- M07
/// Every pixel of the documented path, or None if the path starts in a picture below 6x6.
fn path_pixels(walk: &[char]) -> Vec<(i64, i64)> {
    let mut out: Vec<(i64, i64)> = (0..=5).map(|k| (5, k)).collect();
    let (mut x, mut y) = (0i64, 0i64);
    for s in walk {
        let (dx, dy) = match s {
            'R' => (1, 0),
            'D' => (0, 1),
            'L' => (-1, 0),
            _ => (0, -1),
        };
        out.extend((0..=10).map(|k| (x * 10 + 5 + dx * k, y * 10 + 5 + dy * k)));
        x += dx;
        y += dy;
    }
    out.extend((1..=5).map(|k| (x * 10 + 5, y * 10 + 5 + k)));
    out
}

/// Thin pictures whose length is near a power of two, with a straight path to near the end.
const LONG_PICTURES: u64 = 2 * 6 * 28 * 4;

fn long_picture(k: u64, r: &mut Rng) -> (RgbImage, Vec<MazeDirection>) {
    let tall = k % 2 == 1;
    let length = (1u32 << [7, 8, 10, 12, 15, 16][(k / 2 % 6) as usize]) + (k / 12 % 28) as u32 - 12;
    let across = r.range(6, 23) as u32;
    let (iw, ih) = if tall { (across, length) } else { (length, across) };
    let img = RgbImage::from_pixel(iw, ih, image::Rgb([r.next() as u8, 255, 255]));
    let steps = ((length as usize - 1) / 10 + (k / 336) as usize).saturating_sub(2);
    let mut walk = vec![if tall { 'D' } else { 'R' }; steps];
    if r.chance(1, 2) {
        walk.push(*r.pick(&['R', 'D', 'L', 'U']));
    }
    walk.reverse();
    (img, walk.into_iter().map(direction).collect())
}

fn solution_picture_case(c: &mut Ctx) {
    let mut r = c.rng("maze-solution-picture");
    let edges = edge_sizes(70_000);
    let edge = edges.get(c.idx as usize);
    let long = c.idx.checked_sub(edges.len() as u64).filter(|&k| k < LONG_PICTURES);
    let mode = if edge.is_some() { 0 } else if long.is_some() { 5 } else { c.idx % 5 };
    let (base, dirs, own, size): (RgbImage, Vec<MazeDirection>, bool, (usize, usize)) = if mode < 2 {
        let (w, h) = match r.below(5) {
            _ if edge.is_some() => edges[c.idx as usize],
            0 => (1, r.range(1, 40)),
            1 => (r.range(1, 40), 1),
            2 => (r.range(1, 5), r.range(1, 5)),
            _ => (r.range(2, 25), r.range(2, 25)),
        };
        let m = match with_entropy(r.next(), || generate_here(w, h)) {
            Ok(m) => m,
            Err(e) => return c.violate(e, json!({"width": w, "height": h})),
        };
        match guard(|| print_maze(w as u32, h as u32, &m.nodes)) {
            Ok(Ok(img)) => (img, m.dirs, true, (w, h)),
            Ok(Err(e)) => return c.violate(format!("own maze not drawn: {e:?}"), show(&m)),
            Err(e) => return c.violate(format!("drawing {e}"), show(&m)),
        }
    } else if let Some(k) = long {
        let (img, dirs) = long_picture(k, &mut r);
        (img, dirs, false, (0, 0))
    } else {
        // Arbitrary picture of any size with arbitrary colours, arbitrary walk.
        let (iw, ih) = match r.below(4) {
            0 => (r.below(14) as u32, r.below(14) as u32),
            1 => (r.range(1, 12) as u32 * 10 + 1, r.range(1, 12) as u32 * 10 + 1),
            2 => (r.range(4, 40) as u32, r.range(4, 40) as u32),
            _ => (r.range(0, 130) as u32, r.range(0, 130) as u32),
        };
        let tint = r.next();
        let img = RgbImage::from_fn(iw, ih, |x, y| {
            let z = mix(tint ^ ((x as u64) << 20) ^ y as u64);
            image::Rgb([z as u8, (z >> 8) as u8, (z >> 16) as u8])
        });
        // Walks that mostly stay inside, then possibly leave by one step anywhere.
        let (cw, ch) = ((iw as i64 - 1) / 10, (ih as i64 - 1) / 10);
        let (mut x, mut y) = (0i64, 0i64);
        let mut walk = Vec::new();
        let bias = r.below(4);
        let steps = match r.below(3000) {
            0 => r.range(60_000, 140_000),
            1..100 => r.range(40, 4000),
            _ => r.range(0, 40),
        };
        for _ in 0..steps {
            let d = if r.chance(1, 2) { ['R', 'D', 'L', 'U'][bias] } else { *r.pick(&['R', 'D', 'L', 'U']) };
            let (dx, dy) = match d {
                'R' => (1, 0),
                'D' => (0, 1),
                'L' => (-1, 0),
                _ => (0, -1),
            };
            let inside = x + dx >= 0 && y + dy >= 0 && x + dx < cw && y + dy < ch;
            if inside || (mode == 4 && r.chance(1, 12)) {
                walk.push(d);
                x += dx;
                y += dy;
            }
        }
        walk.reverse();
        (img, walk.into_iter().map(direction).collect(), false, (0, 0))
    };
    let walk: Vec<char> = dirs.iter().rev().map(letter).collect();
    let (iw, ih) = base.dimensions();
    let pixels = path_pixels(&walk);
    let inside = pixels.iter().all(|&(x, y)| x >= 0 && y >= 0 && x < iw as i64 && y < ih as i64);
    let input = || json!({"picture": [iw, ih], "maze": size, "walk": walk.iter().take(2000).collect::<String>(), "case kind": mode});
    match guard(|| print_maze_solution(base.clone(), &dirs)) {
        Err(m) => c.violate(format!("drawing {m}"), input()),
        Ok(Err(MazeError::InvalidDimensions)) => {
            c.count("refused: dimensions");
            if iw >= 6 && ih >= 6 {
                c.violate("reported invalid dimensions for a picture of at least 6x6", input());
            }
        }
        Ok(Err(MazeError::InvalidSolution)) => {
            c.count("refused: solution");
            if iw < 6 || ih < 6 {
                c.violate("reported an invalid solution for a picture below 6x6", input());
            } else if inside {
                c.violate("refused a path that stays inside the picture", input());
            }
        }
        Ok(Ok(img)) => {
            c.count("drawn");
            if iw < 6 || ih < 6 || !inside {
                c.violate("accepted a path that leaves the picture", input());
            } else {
                let mut want = base.clone();
                let mut crossed = None;
                for &(x, y) in &pixels {
                    if own && *base.get_pixel(x as u32, y as u32) == draw::BLACK {
                        crossed = Some((x, y));
                    }
                    want.put_pixel(x as u32, y as u32, draw::RED);
                }
                if let Some(d) = draw::difference(&img, &want) {
                    c.violate(d, input());
                } else if let Some(p) = crossed {
                    c.violate(format!("the maze's own solution crosses a wall at {p:?}"), input());
                }
                c.add("path pixels", pixels.len() as u64);
            }
        }
    }
    if own {
        c.count("own mazes");
        c.add("own steps left or up", walk.iter().filter(|&&d| d == 'L' || d == 'U').count() as u64);
    }
    let key: String = walk.iter().collect();
    c.eval((!walk.is_empty()).then(|| hash_bytes(key.as_bytes()) ^ mix(((iw as u64) << 32) | ih as u64)));
    if c.evals % 601 == 11 {
        c.sample(input);
    }
}

// ---------------------------------------------------------------- M08
fn serde_case(c: &mut Ctx) {
    let mut r = c.rng("maze-serde");
    let (w, h) = (r.range(1, 16), r.range(1, 16));
    let (cells, walk): (Vec<Cell>, Vec<char>) = if c.idx % 2 == 0 {
        match with_entropy(r.next(), || generate_here(w, h)) {
            Ok(m) => (m.cells, m.dirs.iter().map(letter).collect()),
            Err(e) => return c.violate(e, json!({"width": w, "height": h})),
        }
    } else {
        (
            (0..w * h).map(|_| Cell { right: r.chance(1, 2), down: r.chance(1, 2) }).collect(),
            (0..r.below(60)).map(|_| *r.pick(&['R', 'D', 'L', 'U'])).collect(),
        )
    };
    let name = |d: &char| match d {
        'R' => "Right",
        'D' => "Down",
        'L' => "Left",
        _ => "Up",
    };
    // Documents as a stored file would have them: field order and spacing vary.
    let style = r.below(3);
    let doc: String = format!(
        "[{}]",
        cells
            .iter()
            .map(|c| match style {
                0 => format!("{{\"right\":{},\"down\":{}}}", c.right, c.down),
                1 => format!("{{ \"down\": {}, \"right\": {} }}", c.down, c.right),
                _ => format!("{{\n\t\"right\": {},\n\t\"down\": {}\n}}", c.right, c.down),
            })
            .collect::<Vec<_>>()
            .join(",")
    );
    let dir_doc = format!("[{}]", walk.iter().map(|d| format!("\"{}\"", name(d))).collect::<Vec<_>>().join(","));
    let input = || json!({"cells": doc.chars().take(400).collect::<String>(), "directions": dir_doc.chars().take(400).collect::<String>()});
    let r1: Result<(), String> = (|| {
        let nodes: Vec<MazeNode> = serde_json::from_str(&doc).map_err(|e| format!("stored cells refused: {e}"))?;
        let dirs: Vec<MazeDirection> = serde_json::from_str(&dir_doc).map_err(|e| format!("stored directions refused: {e}"))?;
        let out = serde_json::to_value(&nodes).map_err(|e| e.to_string())?;
        let expect: serde_json::Value = cells.iter().map(|c| json!({"right": c.right, "down": c.down})).collect();
        if out != expect {
            return Err("the JSON of the cells differs from the stored form".into());
        }
        let out = serde_json::to_value(&dirs).map_err(|e| e.to_string())?;
        if out != walk.iter().map(|d| json!(name(d))).collect::<serde_json::Value>() {
            return Err("the JSON of the directions differs from the stored form".into());
        }
        // JSON text round trip.
        let again: Vec<MazeNode> = serde_json::from_str(&serde_json::to_string_pretty(&nodes).map_err(|e| e.to_string())?)
            .map_err(|e| format!("own JSON refused: {e}"))?;
        // Positional (binary) round trip.
        let bytes = bincode::serialize(&nodes).map_err(|e| e.to_string())?;
        let bin: Vec<MazeNode> = bincode::deserialize(&bytes).map_err(|e| format!("own bytes refused: {e}"))?;
        if cells_of(&again)? != cells || cells_of(&bin)? != cells {
            return Err("cells changed in a round trip".into());
        }
        let again_d: Vec<MazeDirection> =
            serde_json::from_str(&serde_json::to_string(&dirs).map_err(|e| e.to_string())?).map_err(|e| format!("own JSON refused: {e}"))?;
        let bytes = bincode::serialize(&dirs).map_err(|e| e.to_string())?;
        let bin_d: Vec<MazeDirection> = bincode::deserialize(&bytes).map_err(|e| format!("own bytes refused: {e}"))?;
        for d in [&again_d, &bin_d] {
            if d.iter().map(letter).collect::<Vec<_>>() != walk {
                return Err("directions changed in a round trip".into());
            }
        }
        // Other ways to read and write the same forms.
        let text = serde_json::to_string(&(&nodes, &dirs)).map_err(|e| e.to_string())?;
        let (n1, d1): (Vec<MazeNode>, Vec<MazeDirection>) =
            serde_json::from_reader(std::io::Cursor::new(text.as_bytes())).map_err(|e| format!("refused from a reader: {e}"))?;
        let (n2, d2): (Vec<MazeNode>, Vec<MazeDirection>) =
            serde_json::from_value(serde_json::to_value((&nodes, &dirs)).map_err(|e| e.to_string())?).map_err(|e| format!("refused as a value: {e}"))?;
        // The same texts with letters written as escapes.
        let (n3, d3): (Vec<MazeNode>, Vec<MazeDirection>) =
            serde_json::from_slice(text.replace("ig", "\\u0069g").replace("ow", "\\u006fw").replace('p', "\\u0070").as_bytes())
                .map_err(|e| format!("refused with escapes: {e}"))?;
        let raw = bincode::serialize(&(&nodes, &dirs)).map_err(|e| e.to_string())?;
        let (n4, d4): (Vec<MazeNode>, Vec<MazeDirection>) =
            bincode::deserialize_from(std::io::Cursor::new(raw)).map_err(|e| format!("own bytes refused from a reader: {e}"))?;
        for (n, d) in [(&n1, &d1), (&n2, &d2), (&n3, &d3), (&n4, &d4)] {
            if cells_of(n)? != cells || d.iter().map(letter).collect::<Vec<_>>() != walk {
                return Err("something changed in a round trip".into());
            }
        }
        // Pictures drawn from originals and copies agree.
        let p1 = guard(|| print_maze(w as u32, h as u32, &nodes))?.map_err(|e| format!("{e:?}"))?;
        if let Some(d) = crate::draw::difference(&p1, &reference_picture(w, h, &cells)) {
            return Err(format!("the picture is not that of the stored cells: {d}"));
        }
        for n in [&again, &bin] {
            let p2 = guard(|| print_maze(w as u32, h as u32, n))?.map_err(|e| format!("{e:?}"))?;
            if p1 != p2 {
                return Err("picture of the copy differs".into());
            }
            let s1 = guard(|| print_maze_solution(p1.clone(), &dirs))?.ok();
            let s2 = guard(|| print_maze_solution(p2, &bin_d))?.ok();
            if s1 != s2 {
                return Err("solution picture of the copy differs".into());
            }
        }
        Ok(())
    })();
    if let Err(e) = r1 {
        c.violate(e, input());
    }
    c.add("cells", cells.len() as u64);
    c.add("directions", walk.len() as u64);
    c.eval(Some(hash_bytes(doc.as_bytes()) ^ hash_bytes(dir_doc.as_bytes())));
    if c.evals % 301 == 2 {
        c.sample(input);
    }
}

// ---------------------------------------------------------------- M09
fn large_case(c: &mut Ctx) {
    const SIZES: &[(usize, usize)] = &[
        (1000, 1000), (1, 300_000), (300_000, 1), (2, 250_000), (250_000, 2), (1500, 700), (3, 120_000), (120_000, 3),
    ];
    let mut r = c.rng("maze-large");
    let (w, h) = if (c.idx as usize) < SIZES.len() {
        SIZES[c.idx as usize]
    } else if c.thorough && c.idx % 6 == 0 {
        *r.pick(&[(2500, 2500), (1, 5_000_000), (5_000_000, 1), (2, 3_000_000), (4000, 1000), (1000, 4000)])
    } else {
        let n = r.range(200_000, 1_200_000);
        let w = match r.below(4) {
            0 => r.range(1, 4),
            1 => n / r.range(1, 4),
            _ => r.range(200, 2000),
        };
        (w, n / w)
    };
    let n = w * h;
    // Cost per cell on a small maze of the same shape, for the growth check.
    let (sw, sh) = if w < 30 { (w, 4000 / w) } else if h < 30 { (4000 / h, h) } else { (64, 64) };
    let seed = r.next();
    let small = with_entropy(seed, || {
        let t = thread_cpu_ns();
        for _ in 0..12 {
            let _ = guard(|| create_maze(sw, sh, MazeAlgorithm::RecursiveBacktrack));
        }
        (thread_cpu_ns() - t) as f64 / (12 * sw * sh) as f64
    });
    let (m, big) = with_entropy(seed ^ 1, || {
        let t = thread_cpu_ns();
        let r = guard(|| create_maze(w, h, MazeAlgorithm::RecursiveBacktrack));
        (r, (thread_cpu_ns() - t) as f64 / n as f64)
    });
    let input = json!({"width": w, "height": h, "ns per cell": big, "ns per cell (small maze)": small});
    match m {
        Err(e) => c.violate(format!("generating {e}"), input.clone()),
        Ok((nodes, dirs)) => match view(w, h, nodes, dirs) {
            Err(e) => c.violate(e, input.clone()),
            Ok(m) => {
                for check in [perfect, exit_farthest, solution_walks] {
                    if let Err(e) = check(&m) {
                        c.violate(e, input.clone());
                    }
                }
                c.add("cells", n as u64);
                c.max("solution_steps", m.path.len() as u64);
                // Quadratic growth would give a factor of at least 50 here; caches account for a few.
                if small > 0.0 && big > 0.0 {
                    c.max("growth_percent", (100.0 * big / small) as u64);
                    if big > 25.0 * small && big > 2_000.0 {
                        c.violate("generation time grows much faster than the number of cells", input.clone());
                    }
                }
            }
        },
    }
    c.eval(Some(mix(n as u64) ^ seed));
    c.sample(|| input);
}
