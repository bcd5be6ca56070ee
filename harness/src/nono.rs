//! Nonogram monitors: N01 .. N07.
use crate::rt::*;
use crate::{draw, Prop};
use image::RgbImage;
use imageproc::drawing::draw_text_mut;
use puzzle_utils::{
    parse_nonogram_rules, print_nonogram, print_nonogram_solution, solve_nonogram, NonogramError, RgbBuffer,
};
use serde_json::json;

pub type Rules = Vec<Vec<usize>>;

pub fn props() -> Vec<Prop> {
    fn solve_plan(t: bool) -> u64 {
        let (g, c) = (grid_blocks(t).1, rule_blocks(t).1);
        g + c + if t { 700_000 } else { 42_000 }
    }
    vec![
        Prop { id: "N01", plan: solve_plan, case: |c| solve_case(c, false) },
        Prop { id: "N02", plan: solve_plan, case: |c| solve_case(c, true) },
        Prop { id: "N03", plan: |t| if t { 40_000_000 } else { 6_000_000 }, case: parse_case },
        Prop { id: "N04", plan: |t| if t { 8_000_000 } else { 1_500_000 }, case: degenerate_case },
        Prop { id: "N05", plan: |t| if t { 500_000 } else { 60_000 }, case: picture_case },
        Prop { id: "N06", plan: |t| if t { 1_000_000 } else { 60_000 }, case: solution_picture_case },
        Prop { id: "N07", plan: |_| (MAX_LINE + LONG_LINES.len()) as u64, case: legible_case },
    ]
}

// ---------------------------------------------------------------- reference
/// Run lengths of the filled squares of a line.
pub fn runs(line: impl Iterator<Item = bool>) -> Vec<usize> {
    let mut out = Vec::new();
    let mut n = 0;
    for f in line {
        if f {
            n += 1;
        } else if n > 0 {
            out.push(n);
            n = 0;
        }
    }
    if n > 0 {
        out.push(n);
    }
    out
}

pub fn rules_of(w: usize, h: usize, g: &[bool]) -> (Rules, Rules) {
    (
        (0..w).map(|x| runs((0..h).map(|y| g[y * w + x]))).collect(),
        (0..h).map(|y| runs((0..w).map(|x| g[y * w + x]))).collect(),
    )
}

fn blocks(rule: &[usize]) -> Vec<usize> {
    rule.iter().copied().filter(|&v| v > 0).collect()
}

/// First reason why `g` does not satisfy the rules.
pub fn grid_fault(g: &[bool], col: &[Vec<usize>], row: &[Vec<usize>]) -> Option<String> {
    let (w, h) = (col.len(), row.len());
    if g.len() != w * h {
        return Some(format!("{} squares instead of {}", g.len(), w * h));
    }
    let (c, r) = rules_of(w, h, g);
    for x in 0..w {
        if c[x] != blocks(&col[x]) {
            return Some(format!("column {x} has runs {:?}, its rule is {:?}", c[x], col[x]));
        }
    }
    for y in 0..h {
        if r[y] != blocks(&row[y]) {
            return Some(format!("row {y} has runs {:?}, its rule is {:?}", r[y], row[y]));
        }
    }
    None
}

const UNKNOWN: u8 = 0;
const FULL: u8 = 1;
const EMPTY: u8 = 2;

/// For every square of the line, which of FULL (1) and EMPTY (2) occur in some arrangement.
fn line_options(rule: &[usize], line: &[u8]) -> Option<Vec<u8>> {
    let (n, k) = (line.len(), rule.len());
    let mut blank_run = vec![0usize; n + 1]; // squares not EMPTY, ending before i
    for i in 0..n {
        blank_run[i + 1] = if line[i] == EMPTY { 0 } else { blank_run[i] + 1 };
    }
    // pre[j][i]: the first j blocks fit into the first i squares, all FULL squares there covered.
    let mut pre = vec![vec![false; n + 1]; k + 1];
    let mut suf = vec![vec![false; n + 1]; k + 1]; // suf[j][i]: blocks j.. fit into squares i..
    pre[0][0] = true;
    for j in 0..=k {
        for i in 0..=n {
            if i > 0 && line[i - 1] != FULL && pre[j][i - 1] {
                pre[j][i] = true;
            }
            if j > 0 {
                let b = rule[j - 1];
                if i >= b && blank_run[i] >= b {
                    let s = i - b;
                    if (s == 0 && j == 1) || (s > 0 && line[s - 1] != FULL && pre[j - 1][s - 1]) {
                        pre[j][i] = true;
                    }
                }
            }
        }
    }
    if !pre[k][n] {
        return None;
    }
    suf[k][n] = true;
    for j in (0..=k).rev() {
        for i in (0..=n).rev() {
            if i < n && line[i] != FULL && suf[j][i + 1] {
                suf[j][i] = true;
            }
            if j < k {
                let b = rule[j];
                if i + b <= n && blank_run[i + b] >= b {
                    let e = i + b;
                    if (e == n && j + 1 == k) || (e < n && line[e] != FULL && suf[j + 1][e + 1]) {
                        suf[j][i] = true;
                    }
                }
            }
        }
    }
    let mut out = vec![0u8; n];
    for i in 0..n {
        if line[i] != FULL && (0..=k).any(|j| pre[j][i] && suf[j][i + 1]) {
            out[i] |= EMPTY;
        }
    }
    for j in 0..k {
        let b = rule[j];
        for s in 0..=n.saturating_sub(b) {
            let e = s + b;
            if e > n || blank_run[e] < b {
                continue;
            }
            let left = (s == 0 && j == 0) || (s > 0 && line[s - 1] != FULL && pre[j][s - 1]);
            let right = (e == n && j + 1 == k) || (e < n && line[e] != FULL && suf[j + 1][e + 1]);
            if left && right {
                for o in &mut out[s..e] {
                    *o |= FULL;
                }
            }
        }
    }
    Some(out)
}

/// What overlap of the leftmost and rightmost arrangement settles (weaker than `line_options`).
fn line_overlap(rule: &[usize], line: &[u8]) -> Option<Vec<u8>> {
    fn leftmost(rule: &[usize], line: &[u8]) -> Option<Vec<usize>> {
        let (n, k) = (line.len(), rule.len());
        // suf[j][i]: blocks j.. fit into squares i..
        let mut suf = vec![vec![false; n + 2]; k + 1];
        let room = |s: usize, b: usize| s + b <= n && line[s..s + b].iter().all(|&v| v != EMPTY);
        for j in (0..=k).rev() {
            for i in (0..=n).rev() {
                suf[j][i] = if i == n { j == k } else { line[i] != FULL && suf[j][i + 1] }
                    || j < k && room(i, rule[j]) && {
                        let e = i + rule[j];
                        if e == n { j + 1 == k } else { line[e] != FULL && suf[j + 1][e + 1] }
                    };
            }
        }
        if !suf[0][0] {
            return None;
        }
        let mut at = 0;
        let mut out = Vec::new();
        for (j, &b) in rule.iter().enumerate() {
            loop {
                let e = at + b;
                if room(at, b) && (if e == n { j + 1 == k } else { line[e] != FULL && suf[j + 1][e + 1] }) {
                    break;
                }
                at += 1;
            }
            out.push(at);
            at += b + 1;
        }
        Some(out)
    }
    let n = line.len();
    let l = leftmost(rule, line)?;
    let rev_rule: Vec<usize> = rule.iter().rev().copied().collect();
    let rev_line: Vec<u8> = line.iter().rev().copied().collect();
    let rr = leftmost(&rev_rule, &rev_line)?;
    let k = rule.len();
    let r: Vec<usize> = (0..k).map(|j| n - rr[k - 1 - j] - rule[j]).collect();
    let mut out = vec![FULL | EMPTY; n];
    for j in 0..k {
        for o in out.iter_mut().take(l[j] + rule[j]).skip(r[j]) {
            *o = FULL;
        }
    }
    for j in 0..=k {
        let (a, b) = if j == 0 { (0, 0) } else { (l[j - 1] + rule[j - 1], r[j - 1] + rule[j - 1]) };
        let (e, f) = if j == k { (n, n) } else { (l[j], r[j]) };
        for o in out.iter_mut().take(e.min(f)).skip(a.max(b)) {
            *o = EMPTY;
        }
    }
    Some(out)
}

pub struct Answer {
    pub solutions: Vec<Vec<bool>>,
    pub nodes: u64,
    /// The search covered everything, or the limit was reached.
    pub decided: bool,
}

struct Ref<'a> {
    w: usize,
    h: usize,
    col: &'a [Vec<usize>],
    row: &'a [Vec<usize>],
    nodes: u64,
    budget: u64,
    limit: usize,
    found: Vec<Vec<bool>>,
    line: fn(&[usize], &[u8]) -> Option<Vec<u8>>,
    /// Which guess comes first.
    order: [u8; 2],
    /// Whether the last open square is guessed instead of the first.
    last: bool,
}

impl Ref<'_> {
    fn propagate(&self, g: &mut [u8]) -> bool {
        loop {
            let mut changed = false;
            for x in 0..self.w + self.h {
                let idx: Vec<usize> = if x < self.w {
                    (0..self.h).map(|y| y * self.w + x).collect()
                } else {
                    (0..self.w).map(|k| (x - self.w) * self.w + k).collect()
                };
                let rule = if x < self.w { &self.col[x] } else { &self.row[x - self.w] };
                let line: Vec<u8> = idx.iter().map(|&i| g[i]).collect();
                let Some(o) = (self.line)(rule, &line) else { return false };
                for (k, &i) in idx.iter().enumerate() {
                    if g[i] == UNKNOWN && o[k] != FULL | EMPTY {
                        if o[k] == 0 {
                            return false;
                        }
                        g[i] = o[k];
                        changed = true;
                    }
                }
            }
            if !changed {
                return true;
            }
        }
    }
    fn run(&mut self, g: &mut [u8]) -> bool {
        self.nodes += 1;
        if self.nodes > self.budget {
            return false;
        }
        if !self.propagate(g) {
            return true;
        }
        let open = |&v: &u8| v == UNKNOWN;
        let Some(i) = (if self.last { g.iter().rposition(open) } else { g.iter().position(open) }) else {
            self.found.push(g.iter().map(|&v| v == FULL).collect());
            return true;
        };
        for v in self.order {
            let mut a = g.to_vec();
            a[i] = v;
            if !self.run(&mut a) {
                return false;
            }
            if self.found.len() >= self.limit {
                return true;
            }
        }
        true
    }
}

/// Solutions up to `limit`, visiting at most `budget` search nodes.
pub fn reference(col: &[Vec<usize>], row: &[Vec<usize>], limit: usize, budget: u64) -> Answer {
    search(col, row, limit, budget, line_options, [FULL, EMPTY], false)
}

/// Search nodes of a backtracking search with plain overlap logic, or None if above the budget.
/// Puzzles within it are of moderate difficulty for any reasonable solver, whichever square and
/// whichever guess it tries first.
pub fn effort(col: &[Vec<usize>], row: &[Vec<usize>], budget: u64) -> Option<u64> {
    let a = search(col, row, 1, budget, line_overlap, [FULL, EMPTY], false);
    let easy = |col: &[Vec<usize>], row: &[Vec<usize>]| {
        [([FULL, EMPTY], false), ([EMPTY, FULL], false), ([FULL, EMPTY], true), ([EMPTY, FULL], true)]
            .iter()
            .all(|&(order, last)| search(col, row, 1, 3 * budget, line_overlap, order, last).decided)
    };
    let decided = a.decided && (a.nodes == 1 || easy(col, row) && easy(row, col));
    decided.then_some(a.nodes)
}

fn search(
    col: &[Vec<usize>],
    row: &[Vec<usize>],
    limit: usize,
    budget: u64,
    line: fn(&[usize], &[u8]) -> Option<Vec<u8>>,
    order: [u8; 2],
    last: bool,
) -> Answer {
    let (w, h) = (col.len(), row.len());
    let fits = |r: &Vec<usize>, n: usize| r.iter().map(|&v| v as u128).sum::<u128>() <= n as u128;
    if !col.iter().all(|r| fits(r, h)) || !row.iter().all(|r| fits(r, w)) {
        return Answer { solutions: vec![], nodes: 0, decided: true };
    }
    let c: Rules = col.iter().map(|r| blocks(r)).collect();
    let r: Rules = row.iter().map(|r| blocks(r)).collect();
    let mut s = Ref { w, h, col: &c, row: &r, nodes: 0, budget, limit, found: vec![], line, order, last };
    let done = s.run(&mut vec![UNKNOWN; w * h]);
    Answer { decided: done || !s.found.is_empty(), nodes: s.nodes, solutions: s.found }
}

// ---------------------------------------------------------------- generators
const CHUNK: u64 = 128;

/// Dimensions with all their grids, as (w, h, grids), and the number of chunked cases.
fn grid_blocks(t: bool) -> (Vec<(usize, usize, u64)>, u64) {
    let max = if t { 16 } else { 12 };
    let mut v = Vec::new();
    for w in 1..=max {
        for h in 1..=max {
            if w * h <= max {
                v.push((w, h, 1u64 << (w * h)));
            }
        }
    }
    let n = v.iter().map(|b| b.2.div_ceil(CHUNK)).sum();
    (v, n)
}

/// Every rule that fits a line of n squares.
pub fn all_rules(n: usize) -> Rules {
    let mut v: Rules = (0..1u32 << n).map(|m| runs((0..n).map(|i| m >> i & 1 == 1))).collect();
    v.sort();
    v.dedup();
    v
}

fn rule_blocks(t: bool) -> (Vec<(usize, usize, u64)>, u64) {
    let mut v = Vec::new();
    for (w, h) in [(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (2, 4), (4, 2), (1, 8), (8, 1), (3, 3), (2, 5), (5, 2), (3, 4), (4, 3)] {
        if w * h == 12 && !t {
            continue;
        }
        let n = (all_rules(h).len() as u64).pow(w as u32) * (all_rules(w).len() as u64).pow(h as u32);
        v.push((w, h, n));
    }
    let n = v.iter().map(|b| b.2.div_ceil(CHUNK)).sum();
    (v, n)
}

pub fn random_grid(r: &mut Rng, w: usize, h: usize) -> Vec<bool> {
    let mut g = vec![false; w * h];
    match r.below(6) {
        0..=2 => {
            let p = r.range(1, 19);
            g.iter_mut().for_each(|c| *c = r.chance(p, 20));
        }
        3 => {
            // Rectangles, as pictures have.
            for _ in 0..r.range(1, 5) {
                let (x0, y0) = (r.below(w), r.below(h));
                let (x1, y1) = (r.range(x0, w - 1), r.range(y0, h - 1));
                let v = r.chance(3, 4);
                for y in y0..=y1 {
                    for x in x0..=x1 {
                        g[y * w + x] = v;
                    }
                }
            }
        }
        4 => {
            let p = r.range(1, 19);
            g.iter_mut().for_each(|c| *c = r.chance(p, 20));
            for _ in 0..r.range(1, 3) {
                let v = r.chance(1, 2);
                if r.chance(1, 2) {
                    let y = r.below(h);
                    (0..w).for_each(|x| g[y * w + x] = v);
                } else {
                    let x = r.below(w);
                    (0..h).for_each(|y| g[y * w + x] = v);
                }
            }
        }
        _ => {
            // Few squares per line.
            for y in 0..h {
                for _ in 0..r.range(0, 2) {
                    let x = r.below(w);
                    g[y * w + x] = true;
                }
            }
        }
    }
    g
}

fn random_rule(r: &mut Rng, n: usize) -> Vec<usize> {
    let mut v = Vec::new();
    let mut left = n;
    while left > 0 && !r.chance(1, 4) {
        let b = if r.chance(2, 3) { 1 + r.below(left.min(3)) } else { 1 + r.below(left) };
        v.push(b);
        left = left.saturating_sub(b + 1);
    }
    v
}

/// Makes the number of squares demanded by rows and columns equal, if a few changes suffice.
fn balance(r: &mut Rng, col: &mut Rules, row: &mut Rules) {
    let (w, h) = (col.len(), row.len());
    for _ in 0..60 {
        let (a, b): (usize, usize) = (col.iter().flatten().sum(), row.iter().flatten().sum());
        if a == b {
            return;
        }
        let (line, n) = if a < b {
            (&mut col[r.below(w)], h)
        } else {
            (&mut row[r.below(h)], w)
        };
        if line.is_empty() {
            line.push(1);
        } else if line.iter().sum::<usize>() + line.len() <= n {
            let k = r.below(line.len());
            line[k] += 1;
        }
    }
}

pub const KINDS: usize = 12;

pub fn random_puzzle(r: &mut Rng, kind: usize) -> (Rules, Rules, &'static str) {
    let small = |r: &mut Rng| (r.range(1, 8), r.range(1, 8));
    match kind {
        11 => {
            // Nothing follows from any line: a long chain of guesses.
            let (n, a, b) = (r.range(7, 18), r.range(1, 2), r.range(1, 2));
            let (mut c, mut o): (Rules, Rules) = (vec![vec![b]; n * a], vec![vec![a]; n * b]);
            for _ in 0..r.below(4) {
                let k = r.range(0, c.len());
                c.insert(k, vec![]);
                o.insert(r.below(o.len() + 1), vec![]);
            }
            if r.chance(1, 2) {
                // A full line beside it.
                let h = o.len();
                c.insert(0, vec![h]);
                o.iter_mut().for_each(|v| v.insert(0, 1));
                if r.chance(1, 2) {
                    o.iter_mut().for_each(|v| *v = if v.len() == 1 { vec![1] } else { vec![1 + v[1]] });
                }
            }
            (c, o, "long chains of guesses")
        }
        10 => {
            // Very long lines, and large pictures that line logic solves.
            let (w, h) = match r.below(4) {
                0 => (r.range(1, 3), r.range(61, 300)),
                1 => (r.range(61, 300), r.range(1, 3)),
                _ => (r.range(18, 40), r.range(18, 40)),
            };
            let g: Vec<bool> = if r.chance(1, 2) {
                random_grid(r, w, h)
            } else {
                let p = r.range(11, 19);
                (0..w * h).map(|_| r.chance(p, 20)).collect()
            };
            let (mut c, o) = rules_of(w, h, &g);
            if r.chance(1, 5) {
                let (a, b) = (r.below(w), r.below(w));
                c.swap(a, b);
            }
            (c, o, "very long lines or large pictures")
        }
        0 | 1 => {
            let (w, h) = small(r);
            let (c, w2) = rules_of(w, h, &random_grid(r, w, h));
            (c, w2, "from a grid")
        }
        2 => {
            // A grid's rules with one or two local faults.
            let (w, h) = small(r);
            let (mut c, mut o) = rules_of(w, h, &random_grid(r, w, h));
            for _ in 0..r.range(1, 2) {
                let n = if r.chance(1, 2) { h } else { w };
                let list = if n == h && r.chance(1, 2) || w != h && n == h { &mut c } else { &mut o };
                let k = r.below(list.len());
                match r.below(5) {
                    0 => {
                        let j = r.below(list.len());
                        list.swap(k, j);
                    }
                    1 => list[k].reverse(),
                    2 if !list[k].is_empty() => {
                        let m = r.below(list[k].len());
                        list[k][m] += 1;
                    }
                    3 if !list[k].is_empty() => {
                        let m = r.below(list[k].len());
                        if list[k][m] > 1 {
                            list[k][m] -= 1;
                        } else {
                            list[k].remove(m);
                        }
                    }
                    _ => list[k].push(1),
                }
            }
            (c, o, "a grid's rules with a fault")
        }
        3 => {
            // Shifted rules: same totals, other lines.
            let (w, h) = small(r);
            let (mut c, o) = rules_of(w, h, &random_grid(r, w, h));
            if r.chance(1, 2) {
                c.rotate_left(r.below(w));
            } else {
                r.shuffle(&mut c);
            }
            (c, o, "a grid's rules with columns exchanged")
        }
        4 => {
            let (w, h) = small(r);
            let mut c: Rules = (0..w).map(|_| random_rule(r, h)).collect();
            let mut o: Rules = (0..h).map(|_| random_rule(r, w)).collect();
            if r.chance(4, 5) {
                balance(r, &mut c, &mut o);
            }
            (c, o, "independent rules")
        }
        5 => {
            // One square per line: n! solutions, or none.
            let n = r.range(2, 6);
            let mut c: Rules = vec![vec![1]; n];
            let mut o: Rules = vec![vec![1]; n];
            for _ in 0..r.below(3) {
                let k = r.range(0, c.len());
                if r.chance(1, 2) {
                    c.insert(k, vec![]);
                } else {
                    o.insert(k.min(o.len()), vec![]);
                }
            }
            if r.chance(1, 4) {
                let k = r.below(c.len());
                c[k] = vec![2];
            }
            (c, o, "one square per line")
        }
        6 => {
            // Independent small ambiguous blocks on a diagonal, sometimes with an impossible last one.
            let k = r.range(2, 4);
            let (mut c, mut o) = (vec![], vec![]);
            for b in 0..k {
                let s = r.range(2, 3);
                for _ in 0..s {
                    c.push(vec![1]);
                    o.push(vec![1]);
                }
                if b + 1 == k && r.chance(1, 3) {
                    c.push(vec![1]);
                    o.push(vec![]);
                }
                if r.chance(1, 2) {
                    c.push(vec![]);
                    o.push(vec![]);
                }
            }
            (c, o, "ambiguous blocks")
        }
        7 => {
            // Long thin puzzles.
            let (a, b) = (r.range(1, 3), r.range(9, 60));
            let (w, h) = if r.chance(1, 2) { (a, b) } else { (b, a) };
            let g: Vec<bool> = if r.chance(1, 2) {
                random_grid(r, w, h)
            } else {
                let p = r.range(1, 19);
                (0..w * h).map(|_| r.chance(p, 20)).collect()
            };
            let (mut c, mut o) = rules_of(w, h, &g);
            if r.chance(1, 4) {
                let n = if w < h { &mut c } else { &mut o };
                let k = r.below(n.len());
                n[k].push(1);
            }
            (c, o, "long and thin")
        }
        8 => {
            let (w, h) = (r.range(5, 12), r.range(5, 12));
            let (c, o) = rules_of(w, h, &random_grid(r, w, h));
            (c, o, "medium, from a grid")
        }
        _ => {
            let m = if r.chance(1, 6) { 25 } else { 17 };
            let (w, h) = (r.range(9, m), r.range(9, m));
            let p = r.range(9, 15);
            let g: Vec<bool> = (0..w * h).map(|_| r.chance(p, 20)).collect();
            let (mut c, mut o) = rules_of(w, h, &g);
            if r.chance(1, 3) {
                let (a, b) = (r.below(w), r.below(w));
                c.swap(a, b);
            } else if r.chance(1, 4) {
                let k = r.below(h);
                o[k].reverse();
            }
            (c, o, "large and dense")
        }
    }
}

/// Writes empty rules as [0] or [] at random.
fn dress(r: &mut Rng, rules: &mut Rules) {
    for v in rules.iter_mut() {
        if v.is_empty() && r.chance(1, 2) {
            v.push(0);
        }
    }
}

// ---------------------------------------------------------------- N01 N02
fn shape(col: &Rules, row: &Rules) -> serde_json::Value {
    json!({"columns": col, "rows": row})
}

fn hash_rules(col: &Rules, row: &Rules) -> u64 {
    let mut b = Vec::new();
    for l in [col, row] {
        for v in l {
            for &x in v {
                b.extend_from_slice(&(x as u64).to_le_bytes());
            }
            b.push(0xFE);
        }
        b.push(0xFF);
    }
    hash_bytes(&b)
}

/// Judges one puzzle; `exact` asks for the yes/no answer (N02), else for the grid (N01).
fn judge(c: &mut Ctx, col: &Rules, row: &Rules, truth: Option<bool>, kind: &str, exact: bool) {
    let got = guard(|| solve_nonogram(col, row));
    let hash = Some(hash_rules(col, row));
    match got {
        Err(m) => {
            c.violate(format!("solving {m}"), shape(col, row));
            c.eval(hash);
        }
        Ok(Ok(g)) => {
            c.count("answered with a grid");
            if exact {
                match truth {
                    Some(true) => c.eval(hash),
                    Some(false) => {
                        c.violate("a grid is returned although no grid satisfies the rules", shape(col, row));
                        c.eval(hash);
                    }
                    None => c.unjudged += 1,
                }
            } else {
                if let Some(f) = grid_fault(&g, col, row) {
                    c.violate(format!("returned grid is wrong: {f}"), shape(col, row));
                }
                c.eval(hash);
            }
        }
        Ok(Err(e)) => {
            c.count("answered with an error");
            if exact {
                match truth {
                    Some(true) => {
                        c.violate(format!("'{e}' although a solution exists"), shape(col, row));
                        c.eval(hash);
                    }
                    Some(false) => {
                        if !matches!(e, NonogramError::NoSolution) {
                            c.violate(format!("'{e}' instead of no solution"), shape(col, row));
                        }
                        c.eval(hash);
                    }
                    None => c.unjudged += 1,
                }
            } else {
                c.eval(None);
            }
        }
    }
    c.count(kind);
}

/// Lines of hundreds and thousands of squares, one square wide: what the crossing lines say is all there is.
const LONG_CASES: u64 = 96;
fn long_case(c: &mut Ctx, r: &mut Rng, i: u64, exact: bool) {
    let n = [255, 256, 257, 300, 511, 512, 513, 700, 1000, 1023, 1024, 1025][i as usize % 12] + if i < 12 { 0 } else { r.below(40) };
    let density = r.range(1, 19);
    let g: Vec<bool> = match r.below(5) {
        0 => vec![true; n],
        1 => (0..n).map(|k| k % 2 == 0).collect(),
        2 => {
            // Few, long runs.
            let mut on = false;
            (0..n).map(|_| { if r.chance(1, 40) { on = !on; } on }).collect()
        }
        _ => (0..n).map(|_| r.chance(density, 20)).collect(),
    };
    let (mut col, mut row) = rules_of(1, n, &g);
    let mut truth = true;
    if r.chance(1, 3) {
        // Another rule for the long line; the short ones determine it.
        let v = &mut col[0];
        let k = r.below(v.len().max(1));
        match r.below(5) {
            _ if v.is_empty() => v.push(1),
            0 => v[k] += 1,
            1 if v[k] > 1 => v[k] -= 1,
            2 => { v.remove(k); }
            3 => v.push(1),
            _ => v.reverse(),
        }
        truth = *v == runs(g.iter().copied());
    }
    dress(r, &mut row);
    dress(r, &mut col);
    if i / 12 % 2 == 1 {
        std::mem::swap(&mut col, &mut row);
    }
    c.max("squares", n as u64);
    c.count(if truth { "solvable" } else { "unsolvable" });
    judge(c, &col, &row, Some(truth), "one long line", exact);
}

fn solve_case(c: &mut Ctx, exact: bool) {
    let mut i = c.idx;
    let (gb, gn) = grid_blocks(c.thorough);
    if i < gn {
        for (w, h, n) in gb {
            let cases = n.div_ceil(CHUNK);
            if i < cases {
                for m in i * CHUNK..((i + 1) * CHUNK).min(n) {
                    let g: Vec<bool> = (0..w * h).map(|k| m >> k & 1 == 1).collect();
                    let (col, row) = rules_of(w, h, &g);
                    judge(c, &col, &row, Some(true), "every grid of a small size", exact);
                }
                return;
            }
            i -= cases;
        }
        return;
    }
    i -= gn;
    let (rb, rn) = rule_blocks(c.thorough);
    if i < rn {
        for (w, h, n) in rb {
            let cases = n.div_ceil(CHUNK);
            if i < cases {
                let (cr, rr) = (all_rules(h), all_rules(w));
                for m in i * CHUNK..((i + 1) * CHUNK).min(n) {
                    let mut m = m as usize;
                    let mut take = |from: &Rules| {
                        let v = from[m % from.len()].clone();
                        m /= from.len();
                        v
                    };
                    let col: Rules = (0..w).map(|_| take(&cr)).collect();
                    let row: Rules = (0..h).map(|_| take(&rr)).collect();
                    let truth = !reference(&col, &row, 1, u64::MAX).solutions.is_empty();
                    c.count(if truth { "solvable" } else { "unsolvable" });
                    judge(c, &col, &row, Some(truth), "every rule set of a small size", exact);
                }
                return;
            }
            i -= cases;
        }
        return;
    }
    let mut r = c.rng("nonogram");
    i -= rn;
    if i < LONG_CASES {
        return long_case(c, &mut r, i, exact);
    }
    let pick = if r.chance(1, 40) { 10 } else if r.chance(1, 60) { 11 } else { *r.pick(&[0, 0, 1, 2, 2, 3, 3, 4, 4, 5, 6, 7, 8, 9]) };
    let (mut col, mut row, kind) = random_puzzle(&mut r, pick);
    dress(&mut r, &mut col);
    dress(&mut r, &mut row);
    // Only puzzles whose search is short, so that an endless run stands out.
    let Some(effort) = effort(&col, &row, 12_000_000 / ((col.len() * row.len()) as u64).pow(2).max(3_000)) else {
        c.unjudged += 1;
        return;
    };
    let a = reference(&col, &row, 2, 20_000);
    if !a.decided {
        c.unjudged += 1;
        return;
    }
    c.max("search nodes with plain overlap logic", effort);
    c.max("reference search nodes", a.nodes);
    c.max("squares", (col.len() * row.len()) as u64);
    if a.nodes > 1 {
        c.count("line logic is not enough");
    }
    c.count(match a.solutions.len() {
        0 => "unsolvable",
        1 => "solvable",
        _ => "solvable, several solutions",
    });
    if c.idx % 997 == 5 {
        c.sample(|| shape(&col, &row));
    }
    let t = thread_cpu_ns();
    judge(c, &col, &row, Some(!a.solutions.is_empty()), kind, exact);
    c.max(&format!("microseconds, {kind}"), (thread_cpu_ns().saturating_sub(t)) / 1000);
}

// ---------------------------------------------------------------- N03
#[derive(Debug, PartialEq)]
enum Parsed {
    Rules(Rules),
    Invalid(String),
    Dimension,
    /// An item whose status the property leaves open (a number with a leading plus).
    Open,
}

fn item(x: &str) -> Result<u64, ()> {
    if x.is_empty() || !x.bytes().all(|b| b.is_ascii_digit()) {
        return Err(());
    }
    let d = x.trim_start_matches('0');
    if d.len() > 20 {
        return Err(());
    }
    let mut v: u128 = 0;
    for b in d.bytes() {
        v = v * 10 + u128::from(b - b'0');
    }
    u64::try_from(v).map_err(|_| ())
}

fn parse_reference(text: &str, bound: usize) -> Parsed {
    let mut out = Vec::new();
    for rule in text.split(';') {
        let mut v = Vec::new();
        let mut sum = 0u128;
        for x in rule.split(',') {
            match item(x) {
                Ok(n) => {
                    v.push(n as usize);
                    sum += u128::from(n);
                }
                Err(()) => {
                    if x.strip_prefix('+').is_some_and(|y| item(y).is_ok()) {
                        return Parsed::Open;
                    }
                    return Parsed::Invalid(x.to_string());
                }
            }
        }
        if sum + (v.len() as u128 - 1) > bound as u128 {
            return Parsed::Dimension;
        }
        out.push(v);
    }
    Parsed::Rules(out)
}

fn bad_item(r: &mut Rng) -> String {
    const POOL: &[&str] = &[
        "", " ", "a", "-1", "-0", " 1", "1 ", "1.0", "0x1", "1e3", "--", "१", "２", "²", "\u{0}", "1\n", "\t1", "é", "18446744073709551616",
        "99999999999999999999", "340282366920938463463374607431768211456", "1_000", "∞", "1'000", "\u{feff}1", "٣", "1\r", "+", "+-1", "-", "NaN", "1:2", "1|2", "①",
    ];
    if r.chance(3, 4) {
        r.pick(POOL).to_string()
    } else {
        let n = r.range(1, 4);
        (0..n)
            .filter_map(|_| {
                let ch = match r.below(4) {
                    0 => char::from_digit(r.below(10) as u32, 10),
                    1 => char::from_u32(r.range(32, 126) as u32),
                    _ => char::from_u32(r.below(0x11_0000) as u32),
                };
                ch.filter(|c| *c != ',' && *c != ';')
            })
            .collect()
    }
}

fn number_text(r: &mut Rng, bound: usize) -> String {
    let v: u128 = match r.below(14) {
        0..=6 => r.below(4) as u128,
        7 => r.below(30) as u128,
        8 => (bound as u128).saturating_sub(r.below(4) as u128),
        9 => bound as u128 + r.below(3) as u128,
        10 => u64::MAX as u128 - r.below(3) as u128,
        11 => u64::MAX as u128 / 2 + r.below(3) as u128,
        12 => u64::MAX as u128 + 1 + r.below(12) as u128,
        _ => 1u128 << r.below(70),
    };
    let mut s = v.to_string();
    if r.chance(1, 12) {
        s = format!("{}{s}", "0".repeat(r.range(1, 30)));
    }
    s
}

fn parse_case(c: &mut Ctx) {
    let mut r = c.rng("parse");
    let bound = match r.below(14) {
        12 => (1usize << r.range(5, 40)) + r.below(5) - 2,
        13 => *r.pick(&[99, 100, 101, 255, 256, 257, 999, 1000, 9999, 32_767, 65_535, 65_536, 65_537, 1_000_000]),
        0 => 0,
        1 => usize::MAX,
        2 => usize::MAX - r.below(4),
        3 => usize::MAX / 2 + r.below(3),
        4 => r.below(4),
        _ => r.below(40),
    };
    let (text, kind): (String, &str) = match r.below(8) {
        _ if r.chance(1, 400) => {
            // Very many rules, or rules of very many numbers, which fit, just fit or do not fit; possibly one fault.
            let most = if r.chance(1, 12) { 70_000 } else { 700 };
            let n = r.range(1, most);
            let k = r.range(1, (most / n).max(1));
            let slack = bound >= 2 * k;
            let mut items: Vec<Vec<String>> = (0..n)
                .map(|_| (0..k).map(|_| if slack { r.below(2) } else { 0 }.to_string()).collect())
                .collect();
            let (a, b) = (r.below(n), r.below(k));
            match r.below(6) {
                0 => items[a][b] = bad_item(&mut r),
                1 => items[a][b] = number_text(&mut r, bound),
                2 | 3 => {
                    // To the bound exactly, or one over it.
                    let have: usize = items[a].iter().enumerate().filter(|x| x.0 != b).map(|x| x.1.parse::<usize>().unwrap_or(0)).sum::<usize>() + k - 1;
                    if let Some(more) = bound.checked_sub(have) {
                        items[a][b] = (more as u128 + r.below(2) as u128).to_string();
                    }
                }
                _ => (),
            }
            (items.iter().map(|v| v.join(",")).collect::<Vec<_>>().join(";"), "very many rules or numbers")
        }
        0 => ((0..r.below(24)).map(|_| *r.pick(b"0123456789,;,; +-a") as char).collect(), "random characters"),
        1..=3 => {
            // Rules filling the bound to within one.
            let mut rules: Vec<String> = Vec::new();
            for _ in 0..r.range(1, 5) {
                let k = r.range(1, 6);
                let mut v: Vec<u128> = (0..k).map(|_| r.below(4) as u128).collect();
                let target = match r.below(6) {
                    0 => bound as u128 + 1,
                    1 => (bound as u128).saturating_sub(1),
                    2 => bound as u128 + 2,
                    _ => bound as u128,
                };
                let have: u128 = v.iter().sum::<u128>() + k as u128 - 1;
                let at = r.below(k);
                if target >= have {
                    let mut more = target - have;
                    // Distribute, so that no single item is remarkable and sums may pass the word size.
                    if more > 10 && r.chance(1, 2) {
                        let part = more / 2;
                        let b = r.below(k);
                        v[b] += part;
                        more -= part;
                    }
                    v[at] += more;
                }
                rules.push(v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
            }
            (rules.join(";"), "rules at the bound")
        }
        4 => {
            // Sums that pass the machine word.
            let k = r.range(2, 4);
            let rule: Vec<String> = (0..k)
                .map(|_| (u64::MAX / r.range(1, 3) as u64).wrapping_sub(r.below(3) as u64).to_string())
                .collect();
            let mut all = vec![rule.join(",")];
            if r.chance(1, 2) {
                all.push("1".into());
            }
            if r.chance(1, 3) {
                all.insert(0, "0".into());
            }
            (all.join(";"), "sums above the machine word")
        }
        _ => {
            let faults = r.chance(2, 3);
            let rules: Vec<String> = (0..r.range(1, 6))
                .map(|_| {
                    (0..r.range(1, 5))
                        .map(|_| {
                            if faults && r.chance(1, 8) {
                                bad_item(&mut r)
                            } else if faults {
                                number_text(&mut r, bound)
                            } else {
                                r.below(3).to_string()
                            }
                        })
                        .collect::<Vec<_>>()
                        .join(",")
                })
                .collect();
            (rules.join(";"), "assembled rules")
        }
    };
    let want = parse_reference(&text, bound);
    let input = json!({"text": text.chars().take(1500).collect::<String>(), "length": text.len(), "bound": bound.to_string()});
    let got = guard(|| parse_nonogram_rules(&text, bound));
    c.count(kind);
    if want == Parsed::Open {
        if let Err(m) = got {
            c.violate(format!("parsing {m}"), input);
        }
        c.unjudged += 1;
        return;
    }
    let fault = match (&want, got) {
        (_, Err(m)) => Some(format!("parsing {m}")),
        (Parsed::Rules(a), Ok(Ok(b))) => (*a != b).then(|| format!("parsed to {:.200} instead of {:.200}", format!("{b:?}"), format!("{a:?}"))),
        (Parsed::Invalid(a), Ok(Err(NonogramError::InvalidRule(b)))) => {
            (a.as_str() != &*b).then(|| format!("invalid rule quotes {b:?} instead of {a:?}"))
        }
        (Parsed::Dimension, Ok(Err(NonogramError::InvalidRuleDimension))) => None,
        (a, Ok(b)) => Some(format!("answer {:.200} instead of {:.200}", format!("{b:?}"), format!("{a:?}"))),
    };
    if let Some(f) = fault {
        c.violate(f, input.clone());
    }
    c.count(match want {
        Parsed::Rules(_) => "accepted",
        Parsed::Invalid(_) => "invalid item",
        _ => "does not fit",
    });
    c.eval((!text.is_empty()).then(|| hash_bytes(text.as_bytes()) ^ mix(bound as u64)));
    if c.idx % 4999 == 8 {
        c.sample(|| input);
    }
}

// ---------------------------------------------------------------- N04
fn huge(r: &mut Rng) -> usize {
    match r.below(6) {
        0 => usize::MAX,
        1 => usize::MAX / 2 + r.below(4),
        2 => usize::MAX - r.below(4),
        3 => 1 << r.range(30, 63),
        4 => 1_000_000_000 + r.below(1000),
        _ => (isize::MAX as usize) / 8 + r.below(5),
    }
}

fn degenerate_case(c: &mut Ctx) {
    let mut r = c.rng("degenerate");
    let (w, h) = (r.range(1, 6), r.range(1, 6));
    let kind = r.below(9);
    let k = *r.pick(&[0, 2, 3, 4]);
    let (mut col, mut row) = if r.chance(1, 2) || k != 0 && w * h < 2 {
        rules_of(w, h, &random_grid(&mut r, w, h))
    } else {
        let (a, b, _) = random_puzzle(&mut r, k);
        (a, b)
    };
    let name = match kind {
        0 => {
            // No columns or no rows, the rest arbitrary.
            let junk = |r: &mut Rng| -> Rules {
                (0..r.range(0, 4))
                    .map(|_| (0..r.below(4)).map(|_| if r.chance(1, 3) { huge(r) } else { r.below(5) }).collect())
                    .collect()
            };
            let j = junk(&mut r);
            if r.chance(1, 2) {
                (col, row) = (vec![], j);
            } else {
                (col, row) = (j, vec![]);
            }
            "no columns or no rows"
        }
        1..=3 => {
            for l in [&mut col, &mut row] {
                for v in l.iter_mut() {
                    for _ in 0..r.below(4) {
                        let at = r.range(0, v.len());
                        v.insert(at, 0);
                    }
                }
            }
            "zeros inside rules"
        }
        4 => {
            let some = r.chance(1, 2);
            for l in [&mut col, &mut row] {
                for v in l.iter_mut() {
                    if !some || r.chance(1, 3) {
                        *v = vec![0; r.below(5)];
                    }
                }
            }
            "empty or all-zero rules"
        }
        5 => {
            let l = if r.chance(1, 2) { &mut col } else { &mut row };
            let at = r.below(l.len());
            l[at] = vec![huge(&mut r)];
            "one huge number"
        }
        6 => {
            let l = if r.chance(1, 2) { &mut col } else { &mut row };
            let at = r.below(l.len());
            // Numbers whose sum wraps around to something small.
            let a = huge(&mut r);
            let small = r.below(7);
            let b = 0usize.wrapping_sub(a).wrapping_add(small);
            l[at] = if r.chance(1, 2) { vec![a, b] } else { vec![a, 0, b, 0] };
            if r.chance(1, 3) {
                l[at] = vec![usize::MAX / 4 + 1; 4];
            }
            "numbers whose sum wraps"
        }
        7 => {
            // One or two too long for the line, alone or with the gaps.
            let on_col = r.chance(1, 2);
            let n = if on_col { row.len() } else { col.len() };
            let l = if on_col { &mut col } else { &mut row };
            let at = r.below(l.len());
            l[at] = match r.below(3) {
                0 => vec![n + 1 + r.below(3)],
                1 => vec![1; n / 2 + 1 + n % 2],
                _ => {
                    let a = r.range(1, n);
                    vec![a, n - a + r.below(2)]
                }
            };
            "just too long"
        }
        _ => {
            let l = if r.chance(1, 2) { &mut col } else { &mut row };
            let at = r.below(l.len());
            l[at] = if r.chance(1, 2) { vec![0; r.range(50, 3000)] } else { vec![1; r.range(50, 3000)] };
            "very long rule"
        }
    };
    let input = json!({"columns": short(&col), "rows": short(&row)});
    let got = guard(|| solve_nonogram(&col, &row));
    c.count(name);
    let hash = Some(hash_rules(&col, &row));
    let empty = col.is_empty() || row.is_empty();
    let fault = match got {
        Err(m) => Some(format!("solving {m}")),
        Ok(a) if empty => {
            (!matches!(a, Err(NonogramError::EmptyPuzzle))).then(|| format!("{:.80} instead of empty puzzle", format!("{a:?}")))
        }
        Ok(a) => {
            let truth = reference(&col, &row, 1, 3_000);
            if !truth.decided {
                c.unjudged += 1;
                return;
            }
            match (a, truth.solutions.is_empty()) {
                (Ok(_), true) => Some("a grid is returned although the rules cannot be met".into()),
                (Ok(g), false) => {
                    c.count("solved");
                    grid_fault(&g, &col, &row).map(|f| format!("returned grid is wrong: {f}"))
                }
                (Err(NonogramError::NoSolution), true) => {
                    c.count("no solution");
                    None
                }
                (Err(e), none) => Some(format!("'{e}' {}", if none { "instead of no solution" } else { "although a solution exists" })),
            }
        }
    };
    if let Some(f) = fault {
        c.violate(f, input.clone());
    }
    c.eval(hash);
    if c.idx % 997 == 8 {
        c.sample(|| input);
    }
}

fn short(l: &Rules) -> Vec<String> {
    l.iter()
        .map(|v| if v.len() > 12 { format!("{} entries, all {}", v.len(), v[0]) } else { format!("{v:?}") })
        .collect()
}

// ---------------------------------------------------------------- drawing
/// More squares than sixteen bits count.
const HUGE: (usize, usize) = (257, 256);

pub fn margin(n: usize) -> usize {
    150.max(10 * n)
}

fn text_row(rule: &[usize]) -> String {
    rule.iter().map(|v| v.to_string()).collect::<Vec<_>>().join("  ")
}

/// Width in pixels of the ink area of `text` at the clue size, from its origin.
fn ink(text: &str) -> (u32, u32) {
    let w = 40 + 24 * text.len() as u32;
    let mut i = RgbImage::from_pixel(w, 60, draw::WHITE);
    draw_text_mut(&mut i, draw::BLACK, 4, 4, 30.0, draw::font(), text);
    let (mut a, mut b) = (0, 0);
    for (x, y, p) in i.enumerate_pixels() {
        if *p != draw::WHITE {
            a = a.max(x.saturating_sub(3));
            b = b.max(y.saturating_sub(3));
        }
    }
    (a, b)
}

/// Every number of the rules lies well inside its margin at full size.
fn fits_margin(w: usize, h: usize, col: &Rules, row: &Rules) -> bool {
    col.iter().all(|v| column_fits(h, v)) && row.iter().all(|v| row_fits(w, v))
}
fn column_fits(h: usize, v: &[usize]) -> bool {
    v.iter().enumerate().all(|(k, n)| {
        let (a, b) = ink(&n.to_string());
        k * 30 + 18 + b as usize <= margin(h) - 2 && 15 + a <= 45
    })
}
fn row_fits(w: usize, v: &[usize]) -> bool {
    18 + ink(&text_row(v)).0 as usize <= margin(w) - 2
}

/// Compares grid area and margins of a picture in which some rules do not fit at full size:
/// all of it but those rules' own places.
fn band_difference(img: &RgbImage, w: usize, h: usize, col: &Rules, row: &Rules) -> Option<String> {
    let (mw, mh) = (margin(w), margin(h));
    let free_col: Vec<bool> = col.iter().map(|v| !column_fits(h, v)).collect();
    let free_row: Vec<bool> = row.iter().map(|v| !row_fits(w, v)).collect();
    let keep = |l: &Rules, free: &[bool]| -> Rules { l.iter().zip(free).map(|(v, &f)| if f { vec![] } else { v.clone() }).collect() };
    let want = picture(w, h, &keep(col, &free_col), &keep(row, &free_row));
    // The rules that are drawn smaller are read back.
    let dark = |x: usize, y: usize| {
        let p = img.get_pixel(x as u32, y as u32);
        if p == want.get_pixel(x as u32, y as u32) { 0.0 } else { 1.0 - f32::from(p[0]) / 255.0 }
    };
    for (column, rules, free) in [(true, col, &free_col), (false, row, &free_row)] {
        for (k, rule) in rules.iter().enumerate().filter(|(k, _)| free[*k]) {
            let (xs, ys) = if column { ((mw + 50 * k, mw + 50 * k + 50), (0, mh)) } else { ((0, mw), (mh + 50 * k, mh + 50 * k + 50)) };
            let text: Vec<String> = rule.iter().map(|v| v.to_string()).collect();
            let name = if column { "column" } else { "row" };
            match read_clue(&dark, column, xs, ys) {
                Err(e) => return Some(format!("the rule of {name} {k} cannot be read: {e}")),
                Ok((got, _)) if got != text => return Some(format!("the rule of {name} {k} reads {got:?} instead of {text:?}")),
                _ => (),
            }
        }
    }
    for (x, y, p) in img.enumerate_pixels() {
        let q = want.get_pixel(x, y);
        let (x, y) = (x as usize, y as usize);
        let free = (y < mh && x >= mw && free_col[(x - mw) / 50] && *q != draw::GRAY)
            || (x < mw && y >= mh && free_row[(y - mh) / 50] && *q != draw::GRAY);
        if p != q && !free {
            return Some(format!("pixel ({x},{y}) is {:?} instead of {:?}", p.0, q.0));
        }
    }
    None
}

pub fn picture(w: usize, h: usize, col: &Rules, row: &Rules) -> RgbImage {
    let (mw, mh) = (margin(w), margin(h));
    let (iw, ih) = ((w * 50 + mw) as u32, (h * 50 + mh) as u32);
    let mut img = RgbImage::from_pixel(iw, ih, draw::WHITE);
    for (x, v) in col.iter().enumerate() {
        for (k, n) in v.iter().enumerate() {
            draw_text_mut(&mut img, draw::BLACK, (mw + 50 * x + 15) as i32, (10 + 30 * k) as i32, 30.0, draw::font(), &n.to_string());
        }
    }
    for (y, v) in row.iter().enumerate() {
        draw_text_mut(&mut img, draw::BLACK, 10, (mh + 50 * y + 10) as i32, 30.0, draw::font(), &text_row(v));
    }
    let line = |p: u32, m: usize, n: usize| -> bool {
        let p = p as i64 - m as i64;
        (0..n as i64).any(|k| {
            let d = p - 50 * k;
            d == 0 || (k % 5 == 0 && d.abs() == 1)
        })
    };
    let on_x: Vec<bool> = (0..iw).map(|x| line(x, mw, w)).collect();
    let on_y: Vec<bool> = (0..ih).map(|y| line(y, mh, h)).collect();
    for (x, y, p) in img.enumerate_pixels_mut() {
        if on_x[x as usize] || on_y[y as usize] {
            *p = draw::GRAY;
        }
    }
    img
}

/// Sizes around powers of two and at round decimal numbers, up to an area.
fn edge_sizes(cells: usize) -> &'static [(usize, usize)] {
    static ALL: std::sync::OnceLock<Vec<(usize, usize)>> = std::sync::OnceLock::new();
    let all = ALL.get_or_init(|| {
        let mut v = Vec::new();
        for n in [15, 16, 17, 20, 25, 30, 31, 32, 33, 40, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 255, 256, 257, 300] {
            for p in [1, 2, 3, 5, 6, 14, 15, 16, 17] {
                v.push((n, p));
                v.push((p, n));
            }
        }
        for n in [999, 1000, 1001, 1024, 1100] {
            v.extend([(n, 1), (1, n), (n, 3), (3, n)]);
        }
        for s in [15, 16, 17, 20, 25, 30, 31, 32, 33, 40, 50, 63, 64, 65, 66, 99, 100] {
            v.extend([(s, s), (s, s + 1), (s + 1, s), (s / 2, s), (s, s / 2)]);
        }
        v.sort_by_key(|d| (d.0 * d.1, d.0));
        v.dedup();
        v
    });
    &all[..all.partition_point(|d| d.0 * d.1 <= cells)]
}

pub fn draw_puzzle(w: usize, h: usize, col: &Rules, row: &Rules) -> Result<Result<RgbBuffer, NonogramError>, String> {
    guard(|| print_nonogram(w as u32, h as u32, col, row)).map_err(|m| format!("drawing {m}"))
}

fn picture_case(c: &mut Ctx) {
    let mut r = c.rng("picture");
    let edges = edge_sizes(if c.thorough { 5_000 } else { 1_100 });
    let edge = edges.get(c.idx as usize).or((c.idx as usize == edges.len()).then_some(&HUGE));
    let (w, h) = match r.below(12) {
        _ if edge.is_some() => *edge.unwrap_or(&(1, 1)),
        0 => (r.range(0, 2), r.range(0, 2)),
        1 => (r.range(14, 20), r.range(1, 4)),
        2 => (r.range(1, 4), r.range(14, 20)),
        3 => (r.range(10, 24), r.range(10, 24)),
        4 => (1, r.range(1, 40)),
        5 => (r.range(1, 40), 1),
        _ => (r.range(1, 9), r.range(1, 9)),
    };
    let kind = if edge == Some(&HUGE) { 0 } else if w.max(h) >= 100 && c.idx % 2 == 0 { 4 } else { r.below(4) };
    let any = |r: &mut Rng, n: usize| -> Vec<usize> {
        (0..r.below(5)).map(|_| if r.chance(1, 4) { r.range(10, 99) } else { r.below(n.max(9) + 1) }).collect()
    };
    let (col, row): (Rules, Rules) = match kind {
        0 if w * h > 0 => rules_of(w, h, &random_grid(&mut r, w, h)),
        1 => ((0..w).map(|_| random_rule(&mut r, h)).collect(), (0..h).map(|_| random_rule(&mut r, w)).collect()),
        4 => {
            // Numbers of three digits.
            let large = |r: &mut Rng, n: usize| -> Vec<usize> {
                match r.below(4) {
                    _ if n < 100 => random_rule(r, n),
                    0 => vec![n],
                    1 => vec![r.range(100, n)],
                    2 if n > 102 => {
                        let a = r.range(100, n - 2);
                        let b = r.range(1, n - 1 - a);
                        if r.chance(1, 2) { vec![a, b] } else { vec![b, a] }
                    }
                    _ => random_rule(r, n),
                }
            };
            ((0..w).map(|_| large(&mut r, h)).collect(), (0..h).map(|_| large(&mut r, w)).collect())
        }
        2 if r.chance(1, 3) => {
            // Values and lengths without any limit.
            let wild = |r: &mut Rng| -> Vec<usize> {
                (0..r.below(12)).map(|_| if r.chance(1, 5) { huge(r) } else { r.below(120) }).collect()
            };
            ((0..w).map(|_| wild(&mut r)).collect(), (0..h).map(|_| wild(&mut r)).collect())
        }
        _ => ((0..w).map(|_| any(&mut r, h)).collect(), (0..h).map(|_| any(&mut r, w)).collect()),
    };
    let input = || json!({"width": w, "height": h, "columns": short(&col), "rows": short(&row)});

    // Dimensions that do not match must be refused.
    let wrong: Vec<(u32, u32)> = {
        let (a, b) = (w as u32, h as u32);
        let mut v = vec![
            (a + 1, b),
            (a, b + 1),
            (a.wrapping_sub(1), b),
            (a, b.wrapping_sub(1)),
            (b, a),
            (0, b),
            (a, 0),
            (0, 0),
            (u32::MAX, b),
            (a, u32::MAX),
            (a ^ 1 << 16, b),
            (r.next() as u32, r.next() as u32),
            (a + 85_899_346, b), // 50 x this wraps around
        ];
        v.retain(|&d| d != (a, b));
        let k = r.below(v.len());
        v.swap(0, k);
        v.truncate(1);
        v
    };
    for (a, b) in wrong {
        match guard(|| print_nonogram(a, b, &col, &row)) {
            Err(m) => c.violate(format!("drawing as {a}x{b} {m}"), input()),
            Ok(Err(NonogramError::InvalidDimensions)) => c.count("mismatch refused"),
            Ok(Err(e)) => c.violate(format!("drawing as {a}x{b} gives '{e}' instead of invalid dimensions"), input()),
            Ok(Ok(_)) => c.violate(format!("drawn as {a}x{b} although the rules are {w}x{h}"), input()),
        }
        c.eval(None);
    }

    let img = match draw_puzzle(w, h, &col, &row) {
        Err(m) => {
            c.violate(m, input());
            return;
        }
        Ok(Err(e)) => {
            c.violate(format!("matching dimensions refused with '{e}'"), input());
            return;
        }
        Ok(Ok(i)) => i,
    };
    let size = ((w * 50 + margin(w)) as u32, (h * 50 + margin(h)) as u32);
    if img.dimensions() != size {
        c.violate(format!("picture is {:?}, expected {size:?}", img.dimensions()), input());
    } else if fits_margin(w, h, &col, &row) {
        if let Some(d) = draw::difference(&img, &picture(w, h, &col, &row)) {
            c.violate(d, input());
        }
        c.count("compared pixel by pixel");
        c.add("pixels compared", (size.0 * size.1) as u64);
        c.add("numbers compared", col.iter().chain(&row).map(|v| v.len() as u64).sum());
    } else if col.iter().all(|v| occurs(v, h)) && row.iter().all(|v| occurs(v, w)) {
        if let Some(d) = band_difference(&img, w, h, &col, &row) {
            c.violate(d, input());
        }
        c.count("compared, with the rules that do not fit at full size read back");
    } else {
        // Rules that cannot occur on their lines and do not fit: only the size is fixed.
        c.count("size only");
    }
    c.eval((w * h > 0).then(|| hash_rules(&col, &row)));
    if c.idx % 499 == 8 {
        c.sample(input);
    }
}

/// Whether the rule can occur on a line of n squares.
fn occurs(v: &[usize], n: usize) -> bool {
    v.iter().all(|&x| x > 0) && v.iter().map(|&x| x as u128 + 1).sum::<u128>() <= n as u128 + 1
}

fn noise(r: &mut Rng, w: u32, h: u32) -> RgbImage {
    let mut buf = vec![0u8; (w * h * 3) as usize];
    for chunk in buf.chunks_mut(8) {
        let v = r.next().to_le_bytes();
        chunk.copy_from_slice(&v[..chunk.len()]);
    }
    RgbImage::from_raw(w, h, buf).expect("buffer")
}

fn solution_picture_case(c: &mut Ctx) {
    let mut r = c.rng("solution picture");
    if c.idx < 6 {
        // Dimensions whose pixel size wraps to that of a small picture.
        let w: u32 = [71_582_789, 71_582_791, 85_899_346][(c.idx % 3) as usize];
        let width = w.wrapping_mul(60);
        let (iw, ih, a, b) = if c.idx < 3 { (width, 200, w, 1) } else { (200, width, 1, w) };
        if iw > 20_000 || ih > 20_000 {
            return;
        }
        let mut grid = vec![false; w as usize];
        grid[3] = true;
        let img = RgbImage::from_pixel(iw, ih, draw::WHITE);
        refuse(c, a, b, img, &grid, "pixel size wraps around");
        return;
    }
    if c.idx == 6 {
        // In place, as the picture is large.
        let (w, h) = HUGE;
        let grid: Vec<bool> = (0..w * h).map(|_| r.chance(1, 2)).collect();
        let size = ((w * 50 + margin(w)) as u32, (h * 50 + margin(h)) as u32);
        let tint = |x: u32, y: u32| image::Rgb([(x * 7 + y) as u8, (x + y * 3) as u8, 200]);
        let input = json!({"width": w, "height": h, "grid": "random"});
        match guard(|| print_nonogram_solution(w as u32, h as u32, RgbImage::from_fn(size.0, size.1, tint), &grid)) {
            Err(m) => c.violate(format!("drawing the solution {m}"), input),
            Ok(Err(e)) => c.violate(format!("matching solution refused with '{e}'"), input),
            Ok(Ok(got)) => {
                let square = |p: u32, m: usize| (p as usize).checked_sub(m).filter(|d| d % 50 != 0).map(|d| d / 50);
                let mut off = None;
                for (x, y, p) in got.enumerate_pixels() {
                    let filled = match (square(x, margin(w)), square(y, margin(h))) {
                        (Some(a), Some(b)) => grid[b * w + a],
                        _ => false,
                    };
                    if *p != if filled { draw::BLACK } else { tint(x, y) } {
                        off.get_or_insert((x, y));
                    }
                }
                if let Some((x, y)) = off.filter(|_| got.dimensions() == size).or((got.dimensions() != size).then_some((0, 0))) {
                    c.violate(format!("pixel ({x},{y}) is wrong"), input);
                }
                c.count("more squares than sixteen bits count");
            }
        }
        c.eval(Some(1));
        return;
    }
    // Every size with a random grid, and filled completely.
    let edges = edge_sizes(if c.thorough { 10_100 } else { 4_500 });
    let edge = edges.get((c.idx - 7) as usize / 2);
    let (w, h) = match r.below(8) {
        _ if edge.is_some() => *edge.unwrap_or(&(1, 1)),
        0 => (r.range(14, 22), r.range(1, 6)),
        1 => (r.range(1, 6), r.range(14, 22)),
        2 => (r.range(0, 3), r.range(0, 3)),
        _ => (r.range(1, 8), r.range(1, 8)),
    };
    let grid: Vec<bool> = match r.below(20) {
        _ if w * h == 0 => vec![],
        _ if edge.is_some() && c.idx % 2 == 0 => vec![true; w * h],
        0 => vec![r.chance(1, 2); w * h],
        _ => random_grid(&mut r, w, h),
    };
    let size = ((w * 50 + margin(w)) as u32, (h * 50 + margin(h)) as u32);
    let (col, row) = if w * h > 0 {
        rules_of(w, h, &grid)
    } else {
        (vec![vec![]; w], vec![vec![]; h])
    };
    let base = match r.below(4) {
        0 => RgbImage::from_pixel(size.0, size.1, draw::WHITE),
        1 => noise(&mut r, size.0, size.1),
        _ => match draw_puzzle(w, h, &col, &row) {
            Ok(Ok(i)) if i.dimensions() == size => i,
            _ => RgbImage::from_pixel(size.0, size.1, draw::WHITE),
        },
    };
    let input = || json!({"width": w, "height": h, "filled": grid.iter().take(2000).map(|&b| if b { '#' } else { '.' }).collect::<String>()});

    // Mismatches.
    let (a, b) = (w as u32, h as u32);
    match r.below(14) {
        0 => {
            let mut g = grid.clone();
            g.push(true);
            refuse(c, a, b, base.clone(), &g, "one square too many");
        }
        1 if !grid.is_empty() => refuse(c, a, b, base.clone(), &grid[1..], "one square missing"),
        2 if a != b => refuse(c, b, a, base.clone(), &grid, "width and height exchanged"),
        3 => {
            let d = *r.pick(&[(1, 0), (0, 1), (50, 0), (0, 50), (1, 1)]);
            let img = RgbImage::from_pixel(size.0 + d.0, size.1 + d.1, draw::WHITE);
            refuse(c, a, b, img, &grid, "picture too large");
        }
        4 => {
            let d = *r.pick(&[(1, 0), (0, 1), (50, 0), (0, 50), (1, 1)]);
            let img = RgbImage::from_pixel(size.0 - d.0, size.1 - d.1, draw::WHITE);
            refuse(c, a, b, img, &grid, "picture too small");
        }
        5 => {
            let d = |r: &mut Rng| match r.below(5) {
                0 => u32::MAX,
                1 => u32::MAX / 10 + 1 + r.below(3) as u32,
                2 => u32::MAX / 60 + 1 + r.below(3) as u32,
                3 => 1 << r.range(16, 31),
                _ => r.next() as u32,
            };
            let (mut x, mut y) = (d(&mut r), d(&mut r));
            match r.below(4) {
                0 => x = a,
                1 => y = b,
                2 => x = 0,
                _ => (),
            }
            if (x, y) != (a, b) && !(x == 0 && grid.is_empty()) {
                refuse(c, x, y, base.clone(), &grid, "extreme dimensions");
            } else if x == 0 {
                refuse(c, x, y.max(1 << 16), base.clone(), &[], "extreme dimensions");
            }
        }
        6 => refuse(c, a, b, RgbImage::new(0, 0), &grid, "empty picture"),
        7 if w * h > 0 => {
            // Same number of squares, other shape.
            let n = w * h;
            for d in 1..=n {
                if n % d == 0 && d != w {
                    refuse(c, d as u32, (n / d) as u32, base.clone(), &grid, "same area, other shape");
                    break;
                }
            }
        }
        8 => {
            let img = RgbImage::from_pixel(size.1, size.0, draw::WHITE);
            if size.0 != size.1 {
                refuse(c, a, b, img, &grid, "picture turned");
            }
        }
        _ => (),
    }

    let mut want = base.clone();
    for (i, _) in grid.iter().enumerate().filter(|g| *g.1) {
        let (x0, y0) = (margin(w) + 50 * (i % w) + 1, margin(h) + 50 * (i / w) + 1);
        for y in y0..y0 + 49 {
            for x in x0..x0 + 49 {
                want.put_pixel(x as u32, y as u32, draw::BLACK);
            }
        }
    }
    match guard(|| print_nonogram_solution(a, b, base.clone(), &grid)) {
        Err(m) => c.violate(format!("drawing the solution {m}"), input()),
        Ok(Err(e)) => c.violate(format!("matching solution refused with '{e}'"), input()),
        Ok(Ok(got)) => {
            if let Some(d) = draw::difference(&got, &want) {
                c.violate(d, input());
            }
            c.add("filled squares", grid.iter().filter(|&&g| g).count() as u64);
            c.add("pixels compared", (size.0 * size.1) as u64);
        }
    }
    let bits: Vec<u8> = grid.iter().map(|&b| b as u8).collect();
    c.eval((w * h > 1).then(|| hash_bytes(&bits) ^ mix(w as u64) ^ hash_bytes(&base.as_raw()[..30])));
    if c.idx % 499 == 8 {
        c.sample(input);
    }
}

fn refuse(c: &mut Ctx, w: u32, h: u32, img: RgbImage, grid: &[bool], what: &str) {
    let size = img.dimensions();
    let input = json!({"width": w, "height": h, "picture": [size.0, size.1], "squares": grid.len(), "case": what});
    // Only true mismatches are sent here.
    let fits = |n: u32, p: u32| u128::from(n) * 50 + (150u128).max(u128::from(n) * 10) == u128::from(p);
    if fits(w, size.0) && fits(h, size.1) && grid.len() as u128 == u128::from(w) * u128::from(h) {
        return;
    }
    match guard(|| print_nonogram_solution(w, h, img, grid)) {
        Err(m) => c.violate(format!("drawing the solution {m}"), input),
        Ok(Ok(_)) => c.violate("a mismatched solution is drawn", input),
        Ok(Err(NonogramError::InvalidDimensions)) => c.count(what),
        Ok(Err(e)) => c.violate(format!("'{e}' instead of invalid dimensions"), input),
    }
    c.eval(Some(mix(w as u64) ^ mix(mix(h as u64)) ^ mix(grid.len() as u64) ^ hash_bytes(what.as_bytes())));
}

// ---------------------------------------------------------------- N07
const MAX_LINE: usize = 64;
/// Longer lines, where numbers of three and four digits occur.
const LONG_LINES: [usize; 8] = [99, 100, 101, 120, 150, 223, 1000, 1203];

type Shape = Vec<f32>;
const SIDE: usize = 16;

/// A blob of ink, scaled to a height of SIDE and centred.
fn glyph(dark: &dyn Fn(usize, usize) -> f32, x0: usize, y0: usize, w: usize, h: usize) -> Shape {
    let step = h as f32 / SIDE as f32;
    let left = x0 as f32 + w as f32 / 2.0 - h as f32 / 2.0;
    let mut out = vec![0.0; SIDE * SIDE];
    for j in 0..SIDE {
        for i in 0..SIDE {
            let mut sum = 0.0;
            for b in 0..3 {
                for a in 0..3 {
                    let x = left + (i as f32 + (a as f32 + 0.5) / 3.0) * step;
                    let y = y0 as f32 + (j as f32 + (b as f32 + 0.5) / 3.0) * step;
                    if x >= x0 as f32 && x < (x0 + w) as f32 {
                        sum += dark(x as usize, y as usize);
                    }
                }
            }
            out[j * SIDE + i] = sum / 9.0;
        }
    }
    out
}

/// Bounding box of the ink in a region, as (x, y, w, h).
fn bounds(dark: &dyn Fn(usize, usize) -> f32, xs: std::ops::Range<usize>, ys: std::ops::Range<usize>) -> Option<(usize, usize, usize, usize)> {
    let (mut a, mut b, mut c, mut d) = (usize::MAX, usize::MAX, 0, 0);
    for y in ys {
        for x in xs.clone() {
            if dark(x, y) > INKED {
                (a, b, c, d) = (a.min(x), b.min(y), c.max(x), d.max(y));
            }
        }
    }
    (a != usize::MAX).then(|| (a, b, c + 1 - a, d + 1 - b))
}

const INKED: f32 = 0.45;

/// Digit shapes at several sizes.
fn shapes() -> &'static Vec<(u8, Shape)> {
    static S: std::sync::OnceLock<Vec<(u8, Shape)>> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        let mut v = Vec::new();
        for size in [12.0, 14.0, 16.0, 17.0, 18.0, 19.0, 20.0, 22.0, 24.0, 27.0, 30.0, 34.0] {
            for d in 0..10u8 {
                for dx in 0..2 {
                    let mut i = RgbImage::from_pixel(60, 60, draw::WHITE);
                    draw_text_mut(&mut i, draw::BLACK, 10 + dx, 10, size + dx as f32 * 0.4, draw::font(), &d.to_string());
                    let dark = |x: usize, y: usize| 1.0 - f32::from(i.get_pixel(x as u32, y as u32)[0]) / 255.0;
                    let (x, y, w, h) = bounds(&dark, 0..60, 0..60).expect("digit");
                    v.push((d, glyph(&dark, x, y, w, h)));
                }
            }
        }
        v
    })
}

fn nearest_digit(s: &Shape) -> (u8, f32) {
    let mut best = (0, f32::MAX);
    for (d, t) in shapes() {
        let dist: f32 = s.iter().zip(t).map(|(a, b)| (a - b).abs()).sum();
        if dist < best.1 {
            best = (*d, dist);
        }
    }
    let ink: f32 = s.iter().sum();
    (best.0, best.1 / ink.max(1.0))
}

/// Maximal stretches of indices where `on` holds.
fn stretches(n: usize, on: impl Fn(usize) -> bool) -> Vec<(usize, usize)> {
    let mut v: Vec<(usize, usize)> = Vec::new();
    for i in 0..n {
        if on(i) {
            match v.last_mut() {
                Some(l) if l.1 == i => l.1 = i + 1,
                _ => v.push((i, i + 1)),
            }
        }
    }
    v
}

/// Reads the digits of one number; also returns its height.
fn read_number(dark: &dyn Fn(usize, usize) -> f32, xs: (usize, usize), ys: (usize, usize)) -> Result<(String, usize), String> {
    let mut text = String::new();
    let mut height = usize::MAX;
    for (a, b) in stretches(xs.1 - xs.0, |x| (ys.0..ys.1).any(|y| dark(xs.0 + x, y) > INKED)) {
        let Some((x, y, w, h)) = bounds(dark, xs.0 + a..xs.0 + b, ys.0..ys.1) else { continue };
        let (d, dist) = nearest_digit(&glyph(dark, x, y, w, h));
        if dist > 0.45 {
            return Err(format!("the mark at ({x},{y}) of size {w}x{h} is no digit (nearest {d}, {dist:.2})"));
        }
        text.push((b'0' + d) as char);
        height = height.min(h);
    }
    Ok((text, height))
}

/// Reads the numbers of one line's clue from the ink that it adds to the picture.
fn read_clue(dark: &dyn Fn(usize, usize) -> f32, column: bool, xs: (usize, usize), ys: (usize, usize)) -> Result<(Vec<String>, usize), String> {
    let mut out = Vec::new();
    let mut height = usize::MAX;
    let boxes: Vec<((usize, usize), (usize, usize))> = if column {
        stretches(ys.1 - ys.0, |y| (xs.0..xs.1).any(|x| dark(x, ys.0 + y) > INKED))
            .into_iter()
            .map(|(a, b)| (xs, (ys.0 + a, ys.0 + b)))
            .collect()
    } else {
        // Marks nearer to each other than a third of their height belong to one number.
        let marks = stretches(xs.1 - xs.0, |x| (ys.0..ys.1).any(|y| dark(xs.0 + x, y) > INKED));
        let tall = bounds(dark, xs.0..xs.1, ys.0..ys.1).map_or(0, |b| b.3);
        let mut v: Vec<(usize, usize)> = Vec::new();
        for (a, b) in marks {
            match v.last_mut() {
                Some(l) if (a - l.1) * 20 < tall * 9 => l.1 = b,
                _ => v.push((a, b)),
            }
        }
        v.into_iter().map(|(a, b)| ((xs.0 + a, xs.0 + b), ys)).collect()
    };
    for (x, y) in boxes {
        let (t, h) = read_number(dark, x, y)?;
        height = height.min(h);
        out.push(t);
    }
    Ok((out, height))
}

/// For one line length, rules of every possible count of numbers, read back from the picture.
fn legible_case(c: &mut Ctx) {
    let n = if (c.idx as usize) < MAX_LINE { c.idx as usize + 1 } else { LONG_LINES[c.idx as usize - MAX_LINE] };
    let mut r = c.rng("legible");
    let most = n.div_ceil(2);
    let mut rules: Rules = Vec::new();
    let counts: Vec<usize> = if n <= MAX_LINE {
        (1..=most).collect()
    } else if n > 500 {
        vec![1, 2, most]
    } else { (1..=8).chain((9..most).step_by(most / 6)).chain([most]).collect() };
    let random = if c.thorough { 12 } else { 2 };
    for k in counts {
        let spare = n - (2 * k - 1);
        rules.push(vec![1; k]);
        // As many numbers of two, three or four digits as the line allows, from the front and from the back.
        for step in [9, 99, 999] {
            let mut rest = spare;
            let mut v = vec![1; k];
            for x in v.iter_mut() {
                if rest >= step {
                    *x += step;
                    rest -= step;
                }
            }
            v[0] += rest;
            rules.push(v.clone());
            v.reverse();
            rules.push(v);
        }
        for _ in 0..random {
            let mut v = vec![1; k];
            let mut rest = r.range(0, spare);
            while rest > 0 {
                let limit = if r.chance(1, 3) { 40 } else { 9 };
                let add = r.range(1, rest.min(limit));
                *v.get_mut(r.below(k)).expect("index") += add;
                rest -= add;
            }
            rules.push(v);
        }
    }
    rules.sort();
    rules.dedup();
    for rule in rules {
        for axis in ["column", "row"] {
            let column = axis == "column";
            let at = r.below(3);
            // The line under test among three lines, the others without numbers.
            let plain: Rules = vec![vec![]; 3];
            let mut other = plain.clone();
            other[at] = rule.clone();
            let cross: Rules = vec![vec![]; n];
            let (w, h) = if column { (3, n) } else { (n, 3) };
            let drawn = if column {
                (draw_puzzle(w, h, &other, &cross), draw_puzzle(w, h, &plain, &cross))
            } else {
                (draw_puzzle(w, h, &cross, &other), draw_puzzle(w, h, &cross, &plain))
            };
            let input = json!({"axis": axis, "line length": n, "line": at, "rule": rule});
            c.eval(Some(mix(n as u64) ^ hash_rules(&other, &plain) ^ hash_bytes(axis.as_bytes())));
            c.count(axis);
            let (a, b) = match drawn {
                (Ok(Ok(a)), Ok(Ok(b))) if a.dimensions() == b.dimensions() => (a, b),
                (Err(m), _) | (_, Err(m)) => {
                    c.violate(m, input);
                    return;
                }
                _ => {
                    c.violate("a rule that fits its line cannot be drawn", input);
                    return;
                }
            };
            let (iw, ih) = (a.width() as usize, a.height() as usize);
            if iw < 50 * w || ih < 50 * h {
                c.violate(format!("the picture is {iw}x{ih}"), input);
                return;
            }
            let (gx, gy) = (iw - 50 * w, ih - 50 * h);
            // Where the clue may be: its margin, without the picture's edge.
            let (xs, ys) = if column { ((gx + 50 * at, gx + 50 * at + 50), (1, gy)) } else { ((1, gx), (gy + 50 * at, gy + 50 * at + 50)) };
            let mut outside = None;
            for (x, y, p) in a.enumerate_pixels() {
                let (x, y) = (x as usize, y as usize);
                if p != b.get_pixel(x as u32, y as u32) && !((xs.0..xs.1.min(iw - 1)).contains(&x) && (ys.0..ys.1).contains(&y)) {
                    outside.get_or_insert((x, y));
                }
            }
            if let Some((x, y)) = outside {
                c.violate(format!("the {axis}'s numbers leave their margin at ({x},{y}); the grid begins at ({gx},{gy})"), input);
                continue;
            }
            let dark = |x: usize, y: usize| {
                let p = a.get_pixel(x as u32, y as u32);
                if p == b.get_pixel(x as u32, y as u32) { 0.0 } else { 1.0 - f32::from(p[0]) / 255.0 }
            };
            let want: Vec<String> = rule.iter().map(|v| v.to_string()).collect();
            match read_clue(&dark, column, xs, ys) {
                Err(e) => c.violate(format!("the {axis}'s rule cannot be read: {e}"), input),
                Ok((got, _)) if got != want => c.violate(format!("the {axis}'s rule reads {got:?}"), input),
                Ok((_, height)) => {
                    c.add("numbers read back", rule.len() as u64);
                    let k = "max_smallest_digit_height_below_100".to_string();
                    let v = c.counters.entry(k).or_insert(0);
                    *v = (*v).max(100u64.saturating_sub(height as u64));
                    if height < 7 {
                        c.violate(format!("the {axis}'s digits are only {height} pixels high"), input);
                    } else {
                        c.sample(|| input);
                    }
                }
            }
        }
    }
}
