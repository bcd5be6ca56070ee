//! Sudoku monitors: S01 S02 S03 S04 S05.
use crate::rt::*;
use crate::{draw, Prop};
use puzzle_utils::{parse_sudoku, print_sudoku, solve_sudoku, SudokuError};
use serde_json::json;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "S01", plan: |t| SYS_PAIRS + 730 + if t { 2_000_000 } else { 80_000 }, case: |c| solve_case(c, false) },
        Prop { id: "S02", plan: |t| SYS_PAIRS + 730 + if t { 2_000_000 } else { 80_000 }, case: |c| solve_case(c, true) },
        Prop { id: "S03", plan: |t| 400 + 81 * 246 + long_lengths() + PADDED + if t { 2_000_000 } else { 200_000 }, case: malformed_case },
        Prop { id: "S04", plan: |t| CHAR_BLOCKS + 3_000 + long_lengths() + AROUND + if t { 20_000_000 } else { 3_000_000 }, case: parse_case },
        Prop { id: "S05", plan: |t| 810 + if t { 300_000 } else { 18_000 }, case: picture_case },
    ]
}

// ---------------------------------------------------------------- reference solver
pub type Grid = [u8; 81];

pub fn box_of(i: usize) -> usize {
    (i / 27) * 3 + (i % 9) / 3
}

pub fn shares_unit(a: usize, b: usize) -> bool {
    a / 9 == b / 9 || a % 9 == b % 9 || box_of(a) == box_of(b)
}

/// First reason why `g` is not a complete valid grid.
pub fn grid_fault(g: &[u8]) -> Option<String> {
    if g.len() != 81 {
        return Some(format!("{} entries instead of 81", g.len()));
    }
    if let Some(i) = g.iter().position(|&v| !(1..=9).contains(&v)) {
        return Some(format!("value {} in cell {i}", g[i]));
    }
    for u in 0..9 {
        let (mut r, mut c, mut b) = (0u16, 0u16, 0u16);
        for k in 0..9 {
            r |= 1 << g[u * 9 + k];
            c |= 1 << g[k * 9 + u];
            b |= 1 << g[(u / 3) * 27 + (u % 3) * 3 + (k / 3) * 9 + k % 3];
        }
        for (name, m) in [("row", r), ("column", c), ("box", b)] {
            if m != 0x3FE {
                return Some(format!("{name} {u} does not hold each digit once"));
            }
        }
    }
    None
}

pub struct Search<'a> {
    grid: Grid,
    rows: [u16; 9],
    cols: [u16; 9],
    boxes: [u16; 9],
    pub nodes: u64,
    budget: u64,
    limit: u32,
    pub found: Vec<Grid>,
    rng: Option<&'a mut Rng>,
}

pub struct Outcome {
    pub solutions: Vec<Grid>,
    pub nodes: u64,
    pub complete: bool,
}

/// Counts solutions up to `limit`, visiting at most `budget` nodes.
pub fn reference(puzzle: &Grid, limit: u32, budget: u64, rng: Option<&mut Rng>) -> Outcome {
    let mut s = Search {
        grid: [0; 81],
        rows: [0; 9],
        cols: [0; 9],
        boxes: [0; 9],
        nodes: 0,
        budget,
        limit,
        found: Vec::new(),
        rng,
    };
    for (i, &v) in puzzle.iter().enumerate() {
        if v == 0 {
            continue;
        }
        if s.used(i) & (1 << v) != 0 {
            return Outcome { solutions: vec![], nodes: 0, complete: true };
        }
        s.set(i, v);
    }
    let complete = s.run();
    Outcome { complete: complete || s.found.len() as u32 >= limit, solutions: s.found, nodes: s.nodes }
}

impl Search<'_> {
    fn used(&self, i: usize) -> u16 {
        self.rows[i / 9] | self.cols[i % 9] | self.boxes[box_of(i)]
    }
    fn set(&mut self, i: usize, v: u8) {
        let m = 1 << v;
        self.rows[i / 9] |= m;
        self.cols[i % 9] |= m;
        self.boxes[box_of(i)] |= m;
        self.grid[i] = v;
    }
    fn unset(&mut self, i: usize) {
        let m = !(1 << self.grid[i]);
        self.rows[i / 9] &= m;
        self.cols[i % 9] &= m;
        self.boxes[box_of(i)] &= m;
        self.grid[i] = 0;
    }
    /// False when the budget ran out before the space was exhausted.
    fn run(&mut self) -> bool {
        self.nodes += 1;
        if self.nodes > self.budget {
            return false;
        }
        // Fewest choices among: digits of a cell, places of a digit in a unit.
        let mut best: Option<Vec<(usize, u8)>> = None;
        let mut best_n = 100;
        let mut places = [[[0u8; 10]; 9]; 3];
        let mut any = false;
        for i in 0..81 {
            if self.grid[i] != 0 {
                continue;
            }
            any = true;
            let free = !self.used(i) & 0x3FE;
            let n = free.count_ones() as usize;
            if n < best_n {
                best_n = n;
                best = Some((1..=9).filter(|v| free & (1 << v) != 0).map(|v| (i, v)).collect());
                if n == 0 {
                    return true;
                }
            }
            for v in 1..=9u8 {
                if free & (1 << v) != 0 {
                    places[0][i / 9][v as usize] += 1;
                    places[1][i % 9][v as usize] += 1;
                    places[2][box_of(i)][v as usize] += 1;
                }
            }
        }
        if !any {
            self.found.push(self.grid);
            return true;
        }
        for (kind, units) in places.iter().enumerate() {
            for (u, counts) in units.iter().enumerate() {
                let used = [self.rows[u], self.cols[u], self.boxes[u]][kind];
                for v in 1..=9u8 {
                    if used & (1 << v) != 0 {
                        continue;
                    }
                    let n = counts[v as usize] as usize;
                    if n == 0 {
                        return true;
                    }
                    if n < best_n {
                        best_n = n;
                        best = Some(
                            (0..9)
                                .map(|k| match kind {
                                    0 => u * 9 + k,
                                    1 => k * 9 + u,
                                    _ => (u / 3) * 27 + (u % 3) * 3 + (k / 3) * 9 + k % 3,
                                })
                                .filter(|&i| self.grid[i] == 0 && self.used(i) & (1 << v) == 0)
                                .map(|i| (i, v))
                                .collect(),
                        );
                    }
                }
            }
        }
        let mut choices = best.expect("a choice exists");
        if let Some(r) = self.rng.as_mut() {
            r.shuffle(&mut choices);
        }
        for (i, v) in choices {
            self.set(i, v);
            let ok = self.run();
            self.unset(i);
            if !ok {
                return false;
            }
            if self.found.len() as u32 >= self.limit {
                return true;
            }
        }
        true
    }
}

// ---------------------------------------------------------------- generators
pub fn solved_grid(r: &mut Rng) -> Grid {
    loop {
        // A random first row and column spread keep the search short and the grids diverse.
        let mut p = [0u8; 81];
        let mut d: Vec<u8> = (1..=9).collect();
        r.shuffle(&mut d);
        p[..9].copy_from_slice(&d);
        let o = reference(&p, 1, 2_000, Some(r));
        if let Some(g) = o.solutions.first() {
            return *g;
        }
    }
}

/// Removes clues in random order while the solution stays unique, down to a minimal puzzle.
pub fn minimal_puzzle(r: &mut Rng) -> Grid {
    let mut p = solved_grid(r);
    let mut order: Vec<usize> = (0..81).collect();
    r.shuffle(&mut order);
    for i in order {
        let v = p[i];
        p[i] = 0;
        let o = reference(&p, 2, 3_000, None);
        if !(o.complete && o.solutions.len() == 1) {
            p[i] = v;
        }
    }
    p
}

const HARD: &[&str] = &[
    "800000000003600000070090200050007000000045700000100030001000068008500010090000400",
    "100007090030020008009600500005300900010080002600004000300000010040000007007000300",
    "000000010400000000020000000000050407008000300001090000300400200050100000000806000",
    "000000012000035000000600070700000300000400800100000000000120000080000040050000600",
    "000000039000001005003050800008090006070002000100400000009080050020000600400700000",
    "005300000800000020070010500400005300010070006003200080060500009004000030000009700",
    "020000000000600003074080000000003002080040010600500000000010780500009000000000040",
    "000006000059000008200008000045000000003000000006003054000325006000000000000000000",
    "000000000000003085001020000000507000004000100090000000500000073002010000000040009",
    "731000008000500042400009700020304000005000400000180006000708005090020100006090000",
];

/// Solvable puzzles, each with a solution, whose search visits very many dead ends (found by hill climbing).
const HEAVY: &[(&str, &str)] = &[
    ("500000012000130000600080000000000070705000030000000090000000009900000000301074000", "538467912249135768617289453182593674795642831463718295874356129956821347321974586"),
    ("020000000000000034000000000000800960000000050810000000380506000400000000006730000", "724368195568179234931425678275843961643291857819657423382516749457982316196734582"),
    ("050008000010000000790000002040000000000000000100000950006002000000763000400000008", "352198647614257893798346512245639781869571234173824956536482179981763425427915368"),
    ("500400000000000870000000000800500020010800069000100000184000700000000003600007000", "578439612369215874241768935836594127412873569795126348184352796927681453653947281"),
    ("400000000000000000000000080000340000000010060031020050000030007873005000000004003", "482963715596187234317452689258346971749518362631729458964831527873295146125674893"),
    ("002000050000100000006300000004007000009000000000000009201900000000000870000064000", "982746351437152698516389427154697283829431765763825149241978536695213874378564912"),
    ("001000097000000001200040080004087060000500000000000000000000100006300700070000300", "481635297695728431237149685914287563723596814568413972359872146846351729172964358"),
    ("020005000000008000000400000000050000003004005080003020000600090000079601070000000", "629715834745938216318426957194257368263894175587163429451682793832579641976341582"),
    ("009000080000000305038200107000500000000000060000800000000000003000000008000946000", "259317486147689325638254197892561734513472869476893251765128943924735618381946572"),
    ("060900000080040030050000000030002000000003000008007190000700000007100000000000208", "362971584781245639459638712135492867976813425248567193523786941897124356614359278"),
    ("000309000000000030010000200000000106000080000000000090000006807000020010784000600", "278359461496218735315674289839542176567981342142763598921436857653827914784195623"),
    ("000000060008002000000096120000070000000000036000050070000001000000040605953000000", "249185367168732954537496128625374819874219536391658472486521793712943685953867241"),
    ("000000001000070009006010500300600000000030000090020000700805000000000900560007000", "978456231153278469246913587315684792627539814894721653739845126481362975562197348"),
];

/// Every `HEAVY_EVERY`th random case is a heavy puzzle: first each as it is, then scrambled.
const HEAVY_EVERY: u64 = 40;

fn heavy_input(c: &Ctx) -> Option<(Grid, Grid)> {
    let i = c.idx.checked_sub(730 + SYS_PAIRS)?;
    if i % HEAVY_EVERY != 0 {
        return None;
    }
    let k = (i / HEAVY_EVERY) as usize;
    let (p, s) = HEAVY[k % HEAVY.len()];
    if k < HEAVY.len() {
        return Some((parse(p), parse(s)));
    }
    // The same random symmetry for the puzzle and its solution.
    Some((scramble(&parse(p), &mut c.rng("sudoku-heavy")), scramble(&parse(s), &mut c.rng("sudoku-heavy"))))
}

fn parse(s: &str) -> Grid {
    let mut g = [0u8; 81];
    for (i, b) in s.bytes().enumerate() {
        g[i] = b - b'0';
    }
    g
}

/// Applies a random symmetry (digits, rows, columns, transpose) that keeps validity.
fn scramble(p: &Grid, r: &mut Rng) -> Grid {
    let mut digits: Vec<u8> = (1..=9).collect();
    r.shuffle(&mut digits);
    let perm = |r: &mut Rng| {
        let mut bands = [0usize, 1, 2];
        r.shuffle(&mut bands);
        let mut out = [0usize; 9];
        for (k, &b) in bands.iter().enumerate() {
            let mut lines = [0usize, 1, 2];
            r.shuffle(&mut lines);
            for (j, &l) in lines.iter().enumerate() {
                out[k * 3 + j] = b * 3 + l;
            }
        }
        out
    };
    let (rp, cp, t) = (perm(r), perm(r), r.chance(1, 2));
    let mut out = [0u8; 81];
    for i in 0..9 {
        for j in 0..9 {
            let v = if t { p[cp[j] * 9 + rp[i]] } else { p[rp[i] * 9 + cp[j]] };
            out[i * 9 + j] = if v == 0 { 0 } else { digits[v as usize - 1] };
        }
    }
    out
}

fn blank_some(g: &Grid, clues: usize, r: &mut Rng) -> Grid {
    let mut order: Vec<usize> = (0..81).collect();
    r.shuffle(&mut order);
    let mut p = [0u8; 81];
    for &i in order.iter().take(clues) {
        p[i] = g[i];
    }
    p
}

pub const KINDS: usize = 17;
/// Random puzzle of a named class.
pub fn random_puzzle(r: &mut Rng, kind: usize) -> (Grid, &'static str) {
    match kind {
        0 => {
            let g = solved_grid(r);
            let k = r.range(0, 81);
            (blank_some(&g, k, r), "solvable, any clue count")
        }
        1 => (minimal_puzzle(r), "minimal unique"),
        2 => {
            let mut p = minimal_puzzle(r);
            let clues: Vec<usize> = (0..81).filter(|&i| p[i] != 0).collect();
            for _ in 0..r.range(1, 6) {
                p[*r.pick(&clues)] = 0;
            }
            (p, "minimal with clues removed (many solutions)")
        }
        3 => {
            let mut p = minimal_puzzle(r);
            let clues: Vec<usize> = (0..81).filter(|&i| p[i] != 0).collect();
            let i = *r.pick(&clues);
            p[i] = 1 + ((p[i] as usize - 1 + r.range(1, 8)) % 9) as u8;
            (p, "minimal with one clue changed")
        }
        4 => {
            // Direct clash of exactly one kind, if possible.
            let g = solved_grid(r);
            let k = r.range(2, 40);
            let mut p = blank_some(&g, k, r);
            let want = r.below(3);
            for _ in 0..200 {
                let (a, b) = (r.below(81), r.below(81));
                let same = [a / 9 == b / 9, a % 9 == b % 9, box_of(a) == box_of(b)];
                if a != b && same[want] && same.iter().filter(|&&x| x).count() == 1 {
                    p[b] = g[a];
                    p[a] = g[a];
                    break;
                }
            }
            (p, "one direct clash")
        }
        5 => {
            let mut p = [0u8; 81];
            for _ in 0..r.range(1, 20) {
                p[r.below(81)] = r.range(1, 9) as u8;
            }
            (p, "few arbitrary clues")
        }
        6 => {
            let mut p = [0u8; 81];
            let want = r.range(3, 45);
            let mut have = 0;
            for _ in 0..400 {
                let (i, v) = (r.below(81), r.range(1, 9) as u8);
                if p[i] == 0 && (0..81).all(|j| p[j] != v || !shares_unit(i, j)) {
                    p[i] = v;
                    have += 1;
                    if have == want {
                        break;
                    }
                }
            }
            (p, "clash-free arbitrary clues")
        }
        7 => {
            let mut g = solved_grid(r);
            let (a, b) = (r.below(81), r.below(81));
            g.swap(a, b);
            (g, "full grid with two cells swapped")
        }
        8 => {
            let g = solved_grid(r);
            let k = r.range(70, 81);
            (blank_some(&g, k, r), "nearly full")
        }
        9 => {
            let mut p = [0u8; 81];
            let v = r.range(1, 9) as u8;
            for _ in 0..r.range(2, 9) {
                p[r.below(81)] = v;
            }
            (p, "one digit repeated")
        }
        10 => {
            let h = parse(r.pick(HARD));
            (scramble(&h, r), "known hard, scrambled")
        }
        11 => {
            // Blank whole bands so that large regions interact.
            let g = solved_grid(r);
            let mut p = g;
            let d = r.range(1, 9) as u8;
            let e = r.range(1, 9) as u8;
            for i in 0..81 {
                if g[i] == d || g[i] == e || r.chance(1, 3) {
                    p[i] = 0;
                }
            }
            (p, "two digits missing entirely")
        }
        12 => {
            // A solvable puzzle plus one extra arbitrary clue in a blank.
            let g = solved_grid(r);
            let k = r.range(17, 50);
            let mut p = blank_some(&g, k, r);
            let i = r.below(81);
            if p[i] == 0 {
                p[i] = r.range(1, 9) as u8;
            }
            (p, "solvable plus one arbitrary clue")
        }
        13 => {
            let g = solved_grid(r);
            (scramble(&g, r), "complete grid")
        }
        14 => {
            // Whole bands, stacks, rows, columns, boxes or digits left out.
            let g = solved_grid(r);
            let mut p = g;
            let unit = |kind: usize, i: usize| match kind {
                0 => i / 27,
                1 => i % 9 / 3,
                2 => i / 9,
                3 => i % 9,
                4 => box_of(i),
                _ => g[i] as usize - 1,
            };
            for _ in 0..r.range(1, 2) {
                let kind = r.below(6);
                let n = if kind < 2 { 3 } else { 9 };
                let keep: Vec<bool> = (0..n).map(|_| r.chance(1, 2)).collect();
                (0..81).filter(|&i| !keep[unit(kind, i)]).for_each(|i| p[i] = 0);
            }
            if r.chance(1, 3) {
                let i = r.below(81);
                p[i] = r.range(1, 9) as u8;
            }
            (p, "whole units left out")
        }
        15 => {
            // Clues laid out symmetrically.
            let g = solved_grid(r);
            let mut p = g;
            let (how, odds) = (r.below(4), r.range(3, 8));
            for i in 0..81 {
                if r.chance(odds, 10) {
                    let (y, x) = (i / 9, i % 9);
                    p[i] = 0;
                    p[match how {
                        0 => 80 - i,
                        1 => y * 9 + 8 - x,
                        2 => (8 - y) * 9 + x,
                        _ => x * 9 + y,
                    }] = 0;
                }
            }
            (p, "symmetric clues")
        }
        _ => {
            // Full grids in which only some kinds of unit are wrong, then some cells blanked.
            let mut g = solved_grid(r);
            let (y, x) = (r.below(9), r.below(9));
            let near = |k: usize, r: &mut Rng| k / 3 * 3 + (k % 3 + r.range(1, 2)) % 3;
            let far = |k: usize, r: &mut Rng| (k / 3 * 3 + r.range(3, 8)) % 9;
            match r.below(7) {
                // Columns only, rows only.
                0 => g.swap(y * 9 + x, y * 9 + near(x, r)),
                1 => g.swap(y * 9 + x, near(y, r) * 9 + x),
                // Boxes and columns, boxes and rows.
                2 => g.swap(y * 9 + x, y * 9 + far(x, r)),
                3 => g.swap(y * 9 + x, far(y, r) * 9 + x),
                // Boxes only.
                4 => {
                    let (mut rows, mut cols, mut digits): (Vec<usize>, Vec<usize>, Vec<usize>) = ((0..9).collect(), (0..9).collect(), (1..=9).collect());
                    r.shuffle(&mut rows);
                    r.shuffle(&mut cols);
                    r.shuffle(&mut digits);
                    for i in 0..81 {
                        g[i] = digits[(rows[i / 9] + cols[i % 9]) % 9] as u8;
                    }
                }
                // All sums right.
                5 => {
                    let (v, u) = (far(y, r), far(x, r));
                    let cell = |a: usize, b: usize| a * 9 + b;
                    if g[cell(y, x)] < 9 && g[cell(v, u)] < 9 && g[cell(y, u)] > 1 && g[cell(v, x)] > 1 {
                        g[cell(y, x)] += 1;
                        g[cell(v, u)] += 1;
                        g[cell(y, u)] -= 1;
                        g[cell(v, x)] -= 1;
                    } else {
                        g = [5; 81];
                    }
                }
                _ => g = [r.range(1, 9) as u8; 81],
            }
            let keep = match r.below(4) {
                0 | 1 => 81,
                2 => r.range(74, 80),
                _ => r.range(30, 80),
            };
            (blank_some(&g, keep, r), "only some kinds of unit wrong")
        }
    }
}

// ---------------------------------------------------------------- S01 / S02
const SYS_PAIRS: u64 = 810 * 9;

fn unit_pairs() -> Vec<(usize, usize)> {
    let mut v = Vec::new();
    for a in 0..81 {
        for b in a + 1..81 {
            if shares_unit(a, b) {
                v.push((a, b));
            }
        }
    }
    v
}

pub fn solve_input(c: &Ctx) -> (Grid, &'static str) {
    let i = c.idx;
    if i < 730 {
        let mut p = [0u8; 81];
        if i < 729 {
            p[(i / 9) as usize] = (i % 9) as u8 + 1;
        }
        return (p, "single clue or blank");
    }
    let i = i - 730;
    if i < SYS_PAIRS {
        let pairs = unit_pairs();
        let (a, b) = pairs[(i / 9) as usize];
        let mut p = [0u8; 81];
        p[a] = (i % 9) as u8 + 1;
        p[b] = p[a];
        return (p, "every clashing pair");
    }
    let mut r = c.rng("sudoku-solve");
    let kind = ((i - SYS_PAIRS) % KINDS as u64) as usize;
    random_puzzle(&mut r, kind)
}

fn text(p: &[u8]) -> String {
    if p.iter().all(|&v| v < 10) {
        p.iter().map(|v| (b'0' + v) as char).collect()
    } else {
        format!("{p:?}")
    }
}

fn solve_case(c: &mut Ctx, completeness: bool) {
    let (p, class, o) = match heavy_input(c) {
        Some((p, s)) => {
            assert!(grid_fault(&s).is_none() && (0..81).all(|i| p[i] == 0 || p[i] == s[i]));
            // Known to be solvable by its construction; not known to have one solution only.
            (p, "heavy search, solvable", Outcome { solutions: vec![s, s], nodes: 0, complete: true })
        }
        None => {
            let (p, class) = solve_input(c);
            (p, class, reference(&p, 2, 20_000, None))
        }
    };
    if !o.complete {
        c.unjudged += 1;
        c.count("unjudged: reference budget");
        return;
    }
    c.count(&format!("class: {class}"));
    let givens = p.iter().filter(|&&v| v != 0).count();
    let mut answer: Option<Vec<u8>> = None;
    match guard(|| solve_sudoku(&p)) {
        Err(m) => c.violate(format!("solving {m}"), json!(text(&p))),
        Ok(Ok(g)) => {
            c.count("answer: grid");
            if completeness {
                if o.solutions.is_empty() {
                    c.violate(format!("returned {} for a puzzle without solution", text(&g)), json!(text(&p)));
                } else if o.solutions.len() == 1 && g[..] != o.solutions[0][..] {
                    c.violate(
                        format!("returned {}, the only solution is {}", text(&g), text(&o.solutions[0])),
                        json!(text(&p)),
                    );
                }
            } else {
                if let Some(f) = grid_fault(&g) {
                    c.violate(format!("answer {}: {f}", text(&g)), json!(text(&p)));
                } else if let Some(i) = (0..81).find(|&i| p[i] != 0 && g[i] != p[i]) {
                    c.violate(format!("given {} of cell {i} became {}", p[i], g[i]), json!(text(&p)));
                }
            }
            answer = Some(g);
        }
        Ok(Err(e)) => {
            c.count(&format!("answer: {}", variant(&e)));
            if completeness {
                if !matches!(e, SudokuError::NoSolution) {
                    c.violate(format!("error {e:?} for a well-formed puzzle"), json!(text(&p)));
                } else if let Some(s) = o.solutions.first() {
                    c.violate(format!("no solution reported; {} is one", text(s)), json!(text(&p)));
                }
            }
        }
    }
    match o.solutions.len() {
        0 => c.count("reference: none"),
        1 => c.count("reference: unique"),
        _ => c.count("reference: several, or known solvable"),
    }
    c.max("reference_nodes", o.nodes);
    if o.nodes > 81 {
        c.count("needs search");
    }
    // Non-trivial: some but not all cells given, or no solution.
    let nontrivial = (givens > 0 && givens < 81) || o.solutions.is_empty();
    c.eval(nontrivial.then(|| hash_bytes(&p)));
    if c.evals % 997 == 1 {
        c.sample(|| json!({"puzzle": text(&p), "class": class, "answer": answer.map(|g| text(&g)), "reference_solutions": o.solutions.len()}));
    }
}

pub fn variant(e: &SudokuError) -> &'static str {
    match e {
        SudokuError::InvalidInteger(_) => "InvalidInteger",
        SudokuError::InvalidSize(_) => "InvalidSize",
        SudokuError::NoSolution => "NoSolution",
    }
}

// ---------------------------------------------------------------- S03
/// Lengths up to past 16 bits: whole rows, and everything that is 81 in its low byte.
fn long_length(i: u64) -> usize {
    match i {
        0..7400 => i as usize * 9 + 90,
        _ => 81 + 256 * (i as usize - 7399),
    }
}
fn long_lengths() -> u64 {
    7400 + 260
}
/// Well-formed puzzles with every value before or behind them.
const PADDED: u64 = 256 * 6;

fn malformed_case(c: &mut Ctx) {
    let mut r = c.rng("sudoku-malformed");
    let i = c.idx;
    let p: Vec<u8> = if i < 400 {
        // Every length 0..=199 twice: blank, and filled from a valid grid.
        let n = (i / 2) as usize;
        let g = solved_grid(&mut r);
        (0..n).map(|k| if i % 2 == 0 { 0 } else { g[k % 81] }).collect()
    } else if i < 400 + 81 * 246 {
        // Every position with every value 10..=255.
        let k = i - 400;
        let mut p = match k % 3 {
            0 => [0u8; 81],
            1 => {
                let g = solved_grid(&mut r);
                let n = r.range(10, 81);
                blank_some(&g, n, &mut r)
            }
            _ => solved_grid(&mut r),
        };
        p[(k / 246) as usize] = 10 + (k % 246) as u8;
        p.to_vec()
    } else if i < 400 + 81 * 246 + long_lengths() {
        let n = long_length(i - 400 - 81 * 246);
        let g = solved_grid(&mut r);
        match r.below(4) {
            0 => vec![0; n],
            1 => (0..n).map(|k| g[k % 81]).collect(),
            2 => (0..n).map(|k| if k < 81 { g[k] } else { 0 }).collect(),
            _ => (0..n).map(|k| if k + 81 >= n { g[k + 81 - n] } else { 0 }).collect(),
        }
    } else if i < 400 + 81 * 246 + long_lengths() + PADDED {
        let k = i - 400 - 81 * 246 - long_lengths();
        let value = (k / 6) as u8;
        let g = solved_grid(&mut r);
        let n = r.range(17, 81);
        let mut p = blank_some(&g, n, &mut r).to_vec();
        let more = match k % 3 {
            0 => 1,
            1 => r.range(2, 9),
            _ => *r.pick(&[9, 19, 81, 175, 256]),
        };
        for _ in 0..more {
            let at = if k % 6 < 3 { p.len() } else { 0 };
            p.insert(at, value);
        }
        p
    } else {
        let g = solved_grid(&mut r);
        match r.below(4) {
            0 => {
                let n = *r.pick(&[0usize, 1, 9, 27, 80, 82, 90, 162, 729, 1000, 6561, 65536, 65617]);
                (0..n).map(|_| r.below(12) as u8).collect()
            }
            1 => {
                let n = r.range(0, 400);
                (0..n).map(|k| if r.chance(1, 3) { 0 } else { g[k % 81] }).collect()
            }
            2 => {
                let k = r.range(0, 81);
                let mut p = blank_some(&g, k, &mut r).to_vec();
                for _ in 0..r.range(1, 10) {
                    p[r.below(81)] = r.range(10, 255) as u8;
                }
                p
            }
            _ => {
                // An out-of-range value that would name another cell's digit consistently.
                let k = r.range(0, 60);
                let mut p = blank_some(&g, k, &mut r).to_vec();
                let i = r.below(80);
                let j = r.range(i + 1, (i + 28).min(80));
                let v = (j - i) * 9 + g[j] as usize;
                if v <= 255 {
                    p[i] = v as u8;
                    p[j] = 0;
                } else {
                    p[i] = 255;
                }
                p
            }
        }
    };
    let bad_value = p.iter().any(|&v| v > 9);
    let input = || json!({"length": p.len(), "givens": p.iter().take(100).collect::<Vec<_>>()});
    let size_error = |e: &SudokuError| matches!(e, SudokuError::InvalidSize(n) if *n == p.len());
    let wrong_length = p.len() != 81;
    if wrong_length || bad_value {
        match guard(|| solve_sudoku(&p)) {
            Err(m) => c.violate(format!("solving {m}"), input()),
            Ok(Ok(g)) => c.violate(format!("solving answered {}", text(&g)), input()),
            Ok(Err(e)) => {
                c.count(&format!("solve: {}", variant(&e)));
                if wrong_length && !size_error(&e) {
                    c.violate(format!("solving reported {e:?} for length {}", p.len()), input());
                }
            }
        }
        c.eval(Some(hash_bytes(&p)));
    }
    // Drawing is slow; sample the 81-cell cases.
    if wrong_length || i % 64 == 0 {
        match guard(|| print_sudoku(&p)) {
            Err(m) => c.violate(format!("drawing {m}"), input()),
            Ok(Ok(_)) if wrong_length => c.violate("drawing accepted a wrong length", input()),
            Ok(Err(e)) if !(wrong_length && size_error(&e)) => {
                c.violate(format!("drawing reported {e:?} for length {}", p.len()), input())
            }
            Ok(_) => c.count("drawn or refused"),
        }
    }
    if c.evals % 501 == 3 {
        c.sample(input);
    }
}

// ---------------------------------------------------------------- S04
const CHAR_BLOCKS: u64 = 0x110000 / 256;

fn parse_expect(s: &str) -> Result<Vec<u8>, SudokuError> {
    let mut out = Vec::new();
    for ch in s.chars() {
        match ch {
            '0'..='9' => out.push(ch as u32 as u8 - b'0'),
            _ => return Err(SudokuError::InvalidInteger(ch)),
        }
    }
    if out.len() == 81 {
        Ok(out)
    } else {
        Err(SudokuError::InvalidSize(out.len()))
    }
}

fn check_parse(c: &mut Ctx, s: &str) {
    let want = parse_expect(s);
    let got = guard(|| parse_sudoku(s));
    let same = match (&want, &got) {
        (Ok(a), Ok(Ok(b))) => a == b,
        (Err(SudokuError::InvalidInteger(a)), Ok(Err(SudokuError::InvalidInteger(b)))) => a == b,
        (Err(SudokuError::InvalidSize(a)), Ok(Err(SudokuError::InvalidSize(b)))) => a == b,
        _ => false,
    };
    c.count(match &want {
        Ok(_) => "expected: parsed",
        Err(e) => {
            if matches!(e, SudokuError::InvalidSize(_)) {
                "expected: InvalidSize"
            } else {
                "expected: InvalidInteger"
            }
        }
    });
    if !same {
        c.violate(format!("got {got:?}, expected {want:?}"), json!(s));
    } else if let Ok(Err(e)) = &got {
        let shown = e.to_string();
        let named = match e {
            SudokuError::InvalidInteger(ch) => shown.contains(*ch),
            SudokuError::InvalidSize(n) => shown.contains(&n.to_string()),
            SudokuError::NoSolution => true,
        };
        if !named {
            c.violate(format!("message {shown:?} does not name the offender"), json!(s));
        }
    }
    c.eval(Some(hash_bytes(s.as_bytes())));
}

/// Characters up to U+00FF and some that end lines, separate, or are invisible.
const AROUND: u64 = 256 + 12;

/// Texts that are right but for what stands around, before, after or between the digits: every
/// pair of the characters above, and common ways to lay out a grid.
fn parse_around(c: &mut Ctx, k: u32, r: &mut Rng) {
    const MORE: &[char] = &['\u{FEFF}', '\u{200B}', '\u{2028}', '\u{2029}', '\u{3000}', '\u{301}', '٣', '９', '｜', '│', '■', '😀'];
    let at = |k: u32| if k < 256 { char::from_u32(k).unwrap_or('x') } else { MORE[k as usize - 256] };
    let a = at(k);
    let digits: String = (0..81).map(|_| (b'0' + r.below(10) as u8) as char).collect();
    for j in 0..AROUND as u32 {
        let b = at(j);
        check_parse(c, &format!("{digits}{a}{b}"));
        check_parse(c, &format!("{a}{b}{digits}"));
        check_parse(c, &format!("{a}{digits}{b}"));
        check_parse(c, &format!("{}{a}{b}", &digits[2..]));
        check_parse(c, &format!("{a}{b}{}", &digits[2..]));
        let p = r.range(1, 80);
        check_parse(c, &format!("{}{a}{b}{}", &digits[..p], &digits[p..]));
    }
    // One character between, around or in place of digits throughout.
    let chars: Vec<char> = digits.chars().collect();
    for every in [1, 2, 3, 9, 27] {
        let parts: Vec<String> = chars.chunks(every).map(|p| p.iter().collect()).collect();
        for sep in [a.to_string(), format!("{a} "), format!(" {a}"), format!("{a}\n"), format!("{a}{a}")] {
            let joined = parts.join(&sep);
            check_parse(c, &joined);
            check_parse(c, &format!("{joined}{sep}"));
            check_parse(c, &format!("{sep}{joined}{sep}"));
        }
    }
    for blank in '0'..='9' {
        check_parse(c, &digits.replace(blank, &a.to_string()));
    }
    check_parse(c, &a.to_string().repeat(81));
    check_parse(c, &format!("{digits}\n{digits}"));
}

fn parse_case(c: &mut Ctx) {
    let mut r = c.rng("sudoku-parse");
    if c.idx < CHAR_BLOCKS {
        // Every Unicode scalar value once, at a varying position of an otherwise valid string.
        for k in 0..256 {
            if let Some(ch) = char::from_u32((c.idx * 256 + k) as u32) {
                let pos = ((c.idx * 256 + k) % 81) as usize;
                let s: String = (0..81).map(|i| if i == pos { ch } else { (b'0' + ((i * 7 + pos) % 10) as u8) as char }).collect();
                check_parse(c, &s);
            }
        }
        return;
    }
    if c.idx < CHAR_BLOCKS + 3_000 + long_lengths() {
        // Texts of digits, of every length up to some thousands and of many more.
        let k = c.idx - CHAR_BLOCKS;
        let n = if k < 3_000 { k as usize } else { long_length(k - 3_000) };
        let mut s: String = (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect();
        check_parse(c, &s);
        if r.chance(1, 4) {
            s.push(*r.pick(&['x', ' ', '\n', '\u{669}']));
            check_parse(c, &s);
        }
        return;
    }
    let k = c.idx - CHAR_BLOCKS;
    if k >= 3_000 + long_lengths() && k - 3_000 - long_lengths() < AROUND {
        return parse_around(c, (k - 3_000 - long_lengths()) as u32, &mut r);
    }
    const ODD: &[char] = &[
        '.', ' ', '\n', '\t', '\r', '\0', '-', '+', 'a', 'O', 'l', '/', ':', '٣', '௧', '９', '０', '²', '½', 'Ⅷ', '𝟗', '\u{200B}',
        '\u{FEFF}', '\u{301}', 'é', '数', '😀', '*', '_', ',', ';', 'A', 'F', 'z', '\u{10FFFF}', '\u{80}', '\u{FF}',
    ];
    let n = match r.below(8) {
        0..=3 => 81,
        4 => r.range(79, 83),
        5 => r.range(0, 200),
        6 => *r.pick(&[0usize, 1, 9, 80, 82, 162, 81 * 81, 256 + 81, 65536 + 81]),
        _ => r.range(60, 100),
    };
    let mut s: Vec<char> = (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect();
    if n > 0 {
        match r.below(4) {
            0 => (),
            1 => {
                let p = r.below(n);
                s[p] = *r.pick(ODD)
            }
            2 => {
                for _ in 0..r.range(1, 4) {
                    let p = r.below(n);
                    s[p] = *r.pick(ODD)
                }
            }
            _ => {
                let p = *r.pick(&[0, n - 1]);
                s.insert(p, *r.pick(ODD))
            }
        }
    }
    let s: String = s.into_iter().collect();
    check_parse(c, &s);
    if c.evals % 4001 == 7 {
        c.sample(|| json!(s));
    }
}

// ---------------------------------------------------------------- S05
fn picture_case(c: &mut Ctx) {
    let mut r = c.rng("sudoku-picture");
    let i = c.idx;
    let p: Grid = if i < 810 {
        // Every value in every cell, alone.
        let mut p = [0u8; 81];
        p[(i / 10) as usize] = (i % 10) as u8;
        p
    } else {
        match i % 8 {
            6 => {
                // Every row, column, box or diagonal of one digit, or some of them.
                let kind = r.below(5);
                let values: Vec<u8> = (0..9).map(|_| r.below(10) as u8).collect();
                let other: Vec<u8> = (0..81).map(|_| r.below(10) as u8).collect();
                let some: Vec<bool> = (0..9).map(|_| r.chance(2, 3)).collect();
                let mut p = [0u8; 81];
                for j in 0..81 {
                    let u = match kind {
                        0 => j / 9,
                        1 => j % 9,
                        2 => box_of(j),
                        3 => (j / 9 + j % 9) % 9,
                        _ => j % 9 / 3 * 3,
                    };
                    p[j] = if some[u] { values[u] } else { other[j] };
                }
                p
            }
            7 => {
                // Digits in runs, counting up or down, or two of them only.
                let mut p = [0u8; 81];
                let (a, step, k) = (r.below(10), r.range(0, 9), r.range(1, 12));
                let b = r.below(10) as u8;
                let kind = r.below(3);
                for j in 0..81 {
                    p[j] = match kind {
                        0 => ((a + step * (j / k)) % 10) as u8,
                        1 => ((a + step * j) % 10) as u8,
                        _ => if r.chance(1, 2) { a as u8 } else { b },
                    };
                }
                p
            }
            0 => solved_grid(&mut r),
            1 => [r.below(10) as u8; 81],
            2 => {
                let g = solved_grid(&mut r);
                let k = r.range(0, 81);
                blank_some(&g, k, &mut r)
            }
            3 => minimal_or_random(&mut r),
            _ => {
                let mut p = [0u8; 81];
                p.iter_mut().for_each(|v| *v = r.below(10) as u8);
                p
            }
        }
    };
    match guard(|| print_sudoku(&p)) {
        Err(m) => c.violate(format!("drawing {m}"), json!(text(&p))),
        Ok(Err(e)) => c.violate(format!("drawing reported {e:?}"), json!(text(&p))),
        Ok(Ok(img)) => {
            let want = draw::sudoku(&p);
            if let Some(d) = draw::difference(&img, &want) {
                c.violate(d, json!(text(&p)));
            }
            c.add("pixels compared", 810_000);
        }
    }
    c.eval(p.iter().any(|&v| v != 0).then(|| hash_bytes(&p)));
    if c.evals % 97 == 5 {
        c.sample(|| json!(text(&p)));
    }
}

fn minimal_or_random(r: &mut Rng) -> Grid {
    let h = parse(r.pick(HARD));
    scramble(&h, r)
}
