//! Monitors of the set structure and the random choice: U01 U02.
use crate::rt::*;
use crate::Prop;
use puzzle_utils::verif_hooks::{choose_random, DisjointSet};
use serde_json::json;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "U01", plan: |t| EXHAUSTIVE + BIG + if t { 8_000_000 } else { 300_000 }, case: set_case },
        Prop { id: "U02", plan: |t| (SIZES.len() + LARGE.len() + KINDS_OF_ELEMENTS * TYPED.len()) as u64 + 8 + if t { 400_000 } else { 30_000 }, case: choice_case },
    ]
}

// ---------------------------------------------------------------- U01
/// Every sequence of 4 unions on 4 elements (one index out of range), in chunks.
const EXHAUSTIVE: u64 = 25 * 25 * 25 * 25 / 625;
const BIG: u64 = 48;

#[derive(Clone, Debug)]
enum Op {
    Add,
    Union(usize, usize),
    Find(usize),
    Common(usize, usize),
}

/// The partition as told: a label per element and the members of each label.
struct Partition {
    label: Vec<usize>,
    members: Vec<Vec<usize>>,
}

impl Partition {
    fn new(n: usize) -> Self {
        Partition { label: (0..n).collect(), members: (0..n).map(|i| vec![i]).collect() }
    }
    fn add(&mut self) {
        let n = self.label.len();
        self.label.push(self.members.len());
        self.members.push(vec![n]);
    }
    fn union(&mut self, a: usize, b: usize) {
        let n = self.label.len();
        if a >= n || b >= n || self.label[a] == self.label[b] {
            return;
        }
        let (mut x, mut y) = (self.label[a], self.label[b]);
        if self.members[x].len() > self.members[y].len() {
            std::mem::swap(&mut x, &mut y);
        }
        let moved = std::mem::take(&mut self.members[x]);
        for &m in &moved {
            self.label[m] = y;
        }
        self.members[y].extend(moved);
    }
    fn same(&self, a: usize, b: usize) -> Option<bool> {
        let n = self.label.len();
        (a < n && b < n).then(|| self.label[a] == self.label[b])
    }
}

fn compare(s: &mut DisjointSet, p: &Partition) -> Result<(), String> {
    let mut rep: std::collections::HashMap<usize, usize> = std::collections::HashMap::new();
    for i in 0..p.label.len() {
        let Some(r) = s.find(i) else { return Err(format!("element {i} is not found")) };
        if r >= p.label.len() || p.label[r] != p.label[i] {
            return Err(format!("the representative {r} of {i} is not in its set"));
        }
        let first = *rep.entry(p.label[i]).or_insert(r);
        if first != r {
            return Err(format!("one set has representatives {first} and {r}"));
        }
    }
    Ok(())
}

fn apply(s: &mut DisjointSet, p: &mut Partition, op: &Op) -> Result<(), String> {
    let n = p.label.len();
    match *op {
        Op::Add => {
            s.add();
            p.add();
        }
        Op::Union(a, b) => {
            let got = s.union(a, b);
            p.union(a, b);
            if got.is_some() != (a < n && b < n) {
                return Err(format!("union({a},{b}) of {n} elements gives {got:?}"));
            }
            if let Some(r) = got {
                if r >= n || p.label[r] != p.label[a] {
                    return Err(format!("union({a},{b}) gives {r}, which is not in their set"));
                }
            }
        }
        Op::Find(a) => {
            let got = s.find(a);
            match got {
                None if a >= n => (),
                Some(r) if a < n && r < n && p.label[r] == p.label[a] => (),
                _ => return Err(format!("find({a}) of {n} elements gives {got:?}")),
            }
        }
        Op::Common(a, b) => {
            let got = s.common_set(a, b);
            let want = p.same(a, b);
            if got != want {
                return Err(format!("common_set({a},{b}) gives {got:?} instead of {want:?}"));
            }
        }
    }
    Ok(())
}

fn play(n: usize, ops: &[Op], every: usize) -> Result<usize, String> {
    let mut s = if n == 0 { DisjointSet::new() } else { DisjointSet::with_size(n) };
    let mut p = Partition::new(n);
    for (k, op) in ops.iter().enumerate() {
        apply(&mut s, &mut p, op).map_err(|e| format!("operation {k}: {e}"))?;
        if every > 0 && k % every == every - 1 {
            compare(&mut s, &p).map_err(|e| format!("after operation {k}: {e}"))?;
        }
    }
    compare(&mut s, &p).map_err(|e| format!("at the end: {e}"))?;
    for i in [p.label.len(), p.label.len() + 1, usize::MAX] {
        if s.find(i).is_some() {
            return Err(format!("element {i} is found among {}", p.label.len()));
        }
    }
    Ok(p.members.iter().filter(|m| !m.is_empty()).count())
}

fn judge_set(c: &mut Ctx, n: usize, ops: &[Op], every: usize, kind: &str) {
    let show = || json!({"elements": n, "operations": ops.iter().take(60).map(|o| format!("{o:?}")).collect::<Vec<_>>(), "count": ops.len(), "kind": kind});
    match guard(|| play(n, ops, every)) {
        Err(m) => c.violate(format!("the set structure {m}"), show()),
        Ok(Err(e)) => c.violate(e, show()),
        Ok(Ok(sets)) => c.max("sets at the end", sets as u64),
    }
    c.add("operations", ops.len() as u64);
    c.count(kind);
    let mut b = Vec::new();
    for o in ops.iter().take(4000) {
        let v: [usize; 3] = match *o {
            Op::Add => [0, 0, 0],
            Op::Union(a, b) => [1, a, b],
            Op::Find(a) => [2, a, 0],
            Op::Common(a, b) => [3, a, b],
        };
        b.extend(v.iter().flat_map(|x| (*x as u32).to_le_bytes()));
    }
    let nontrivial = ops.iter().any(|o| matches!(o, Op::Union(a, b) if a != b));
    c.eval(nontrivial.then(|| hash_bytes(&b) ^ mix(n as u64)));
    if c.evals % 9973 == 7 {
        c.sample(show);
    }
}

fn set_case(c: &mut Ctx) {
    let mut r = c.rng("sets");
    if c.idx < EXHAUSTIVE {
        for k in 0..625u64 {
            let mut m = c.idx * 625 + k;
            let ops: Vec<Op> = (0..4)
                .map(|_| {
                    let v = (m % 25) as usize;
                    m /= 25;
                    Op::Union(v / 5, v % 5)
                })
                .collect();
            judge_set(c, 4, &ops, 1, "every union sequence on four elements");
        }
        return;
    }
    let i = c.idx - EXHAUSTIVE;
    if i < BIG {
        // Large histories in a small stack, in orders that build tall trees if they can be built.
        let order = i % 12;
        let n = if c.thorough { 1_200_000 } else { 150_000 + 20_000 * (i as usize / 12) };
        let mut ops = Vec::with_capacity(2 * n);
        match order {
            0 => ops.extend((1..n).map(|k| Op::Union(k - 1, k))),
            1 => ops.extend((1..n).map(|k| Op::Union(k, k - 1))),
            2 => ops.extend((1..n).rev().map(|k| Op::Union(k, k - 1))),
            3 => ops.extend((1..n).rev().map(|k| Op::Union(k - 1, k))),
            4 | 5 => {
                // Equal halves merged level by level: the tallest trees that union by size allows.
                let mut step = 1;
                while step < n {
                    let mut k = 0;
                    while k + step < n {
                        ops.push(if order == 4 { Op::Union(k, k + step) } else { Op::Union(k + step, k) });
                        k += 2 * step;
                    }
                    step *= 2;
                }
            }
            6 => ops.extend((1..n).map(|k| Op::Union(0, k))),
            7 => ops.extend((1..n).map(|k| Op::Union(k, 0))),
            8 => {
                // Always a fresh single element first, the big set last, from both ends.
                let (mut a, mut b) = (n / 2, n / 2 + 1);
                while a > 0 && b < n {
                    ops.push(Op::Union(a, a - 1));
                    ops.push(Op::Union(b - 1, b));
                    a -= 1;
                    b += 1;
                }
            }
            9 => {
                for _ in 0..n {
                    ops.push(Op::Union(r.below(n), r.below(n)));
                }
            }
            // Elements added one by one, each joined to an earlier one: the last, or any.
            _ => {
                for k in 0..n {
                    ops.push(Op::Add);
                    ops.push(Op::Union(n + k, if order == 10 { n + k - 1 } else { r.below(n + k) }));
                }
            }
        }
        for _ in 0..200 {
            ops.push(Op::Common(r.below(n), r.below(n)));
        }
        // A quarter of an ordinary stack.
        let got = std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(512 << 10)
                .spawn_scoped(s, || guard(|| play(n, &ops, 0)))
                .expect("harness: spawn")
                .join()
                .unwrap_or(Err("harness: thread".into()))
        });
        let show = json!({"elements": n, "order": order, "operations": ops.len()});
        match got {
            Err(m) => c.violate(format!("the set structure {m}"), show),
            Ok(Err(e)) => c.violate(e, show),
            Ok(Ok(_)) => (),
        }
        c.max("elements", n as u64);
        c.add("operations", ops.len() as u64);
        c.count("large histories in a 512 KiB stack");
        c.eval(Some(mix(n as u64) ^ mix(order + 77)));
        return;
    }
    let n = match r.below(6) {
        0 => r.below(3),
        1 | 2 => r.range(2, 6),
        3 | 4 => r.range(5, 30),
        _ => r.range(30, 200),
    };
    let len = r.range(1, 12 + 2 * n);
    let out = r.chance(1, 3);
    let mut have = n;
    let adds = r.chance(1, 2);
    let mut idx = |r: &mut Rng, have: usize| -> usize {
        if out && r.chance(1, 8) {
            *r.pick(&[have, have + 1, usize::MAX, have + 64])
        } else if have == 0 {
            0
        } else if r.chance(1, 5) {
            have - 1
        } else {
            r.below(have)
        }
    };
    let mix_of = r.below(3);
    let ops: Vec<Op> = (0..len)
        .map(|_| match r.below(10) {
            0 if adds || have == 0 => {
                have += 1;
                Op::Add
            }
            1 | 2 if mix_of > 0 => Op::Find(idx(&mut r, have)),
            3 | 4 if mix_of > 1 => Op::Common(idx(&mut r, have), idx(&mut r, have)),
            _ => {
                let a = idx(&mut r, have);
                Op::Union(a, if r.chance(1, 12) { a } else { idx(&mut r, have) })
            }
        })
        .collect();
    // Comparing calls find, which compresses paths; rare comparison leaves long paths in place.
    let every = *r.pick(&[0, 0, 1, 3, 7]);
    judge_set(c, n, &ops, every, "random histories");
}

// ---------------------------------------------------------------- U02
const SIZES: &[usize] = &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 500, 1000];

/// Chi-square statistic as a number of standard deviations from its mean.
fn excess(counts: &[u64], total: u64) -> f64 {
    let e = total as f64 / counts.len() as f64;
    let x: f64 = counts.iter().map(|&k| (k as f64 - e).powi(2) / e).sum();
    let df = (counts.len() - 1) as f64;
    // Wilson-Hilferty.
    if df == 0.0 {
        return 0.0;
    }
    ((x / df).cbrt() - (1.0 - 2.0 / (9.0 * df))) / (2.0 / (9.0 * df)).sqrt()
}

/// The same for cells of unequal expectation.
fn excess_of(counts: &[u64], expected: &[f64]) -> f64 {
    let x: f64 = counts.iter().zip(expected).map(|(&k, &e)| (k as f64 - e).powi(2) / e).sum();
    let df = (counts.len() - 1) as f64;
    ((x / df).cbrt() - (1.0 - 2.0 / (9.0 * df))) / (2.0 / (9.0 * df)).sqrt()
}

/// Lengths at which a position outgrows 16 bits, single-precision fractions or a table.
const LARGE: &[usize] = &[1024, 2000, 4096, 5000, 10_000, 21_846, 32_767, 40_000, 65_535, 65_536, 65_537, 100_000, 131_073, 300_000, 1_000_003, 2_500_000];

/// Long lists: positions by eighths of the list, and by their remainder modulo 2 to 8.
fn large_choice(c: &mut Ctx, n: usize) {
    let mut r = c.rng("long choice");
    let draws = (3_000_000_000 / n as u64 / 8).clamp(800, 300_000) * if c.thorough { 8 } else { 1 };
    let seed = r.next();
    let drawn = with_entropy(seed, || {
        guard(|| {
            let base: Vec<u32> = (0..n as u32).collect();
            let mut v = base.clone();
            (0..draws)
                .map(|_| {
                    v.clear();
                    v.extend_from_slice(&base);
                    choose_random(&mut v).map(|k| k as usize)
                })
                .collect::<Option<Vec<usize>>>()
        })
    });
    let input = json!({"length": n, "draws": draws, "entropy seed": seed});
    match drawn {
        Err(m) => c.violate(format!("choosing {m}"), input),
        Ok(None) => c.violate("choosing returned no element", input),
        Ok(Some(k)) => {
            for cells in [2usize, 8, 32] {
                let bin = |i: usize| (i as u128 * cells as u128 / n as u128) as usize;
                let mut size = vec![0u64; cells];
                (0..n).for_each(|i| size[bin(i)] += 1);
                let mut counts = vec![0u64; cells];
                k.iter().for_each(|&i| counts[bin(i)] += 1);
                let expected: Vec<f64> = size.iter().map(|&s| s as f64 / n as f64 * draws as f64).collect();
                let z = excess_of(&counts, &expected);
                c.max("deviation in hundredths of sigma", (z.abs() * 100.0) as u64);
                if z > LIMIT {
                    c.violate(format!("parts of the list are not equally likely: {counts:?} of {draws}, expected {expected:.0?}"), input.clone());
                }
            }
            for m in 2..=8usize {
                let mut counts = vec![0u64; m];
                k.iter().for_each(|&i| counts[i % m] += 1);
                let expected: Vec<f64> = (0..m).map(|j| ((n - j).div_ceil(m)) as f64 / n as f64 * draws as f64).collect();
                let z = excess_of(&counts, &expected);
                c.max("deviation in hundredths of sigma", (z.abs() * 100.0) as u64);
                if z > LIMIT {
                    c.violate(format!("positions modulo {m} are not equally likely: {counts:?} of {draws}"), input.clone());
                }
            }
            c.add("draws", draws);
            c.count("long lists");
        }
    }
    c.eval(Some(mix(n as u64 + 77)));
}

/// About one in 10^11 under the stated distribution.
const LIMIT: f64 = 6.7;

/// Positions are equally likely whatever the elements are and however much room the list has.
const KINDS_OF_ELEMENTS: usize = 7;
const TYPED: &[usize] = &[2, 3, 4, 5, 9, 33, 300];

fn positions<T>(n: usize, draws: u64, spare: usize, seed: u64, of: impl Fn(usize) -> T + Sync, back: impl Fn(T) -> usize + Sync) -> Result<Option<Vec<u64>>, String> {
    with_entropy(seed, || {
        guard(|| {
            let mut counts = vec![0u64; n];
            let mut v: Vec<T> = Vec::with_capacity(n + spare);
            for _ in 0..draws {
                v.clear();
                v.extend((0..n).map(&of));
                *counts.get_mut(back(choose_random(&mut v)?))? += 1;
            }
            Some(counts)
        })
    })
}

fn typed_choice(c: &mut Ctx, kind: usize, n: usize) {
    let mut r = c.rng("kinds of elements");
    let draws = (n as u64 * 400).max(40_000) * if c.thorough { 10 } else { 1 };
    let seed = r.next();
    let (what, got) = match kind {
        0 => ("bytes", positions(n.min(256), draws, 0, seed, |x| x as u8, usize::from)),
        1 => ("strings", positions(n, draws, 0, seed, |x| x.to_string(), |s| s.parse().unwrap_or(usize::MAX))),
        2 => ("blocks of 320 bytes", positions(n, draws, 0, seed, |x| [x as u64; 40], |b| b[39] as usize)),
        3 => ("boxes", positions(n, draws, 0, seed, Box::new, |b| *b)),
        4 => ("blocks of 4160 bytes", positions(n, draws / 4, 0, seed, |x| [x as u64; 520], |b| b[1] as usize)),
        5 => ("words, with room for more", positions(n, draws, 3 * n + 100, seed, |x| x, |x| x)),
        _ => ("lists", positions(n, draws, 0, seed, |x| vec![x; x % 3 + 1], |v| v[0])),
    };
    let input = json!({"length": n, "elements": what, "entropy seed": seed});
    match got {
        Err(m) => c.violate(format!("choosing {m}"), input),
        Ok(None) => c.violate("choosing returned no element, or none of the list", input),
        Ok(Some(k)) => {
            let total = k.iter().sum();
            let z = excess(&k, total);
            c.max("deviation in hundredths of sigma", (z.abs() * 100.0) as u64);
            if z > LIMIT {
                c.violate(format!("positions in a list of {what} are not equally likely: {:?} of {total}", &k[..k.len().min(24)]), input);
            }
            c.add("draws", total);
            c.count("lists of other elements");
        }
    }
    c.eval(Some(mix(n as u64 + 100_000 * (kind as u64 + 1))));
}

fn choice_case(c: &mut Ctx) {
    let mut r = c.rng("choice");
    let i = c.idx as usize;
    if i < SIZES.len() {
        let n = SIZES[i];
        // Few elements: enough draws to notice a bias of one in some hundred.
        let draws = (n as u64 * 400).max(if n <= 17 { 6_000_000 } else { 60_000 }) * if c.thorough { 12 } else { 1 };
        let seed = r.next();
        let counts = with_entropy(seed, || {
            guard(|| {
                let mut counts = vec![0u64; n];
                let base: Vec<usize> = (0..n).collect();
                let mut v = base.clone();
                for _ in 0..draws {
                    v.clear();
                    v.extend_from_slice(&base);
                    match choose_random(&mut v) {
                        Some(k) if k < n => counts[k] += 1,
                        _ => return Err(()),
                    }
                }
                Ok(counts)
            })
        });
        match counts {
            Err(m) => c.violate(format!("choosing {m}"), json!({"length": n})),
            Ok(Err(())) => c.violate("choosing returned no element", json!({"length": n})),
            Ok(Ok(k)) => {
                let z = excess(&k, draws);
                c.max("deviation in hundredths of sigma", (z.abs() * 100.0) as u64);
                if z > LIMIT {
                    let low = (0..n).min_by_key(|&j| k[j]).unwrap_or(0);
                    let high = (0..n).max_by_key(|&j| k[j]).unwrap_or(0);
                    c.violate(
                        format!("positions are not equally likely: of {draws} draws from {n} elements, position {low} has {}, position {high} {}", k[low], k[high]),
                        json!({"length": n, "entropy seed": seed}),
                    );
                }
                c.add("draws", draws);
            }
        }
        c.eval(Some(mix(n as u64)));
        return;
    }
    let i = i - SIZES.len();
    if i < LARGE.len() {
        return large_choice(c, LARGE[i]);
    }
    let i = i - LARGE.len();
    if i < KINDS_OF_ELEMENTS * TYPED.len() {
        return typed_choice(c, i / TYPED.len(), TYPED[i % TYPED.len()]);
    }
    let i = i - KINDS_OF_ELEMENTS * TYPED.len();
    if i < 8 {
        // Drawing until empty gives every order equally often; consecutive draws are independent.
        let n = [2, 3, 4, 5][i % 4];
        let perms: u64 = (1..=n as u64).product();
        let rounds = perms * 1500 * if c.thorough { 10 } else { 1 };
        let seed = r.next();
        let pairs = i >= 4;
        let cells = if pairs { n * n } else { perms as usize };
        let counts = with_entropy(seed, || {
            guard(|| {
                let mut counts = vec![0u64; cells];
                let mut last = usize::MAX;
                let mut skip = true;
                for _ in 0..rounds {
                    let mut v: Vec<usize> = (0..n).collect();
                    if pairs {
                        let k = choose_random(&mut v)?;
                        if !skip {
                            counts[last * n + k] += 1;
                        }
                        skip = !skip;
                        last = k;
                    } else {
                        let mut rank = 0;
                        let mut rest: Vec<usize> = (0..n).collect();
                        while !rest.is_empty() {
                            let k = choose_random(&mut v)?;
                            let at = rest.iter().position(|&x| x == k)?;
                            rank = rank * rest.len() + at;
                            rest.remove(at);
                        }
                        counts[rank] += 1;
                    }
                }
                Some(counts)
            })
        });
        match counts {
            Err(m) => c.violate(format!("choosing {m}"), json!({"length": n})),
            Ok(None) => c.violate("repeated draws do not yield every element once", json!({"length": n})),
            Ok(Some(k)) => {
                let total = k.iter().sum();
                let z = excess(&k, total);
                c.max("deviation in hundredths of sigma", (z.abs() * 100.0) as u64);
                if z > LIMIT {
                    c.violate(
                        format!("{} are not equally likely: {:?}", if pairs { "pairs of consecutive draws" } else { "orders" }, &k[..k.len().min(24)]),
                        json!({"length": n, "entropy seed": seed}),
                    );
                }
                c.add("draws", total);
            }
        }
        c.eval(Some(mix(n as u64 + 5000 + pairs as u64)));
        return;
    }
    // Conservation, on elements of several kinds, duplicates included.
    let n = match r.below(4) {
        0 => r.below(3),
        1 => r.range(200, 700),
        _ => r.below(20),
    };
    let distinct = r.range(1, n.max(1));
    let labels: Vec<u32> = (0..n).map(|_| r.below(distinct) as u32).collect();
    let take = r.range(0, n + 2);
    let seed = r.next();
    let spare = r.below(3) * r.below(40);
    let (what, got) = match c.idx % 6 {
        0 => ("strings", conserve(&labels, take, seed, spare, |x| format!("element {x:06}"))),
        1 => ("bytes", conserve(&labels, take, seed, spare, |x| x as u8)),
        2 => ("nothing at all", conserve(&labels, take, seed, spare, |_| ())),
        3 => ("large elements", conserve(&labels, take, seed, spare, |x| [u64::from(x); 40])),
        4 => ("boxes and words", conserve(&labels, take, seed, spare, |x| (Box::new(x), x as u8))),
        _ => ("counted references", {
            let shared: Vec<std::rc::Rc<u32>> = (0..distinct as u32).map(std::rc::Rc::new).collect();
            let got = conserve(&labels, take, seed, spare, |x| shared[x as usize].clone());
            // What was taken and what was left are gone by now, each exactly once.
            match shared.iter().find(|s| std::rc::Rc::strong_count(s) != 1) {
                Some(s) if matches!(got, Ok(Ok(()))) => Ok(Err(format!("element {s} is still held {} times", std::rc::Rc::strong_count(s) - 1))),
                _ => got,
            }
        }),
    };
    let show = json!({"list": labels.iter().take(40).collect::<Vec<_>>(), "of": what, "length": n, "draws": take});
    match got {
        Err(m) => c.violate(format!("choosing {m}"), show.clone()),
        Ok(Err(e)) => c.violate(e, show.clone()),
        Ok(Ok(())) => (),
    }
    c.count(&format!("conservation histories: {what}"));
    let bytes: Vec<u8> = labels.iter().map(|&x| x as u8).collect();
    c.eval((n > 1 && take > 0).then(|| hash_bytes(&bytes) ^ mix(take as u64) ^ hash_bytes(what.as_bytes())));
    if c.evals % 499 == 7 {
        c.sample(|| show);
    }
}

/// Draws `take` times from a list: each draw gives one of its elements and leaves all others.
fn conserve<T: Ord + Clone>(labels: &[u32], take: usize, seed: u64, spare: usize, of: impl Fn(u32) -> T) -> Result<Result<(), String>, String> {
    let mut v: Vec<T> = Vec::with_capacity(labels.len() + spare);
    v.extend(labels.iter().map(|&x| of(x)));
    let mut left = v.clone();
    left.sort();
    let out = guard(|| {
        getrandom::inject(seed);
        for k in 0..take {
            let before = v.len();
            match choose_random(&mut v) {
                None if before == 0 && v.is_empty() => (),
                None => return Err(format!("draw {k} from {before} elements gives nothing and leaves {}", v.len())),
                Some(x) => {
                    let Ok(at) = left.binary_search(&x) else { return Err(format!("draw {k} gives an element that is not in the list")) };
                    left.remove(at);
                    let mut have = v.clone();
                    have.sort();
                    if have != left {
                        return Err(format!("draw {k} leaves {} elements that are not the others", v.len()));
                    }
                }
            }
        }
        Ok(())
    });
    drop((v, left));
    out
}
