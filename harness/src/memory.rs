//! Memory monitors: D03 (balance of the heap) and the workload of D02 (run under sanitizers).
use crate::rt::*;
use crate::{nono, sudoku, Prop};
use image::{Rgb, RgbImage};
use puzzle_utils::*;
use serde_json::{json, Value};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "D03", plan: |t| MARATHONS + BIG + if t { 1_500_000 } else { 120_000 }, case: balance_case },
        Prop { id: "D02", plan: |t| if t { 4_000_000 } else { 90_000 }, case: sanitized_case },
        // The part of D02 that the interpreter can afford.
        Prop { id: "D02M", plan: |_| 100_000, case: interpreted_case },
    ]
}

// ---------------------------------------------------------------- D03
/// A call of the public interface with its inputs prepared outside the measurement.
struct Call<'a> {
    name: &'static str,
    run: Box<dyn FnMut() -> &'static str + Send + 'a>,
    input: Value,
}

fn call<'a>(name: &'static str, input: Value, run: impl FnMut() -> &'static str + Send + 'a) -> Call<'a> {
    Call { name, run: Box::new(run), input }
}

fn ok<T, E>(r: Result<T, E>) -> &'static str {
    if r.is_ok() {
        "result"
    } else {
        "error"
    }
}

/// Runs `make`'s call and reports heap growth that repeats.
fn measure(c: &mut Ctx, mut call: Call<'_>) {
    let mut outcome = "";
    let mut held = Vec::new();
    // Some calls are made by a thread that ends: what the thread keeps must end with it.
    let elsewhere = c.idx / 30 % 7 == 3;
    if elsewhere {
        c.count("calls in threads that end");
    }
    for attempt in 0..4 {
        let before = alloc::snapshot();
        let got = if elsewhere {
            std::thread::scope(|s| s.spawn(|| guard(|| outcome = (call.run)())).join().unwrap_or(Err(String::new())))
        } else {
            guard(|| outcome = (call.run)())
        };
        let after = alloc::snapshot();
        if got.is_err() {
            // A panic is for the property of that operation.
            c.unjudged += 1;
            c.count("call panicked");
            return;
        }
        held.push((after.0 - before.0, after.1 - before.1));
        c.add("allocations observed", after.2 - before.2);
        if held[attempt] == (0, 0) {
            break;
        }
    }
    let last = *held.last().unwrap_or(&(0, 0));
    let first = held[0];
    if last != (0, 0) && held.iter().all(|h| h.0 > 0 || h.1 > 0) {
        c.violate(
            format!("{} with {outcome} keeps {} bytes in {} blocks, and again on every repetition: {held:?}", call.name, first.0, first.1),
            call.input.clone(),
        );
    } else if last != (0, 0) {
        c.violate(format!("{} with {outcome} changes the heap without balance: {held:?}", call.name), call.input.clone());
    } else if first.0 > 0 || first.1 > 0 {
        // Held once, not again: fixed state if it stays rare, growth with every new input if not.
        c.count("kept something once");
        let n = c.counters["kept something once"];
        c.add("bytes kept once", first.0.max(0) as u64);
        if n > 12 {
            c.violate(
                format!("{} with {outcome} keeps {} bytes for a new input ({n} inputs so far)", call.name, first.0),
                call.input.clone(),
            );
        } else if first.0 > 1 << 19 {
            // No fixed state is as large; a buffer that stays is as large as what went through it.
            c.violate(format!("{} with {outcome} keeps {} bytes", call.name, first.0), call.input.clone());
        }
    }
    c.count(&format!("{}: {outcome}", call.name));
    if c.evals % 499 == 8 {
        let input = std::mem::take(&mut call.input);
        c.sample(|| json!({"call": call.name, "outcome": outcome, "heap change": held, "input": input}));
    }
}

fn balance_case(c: &mut Ctx) {
    let mut r = c.rng("balance");
    if c.done == 0 {
        warm_up();
    }
    if c.idx < MARATHONS {
        return marathon(c);
    }
    if c.idx < MARATHONS + BIG {
        return big_case(c, c.idx - MARATHONS);
    }
    let op = (c.idx % 30) as usize;
    let hash;
    match op {
        0..=5 => {
            let (p, kind) = if op < 4 {
                sudoku::random_puzzle(&mut r, (c.idx / 30 % sudoku::KINDS as u64) as usize)
            } else {
                let (mut p, k) = sudoku::random_puzzle(&mut r, 0);
                p[r.below(81)] = r.range(10, 255) as u8;
                (p, k)
            };
            if !sudoku::reference(&p.map(|v| v % 10), 1, 5_000, None).complete {
                c.unjudged += 1;
                return;
            }
            hash = hash_bytes(&p);
            measure(c, call("solve_sudoku", json!({"puzzle": p.to_vec(), "kind": kind}), || ok(solve_sudoku(&p))));
        }
        6 => {
            let n = r.below(200);
            let p = vec![1u8; n];
            hash = n as u64;
            measure(c, call("solve_sudoku", json!({"length": n}), || ok(solve_sudoku(&p))));
            let q = vec![1u8; n.max(82)];
            measure(c, call("print_sudoku", json!({"length": q.len()}), || ok(print_sudoku(&q))));
        }
        7 | 8 => {
            let mut s: String = (0..81).map(|_| (b'0' + r.below(10) as u8) as char).collect();
            match r.below(4) {
                0 => s.insert(r.below(81), *r.pick(&['x', 'é', '٣'])),
                1 => s.push('4'),
                2 => s.truncate(r.below(81)),
                _ => (),
            }
            hash = hash_bytes(s.as_bytes());
            measure(c, call("parse_sudoku", json!(s), || ok(parse_sudoku(&s))));
        }
        9 => {
            if c.idx / 30 % 6 != 0 {
                return;
            }
            let (p, _) = sudoku::random_puzzle(&mut r, 0);
            hash = hash_bytes(&p);
            measure(c, call("print_sudoku", json!(p.to_vec()), || ok(print_sudoku(&p))));
        }
        10..=12 => {
            let (w, h) = (r.range(1, 14), r.range(1, 14));
            hash = r.next();
            measure(c, call("create_maze", json!([w, h]), || {
                let _ = create_maze(w, h, MazeAlgorithm::RecursiveBacktrack);
                "result"
            }));
        }
        13..=15 => {
            let (w, h) = (r.range(1, 9), r.range(1, 9));
            let Ok((nodes, dirs)) = guard(|| create_maze(w, h, MazeAlgorithm::RecursiveBacktrack)) else { return };
            hash = r.next();
            let wrong = r.chance(1, 3) as usize;
            measure(c, call("print_maze", json!([w, h + wrong]), || ok(print_maze((w + wrong) as u32, h as u32, &nodes))));
            let Ok(Ok(img)) = guard(|| print_maze(w as u32, h as u32, &nodes)) else { return };
            let mut dirs = dirs;
            if r.chance(1, 3) {
                dirs.extend((0..20).map(|_| MazeDirection::Up));
            }
            measure(c, call("print_maze_solution", json!([w, h]), || ok(print_maze_solution(img.clone(), &dirs))));
        }
        16 | 17 => {
            let mut s = (0..r.range(1, 16)).map(|_| r.below(40).to_string()).collect::<Vec<_>>().join(*r.pick(&[",", ";"]));
            if r.chance(1, 3) {
                s.push('x');
            }
            let bound = if r.chance(3, 4) { usize::MAX } else { r.below(40) };
            hash = hash_bytes(s.as_bytes());
            measure(c, call("parse_nonogram_rules", json!({"text": s, "bound": bound}), || ok(parse_nonogram_rules(&s, bound))));
        }
        18..=20 => {
            let kind = r.below(nono::KINDS);
            let (mut col, mut row, _) = nono::random_puzzle(&mut r, kind);
            if r.chance(1, 8) {
                col[0] = vec![usize::MAX, 3];
            } else if r.chance(1, 8) {
                row.clear();
            }
            if nono::effort(&col, &row, 100).is_none() {
                c.unjudged += 1;
                return;
            }
            hash = r.next();
            measure(c, call("solve_nonogram", json!({"columns": col, "rows": row}), || ok(solve_nonogram(&col, &row))));
        }
        21 => {
            let (w, h) = (r.range(1, 6), r.range(1, 6));
            let g = nono::random_grid(&mut r, w, h);
            let (col, row) = nono::rules_of(w, h, &g);
            let wrong = r.chance(1, 3) as u32;
            hash = r.next();
            measure(c, call("print_nonogram", json!({"columns": col, "rows": row}), || ok(print_nonogram(w as u32 + wrong, h as u32, &col, &row))));
            let Ok(Ok(img)) = nono::draw_puzzle(w, h, &col, &row) else { return };
            measure(c, call("print_nonogram_solution", json!([w, h]), || {
                ok(print_nonogram_solution(w as u32 + wrong, h as u32, img.clone(), &g))
            }));
        }
        22 => {
            let (w, h) = (r.below(40) as u32, r.below(40) as u32);
            let img = RgbImage::from_pixel(w, h, Rgb([r.next() as u8; 3]));
            hash = (w * 64 + h) as u64;
            measure(c, call("image_to_png_bytes", json!([w, h]), || ok(image_to_png_bytes(&img))));
        }
        23 => {
            // In a thread that ends: what the thread keeps must end with it.
            let (w, h) = (r.range(1, 9), r.range(1, 9));
            let mut p = sudoku::solved_grid(&mut r);
            p[r.below(81)] = 0;
            let which = r.below(5);
            hash = r.next();
            measure(c, call("a thread that ends", json!({"operation": which, "size": [w, h]}), || {
                std::thread::scope(|s| {
                    s.spawn(|| match which {
                        0 => ok(solve_sudoku(&p)),
                        1 => ok(parse_nonogram_rules("1;2,x", 9)),
                        2 => ok(solve_nonogram(&[vec![1], vec![1]], &[vec![1], vec![1]])),
                        3 => ok(parse_sudoku("0")),
                        _ => {
                            let (n, d) = create_maze(w, h, MazeAlgorithm::RecursiveBacktrack);
                            ok(print_maze(w as u32, h as u32, &n).and_then(|i| print_maze_solution(i, &d)))
                        }
                    })
                    .join()
                    .unwrap_or("panic")
                })
            }));
        }
        24 => {
            let (w, h) = (r.range(1, 20), r.range(1, 20));
            let Ok((nodes, dirs)) = guard(|| create_maze(w, h, MazeAlgorithm::RecursiveBacktrack)) else { return };
            let mut text = serde_json::to_string(&(&nodes, &dirs)).unwrap_or_default();
            if r.chance(1, 3) {
                // Cut off, so that reading fails midway.
                text.truncate(r.below(text.len() + 1));
            }
            hash = hash_bytes(text.as_bytes());
            measure(c, call("serialization", json!([w, h]), || {
                let _ = serde_json::to_vec(&nodes);
                let _ = serde_json::to_vec(&dirs);
                ok(serde_json::from_str::<(Vec<MazeNode>, Vec<MazeDirection>)>(&text))
            }));
        }
        25 => {
            // Larger inputs, which may take other ways.
            let edges = crate::maze::edge_sizes(20_000);
            hash = r.next();
            match r.below(10) {
                8 | 9 => {
                    // Long rules on few lines, large numbers.
                    let (n, m) = (r.range(20, 130), r.range(1, 2));
                    let rule = |r: &mut Rng, n: usize| -> Vec<usize> { if r.chance(1, 3) { vec![n] } else { vec![1; r.range(1, n.div_ceil(2))] } };
                    let long: Vec<Vec<usize>> = (0..m).map(|_| rule(&mut r, n)).collect();
                    let short: Vec<Vec<usize>> = (0..n).map(|_| rule(&mut r, m)).collect();
                    let (col, row) = if r.chance(1, 2) { (long, short) } else { (short, long) };
                    let (w, h) = (col.len() as u32, row.len() as u32);
                    measure(c, call("print_nonogram", json!({"columns": col, "rows": row}), || ok(print_nonogram(w, h, &col, &row))));
                }
                0 | 1 => {
                    let (w, h) = *r.pick(edges);
                    measure(c, call("create_maze", json!([w, h]), || {
                        let _ = create_maze(w, h, MazeAlgorithm::RecursiveBacktrack);
                        "result"
                    }));
                }
                2 => {
                    let (w, h) = *r.pick(crate::maze::edge_sizes(4_200));
                    let Ok((nodes, dirs)) = guard(|| create_maze(w, h, MazeAlgorithm::RecursiveBacktrack)) else { return };
                    measure(c, call("print_maze", json!([w, h]), || ok(print_maze(w as u32, h as u32, &nodes))));
                    let Ok(Ok(img)) = guard(|| print_maze(w as u32, h as u32, &nodes)) else { return };
                    measure(c, call("print_maze_solution", json!([w, h]), || ok(print_maze_solution(img.clone(), &dirs))));
                    measure(c, call("image_to_png_bytes", json!([w * 10, h * 10]), || ok(image_to_png_bytes(&img))));
                }
                3 => {
                    let (w, h) = (r.range(10, 24), r.range(10, 24));
                    let g = nono::random_grid(&mut r, w, h);
                    let (col, row) = nono::rules_of(w, h, &g);
                    measure(c, call("print_nonogram", json!([w, h]), || ok(print_nonogram(w as u32, h as u32, &col, &row))));
                    let Ok(Ok(img)) = nono::draw_puzzle(w, h, &col, &row) else { return };
                    measure(c, call("print_nonogram_solution", json!([w, h]), || {
                        ok(print_nonogram_solution(w as u32, h as u32, img.clone(), &g))
                    }));
                }
                4 | 5 => {
                    let n = r.range(100, 20_000);
                    let mut s: String = (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect();
                    if r.chance(1, 2) {
                        s.push('x');
                    }
                    measure(c, call("parse_sudoku", json!({"length": n}), || ok(parse_sudoku(&s))));
                }
                _ => {
                    let n = r.range(50, 3_000);
                    let mut s = (0..n).map(|_| r.below(9).to_string() + *r.pick(&[",", ";"])).collect::<String>() + "1";
                    if r.chance(1, 3) {
                        s.push('x');
                    }
                    let bound = if r.chance(3, 4) { usize::MAX } else { r.below(400) };
                    measure(c, call("parse_nonogram_rules", json!({"items": n, "bound": bound}), || ok(parse_nonogram_rules(&s, bound))));
                }
            }
        }
        _ => {
            #[cfg(feature = "hooks")]
            {
                let max = *r.pick(&[5, 9, 14]);
                let h = if r.chance(1, 12) { crate::cover::deep_history(&mut r) } else if r.chance(1, 60) { let k = r.below(500); crate::cover::large_history(&mut r, k).0 } else { crate::cover::random_history(&mut r, max) };
                hash = r.next();
                measure(c, call("exact cover history", h.show(), || {
                    let run = crate::cover::run(&h);
                    match run.answer {
                        None => "drop midway",
                        Some(Ok(_)) => "solution",
                        Some(Err(_)) => "no solution",
                    }
                }));
            }
            #[cfg(not(feature = "hooks"))]
            return;
        }
    }
    c.eval(Some(hash ^ mix(op as u64)));
}

const MARATHONS: u64 = 24;

/// Calls with inputs or results of megabytes, which may take other ways than small ones.
const BIG: u64 = 24;

fn big_case(c: &mut Ctx, k: u64) {
    let mut r = c.rng("big");
    match k {
        0..=9 => {
            let (w, h) = [(600, 600), (1000, 1000), (1500, 1400), (2000, 2000), (3000, 2500), (4200, 4000), (40_000, 100), (100, 40_000), (200_000, 20), (9, 300_000)][k as usize];
            let mut img = RgbImage::from_pixel(w, h, Rgb([255; 3]));
            let n = if k % 3 == 0 { (w * h) as usize } else { *r.pick(&[0, 500, w as usize * 20]) };
            for _ in 0..n {
                img.put_pixel(r.below(w as usize) as u32, r.below(h as usize) as u32, Rgb([r.next() as u8, 0, 9]));
            }
            measure(c, call("image_to_png_bytes", json!([w, h]), || ok(image_to_png_bytes(&img))));
        }
        10..=15 => {
            let (w, h) = [(300, 300), (700, 500), (30_000, 7), (5, 40_000), (1, 100_000), (150_000, 1)][k as usize - 10];
            measure(c, call("create_maze", json!([w, h]), || {
                let _ = create_maze(w, h, MazeAlgorithm::RecursiveBacktrack);
                "result"
            }));
            let Ok((nodes, mut dirs)) = guard(|| create_maze(w, h, MazeAlgorithm::RecursiveBacktrack)) else { return };
            measure(c, call("print_maze", json!([w, h]), || ok(print_maze(w as u32, h as u32, &nodes))));
            measure(c, call("print_maze", json!([w + 1, h]), || ok(print_maze(w as u32 + 1, h as u32, &nodes))));
            let Ok(Ok(img)) = guard(|| print_maze(w as u32, h as u32, &nodes)) else { return };
            measure(c, call("print_maze_solution", json!([w, h]), || ok(print_maze_solution(img.clone(), &dirs))));
            dirs.insert(0, MazeDirection::Down);
            measure(c, call("print_maze_solution", json!([w, h]), || ok(print_maze_solution(img.clone(), &dirs))));
            measure(c, call("serialization", json!([w, h]), || {
                let text = serde_json::to_string(&(&nodes, &dirs)).unwrap_or_default();
                ok(serde_json::from_str::<(Vec<MazeNode>, Vec<MazeDirection>)>(&text))
            }));
        }
        16..=19 => {
            let (w, h) = [(70, 60), (150, 4), (3, 250), (110, 110)][k as usize - 16];
            let g = nono::random_grid(&mut r, w, h);
            let (col, row) = nono::rules_of(w, h, &g);
            measure(c, call("print_nonogram", json!([w, h]), || ok(print_nonogram(w as u32, h as u32, &col, &row))));
            let Ok(Ok(img)) = nono::draw_puzzle(w, h, &col, &row) else { return };
            measure(c, call("print_nonogram_solution", json!([w, h]), || ok(print_nonogram_solution(w as u32, h as u32, img.clone(), &g))));
            measure(c, call("print_nonogram_solution", json!([w, h + 1]), || ok(print_nonogram_solution(w as u32, h as u32 + 1, img.clone(), &g))));
            measure(c, call("image_to_png_bytes", json!([w, h]), || ok(image_to_png_bytes(&img))));
        }
        20 | 21 => {
            // Long lines that line logic settles.
            let n = [150, 400][k as usize - 20];
            let long = vec![vec![n], vec![n - 1], vec![1; n / 2]];
            let short: Vec<Vec<usize>> = (0..n).map(|i| if i + 1 < n && i % 2 == 0 { vec![3] } else { vec![2] }).collect();
            let (col, row) = if k == 20 { (long, short) } else { (short, long) };
            measure(c, call("solve_nonogram", json!({"columns": col, "rows": row}), || ok(solve_nonogram(&col, &row))));
        }
        22 => {
            let text: String = (0..3_000_000).map(|_| (b'0' + r.below(10) as u8) as char).collect();
            measure(c, call("parse_sudoku", json!({"length": text.len()}), || ok(parse_sudoku(&text))));
            let list = vec![3u8; 3_000_000];
            measure(c, call("solve_sudoku", json!({"length": list.len()}), || ok(solve_sudoku(&list))));
            measure(c, call("print_sudoku", json!({"length": list.len()}), || ok(print_sudoku(&list))));
        }
        _ => {
            let text: String = (0..400_000).map(|_| r.below(9).to_string() + *r.pick(&[",", ";"])).collect::<String>() + "1";
            measure(c, call("parse_nonogram_rules", json!({"bytes": text.len()}), || ok(parse_nonogram_rules(&text, usize::MAX))));
            let text = text + &"x".repeat(2_000_000);
            measure(c, call("parse_nonogram_rules", json!({"bytes": text.len()}), || ok(parse_nonogram_rules(&text, usize::MAX))));
        }
    }
    c.count("calls with megabytes");
    c.eval(Some(mix(c.idx)));
}

/// One operation again and again with ever new inputs: what single calls keep only now and then
/// (a list that grows by doubling, a table that fills) adds up.
fn marathon(c: &mut Ctx) {
    let mut r = c.rng("marathon");
    let op = c.idx % 20;
    let reps = [20_000, 20_000, 20_000, 20_000, 600, 1_500, 20_000, 8_000, 1_500, 1_500, 8_000, 8_000, 150, 300, 1_000, 60, 5_000, 5_000, 1_500, 1_000][op as usize];
    let mut name = "";
    let mut held = Vec::with_capacity(8);
    for _ in 0..5 {
        let before = alloc::snapshot();
        for _ in 0..reps {
            name = guard(|| marathon_call(&mut r, op)).unwrap_or("a call that panicked");
        }
        let after = alloc::snapshot();
        held.push((after.0 - before.0, after.1 - before.1));
    }
    // The first part may set things up.
    if held[1..].iter().filter(|h| h.0 > 0 || h.1 > 0).count() >= 2 {
        c.violate(
            format!("{name}: the heap keeps growing over {} calls, by parts: {held:?} (bytes, blocks)", 5 * reps),
            json!({"marathon": name, "calls": 5 * reps}),
        );
    }
    c.add("calls in marathons", 5 * reps);
    c.eval(Some(c.idx));
}

fn marathon_call(r: &mut Rng, op: u64) -> &'static str {
    let text = |r: &mut Rng, n: usize| -> String { (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect() };
    let rules = |r: &mut Rng| (0..r.range(1, 9)).map(|_| r.below(12).to_string()).collect::<Vec<_>>().join(if r.chance(1, 2) { "," } else { ";" });
    let puzzle = |r: &mut Rng| {
        let mut p = sudoku::solved_grid(r);
        for _ in 0..r.range(1, 12) {
            p[r.below(81)] = 0;
        }
        p
    };
    match op {
        0 => {
            let _ = parse_sudoku(&text(r, 81));
            "parse_sudoku"
        }
        1 => {
            let n = r.below(90);
            let mut s = text(r, n);
            s.push(*r.pick(&['x', 'é', '٣', '4']));
            let _ = parse_sudoku(&s);
            "parse_sudoku of bad texts"
        }
        2 => {
            let _ = parse_nonogram_rules(&rules(r), usize::MAX);
            "parse_nonogram_rules"
        }
        3 => {
            let s = rules(r) + *r.pick(&["x", ",", ";", "-1"]);
            let _ = parse_nonogram_rules(&s, r.below(9));
            "parse_nonogram_rules of bad texts"
        }
        4 => {
            let _ = solve_sudoku(&puzzle(r));
            "solve_sudoku"
        }
        5 => {
            let mut p = puzzle(r);
            let (a, b) = (r.below(81), r.below(81));
            p[a] = p[b];
            let _ = solve_sudoku(&p);
            "solve_sudoku of clashing givens"
        }
        6 => {
            let mut p = vec![0; r.below(200)];
            if p.len() == 81 {
                p[r.below(81)] = 10 + r.below(200) as u8;
            }
            let _ = solve_sudoku(&p);
            if p.len() != 81 {
                let _ = print_sudoku(&p);
            }
            "solve_sudoku and print_sudoku of malformed lists"
        }
        7 => {
            let _ = create_maze(r.range(1, 7), r.range(1, 7), MazeAlgorithm::RecursiveBacktrack);
            "create_maze"
        }
        8 | 9 => {
            let (w, h) = (r.range(1, 5), r.range(1, 5));
            let (n, mut d) = create_maze(w, h, MazeAlgorithm::RecursiveBacktrack);
            let _ = print_maze(w as u32 + 1, h as u32, &n);
            if r.chance(1, 2) {
                d.push(MazeDirection::Up);
            }
            let _ = print_maze(w as u32, h as u32, &n).map(|i| print_maze_solution(i, &d));
            "print_maze and print_maze_solution"
        }
        10 => {
            let (w, h) = (r.range(1, 4), r.range(1, 4));
            let g = nono::random_grid(r, w, h);
            let (col, row) = nono::rules_of(w, h, &g);
            let _ = solve_nonogram(&col, &row);
            "solve_nonogram"
        }
        11 => {
            let (w, h) = (r.below(4), r.below(4));
            let mut side = |n: usize| -> Vec<Vec<usize>> { (0..n).map(|_| (0..r.below(3)).map(|_| r.below(4)).collect()).collect() };
            let (col, row) = (side(w), side(h));
            let _ = solve_nonogram(&col, &row);
            "solve_nonogram of random rules"
        }
        12 | 13 => {
            let (w, h) = (r.range(1, 3), r.range(1, 3));
            let g = nono::random_grid(r, w, h);
            let (col, row) = nono::rules_of(w, h, &g);
            let _ = print_nonogram(w as u32 + 1, h as u32, &col, &row);
            let _ = print_nonogram(w as u32, h as u32, &col, &row).map(|i| print_nonogram_solution(w as u32 + r.below(2) as u32, h as u32, i, &g));
            "print_nonogram and print_nonogram_solution"
        }
        14 => {
            let img = RgbImage::from_pixel(r.below(12) as u32, r.below(12) as u32, Rgb([r.next() as u8; 3]));
            let _ = image_to_png_bytes(&img);
            "image_to_png_bytes"
        }
        15 => {
            let _ = print_sudoku(&puzzle(r));
            "print_sudoku"
        }
        16 => {
            let (n, d) = create_maze(r.range(1, 4), r.range(1, 4), MazeAlgorithm::RecursiveBacktrack);
            let t = serde_json::to_string(&(&n, &d)).unwrap_or_default();
            let t = if r.chance(1, 3) { &t[..r.below(t.len() + 1)] } else { &t };
            let _ = serde_json::from_str::<(Vec<MazeNode>, Vec<MazeDirection>)>(t);
            "serialization"
        }
        #[cfg(feature = "hooks")]
        17 => {
            let _ = crate::cover::run(&crate::cover::random_history(r, 8));
            "exact cover histories"
        }
        #[cfg(feature = "hooks")]
        18 => {
            let mut s = puzzle_utils::verif_hooks::DisjointSet::with_size(r.range(0, 9));
            for _ in 0..r.below(12) {
                match r.below(4) {
                    0 => s.add(),
                    1 => drop(s.find(r.below(12))),
                    2 => drop(s.common_set(r.below(12), r.below(12))),
                    _ => drop(s.union(r.below(12), r.below(12))),
                }
            }
            let mut v: Vec<String> = (0..r.below(6)).map(|i| i.to_string()).collect();
            while puzzle_utils::verif_hooks::choose_random(&mut v).is_some() {}
            "disjoint sets and random choices"
        }
        _ => {
            let k = r.below(17) as u64;
            let mut other = Rng::new(r.next());
            let _ = std::thread::scope(|s| s.spawn(|| marathon_call(&mut other, if k == 15 { 0 } else { k })).join());
            "calls in short-lived threads"
        }
    }
}

/// Lets every operation set up whatever it keeps for good.
fn warm_up() {
    for _ in 0..3 {
        let _ = guard(|| {
            let _ = solve_sudoku(&[0; 81]);
            let _ = solve_sudoku(&[1; 81]);
            let _ = solve_sudoku(&[]);
            let _ = parse_sudoku("1");
            let _ = parse_sudoku("x");
            let _ = print_sudoku(&[5; 81]).map(|i| image_to_png_bytes(&i));
            let (n, d) = create_maze(3, 3, MazeAlgorithm::RecursiveBacktrack);
            let _ = print_maze(3, 3, &n).map(|i| print_maze_solution(i, &d));
            let _ = print_maze(4, 3, &n);
            let _ = parse_nonogram_rules("1;2", 3);
            let _ = parse_nonogram_rules("1;x", 3);
            let _ = solve_nonogram(&[vec![1], vec![1]], &[vec![1], vec![1]]);
            let _ = solve_nonogram(&[vec![1]], &[vec![]]);
            let _ = print_nonogram(1, 1, &[vec![1]], &[vec![1]]).map(|i| print_nonogram_solution(1, 1, i, &[true]));
        });
    }
}

// ---------------------------------------------------------------- D02
fn sanitized_case(c: &mut Ctx) {
    let mut r = c.rng("sanitized");
    if c.idx % 3 == 0 {
        let (p, kind) = sudoku::random_puzzle(&mut r, (c.idx / 3 % sudoku::KINDS as u64) as usize);
        let mut p = p.to_vec();
        if r.chance(1, 20) {
            p[r.below(81)] = r.range(10, 255) as u8;
        }
        let mut q = [0u8; 81];
        q.iter_mut().zip(&p).for_each(|(a, b)| *a = b % 10);
        if !sudoku::reference(&q, 1, 5_000, None).complete {
            c.unjudged += 1;
            return;
        }
        let got = guard(|| solve_sudoku(&p).is_ok());
        c.count(&format!("sudoku, {kind}"));
        c.count(match got {
            Ok(true) => "solved",
            Ok(false) => "refused or no solution",
            Err(_) => "panicked (not judged here)",
        });
        c.eval(Some(hash_bytes(&p)));
        if c.idx % 997 == 9 {
            c.sample(|| json!({"puzzle": p}));
        }
    } else {
        engine(c, &mut r, 18);
    }
}

fn engine(c: &mut Ctx, r: &mut Rng, max: usize) {
    #[cfg(feature = "hooks")]
    {
        let h = if max > 10 && r.chance(1, 10) { crate::cover::deep_history(r) } else if max > 10 && r.chance(1, 150) { let k = r.below(500); crate::cover::large_history(r, k).0 } else { crate::cover::random_history(r, max) };
        let got = guard(|| crate::cover::run(&h));
        c.count("constraint systems");
        match got {
            Err(_) => c.count("panicked (not judged here)"),
            Ok(g) => {
                c.add("preselections accepted", g.selected.iter().filter(|s| s.is_ok()).count() as u64);
                c.add("preselections refused", g.selected.iter().filter(|s| s.is_err()).count() as u64);
                c.count(match g.answer {
                    None => "dropped without solving",
                    Some(Ok(_)) => "solved",
                    Some(Err(_)) => "refused or no solution",
                });
            }
        }
        c.eval(Some(hash_bytes(h.show().to_string().as_bytes())));
    }
    #[cfg(not(feature = "hooks"))]
    {
        // Without the engine: clashing and incomplete puzzles, many per case.
        let mut p = [0u8; 81];
        for _ in 0..r.range(0, max) {
            p[r.below(81)] = r.range(1, 9) as u8;
        }
        if max > 10 && !sudoku::reference(&p, 1, 5_000, None).complete {
            return;
        }
        let _ = guard(|| solve_sudoku(&p).is_ok());
        c.count("sparse sudoku");
        c.eval(Some(hash_bytes(&p)));
    }
}

/// Small enough for an interpreter: tiny systems, and puzzles decided with little search.
fn interpreted_case(c: &mut Ctx) {
    let mut r = c.rng("interpreted");
    if c.idx % 40 != 7 {
        let max = *r.pick(&[3, 5, 7]);
        engine(c, &mut r, max);
        return;
    }
    // A full grid by formula, with a few blanks, clashes or bad values.
    let shift = r.below(9);
    let mut p = [0u8; 81];
    for i in 0..81 {
        let (y, x) = (i / 9, i % 9);
        p[i] = ((x + 3 * y + y / 3 + shift) % 9) as u8 + 1;
    }
    let kind = c.idx / 40 % 4;
    for _ in 0..r.range(1, 8) {
        p[r.below(81)] = 0;
    }
    match kind {
        0 => (),
        1 => {
            let (a, b) = (r.below(9), r.below(9));
            p[a * 9] = p[(b * 9) % 81];
        }
        2 => {
            let k = r.below(81);
            p = [0; 81];
            p[k] = 5;
            p[(k + 1) % 81] = 5;
            p[(k + 9) % 81] = 5;
        }
        _ => p[r.below(81)] = r.range(10, 255) as u8,
    }
    let _ = guard(|| solve_sudoku(&p).is_ok());
    c.count("sudoku in the interpreter");
    c.eval(Some(hash_bytes(&p)));
}
