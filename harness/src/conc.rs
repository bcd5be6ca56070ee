//! X01: calls do not depend on history, order or other threads.
//!
//! The expected result of every call is computed in a process of its own that has made no other
//! call. The histories then run in a further fresh process: shuffled on one thread, and on several
//! threads at once, where every call records its start and end.
use crate::rt::*;
use crate::{maze, nono, sudoku, Prop};
use image::{Rgb, RgbImage};
use puzzle_utils::*;
use serde_json::{json, Value};
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::Barrier;
use std::time::Instant;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "X01",
            plan: |t| MARATHONS + VARIETIES * if t { 8 } else { 1 } + pairs().len() as u64 * if t { 6 } else { 1 } + if t { 6_000 } else { 240 },
            case: |c| {
                let hammers = pairs().len() as u64 * if c.thorough { 6 } else { 1 };
                let varieties = VARIETIES * if c.thorough { 8 } else { 1 };
                if c.idx < MARATHONS {
                    marathon_case(c)
                } else if c.idx < MARATHONS + varieties {
                    variety_case(c)
                } else if c.idx < MARATHONS + varieties + hammers {
                    hammer_case(c)
                } else {
                    isolated_case(c)
                }
            },
        },
        // The same histories for ThreadSanitizer: no extra processes.
        Prop { id: "X01T", plan: |t| if t { 1_500 } else { 64 }, case: race_case },
    ]
}

#[derive(Clone)]
enum Op {
    ParseSudoku(String),
    SolveSudoku(Vec<u8>),
    PrintSudoku(Vec<u8>),
    ParseRules(String, usize),
    SolveNonogram(nono::Rules, nono::Rules),
    PrintNonogram(u32, u32, nono::Rules, nono::Rules),
    PrintNonogramSolution(u32, u32, RgbImage, Vec<bool>),
    Png(RgbImage),
    PrintMaze(u32, u32, Vec<MazeNode>),
    PrintMazeSolution(RgbImage, Vec<char>),
    CreateMaze(usize, usize),
    /// A maze without cells: what comes of it is not judged, only what it leaves behind.
    NoMaze(usize, usize),
}

impl Op {
    fn name(&self) -> &'static str {
        match self {
            Op::ParseSudoku(_) => "parse_sudoku",
            Op::SolveSudoku(_) => "solve_sudoku",
            Op::PrintSudoku(_) => "print_sudoku",
            Op::ParseRules(..) => "parse_nonogram_rules",
            Op::SolveNonogram(..) => "solve_nonogram",
            Op::PrintNonogram(..) => "print_nonogram",
            Op::PrintNonogramSolution(..) => "print_nonogram_solution",
            Op::Png(_) => "image_to_png_bytes",
            Op::PrintMaze(..) => "print_maze",
            Op::PrintMazeSolution(..) => "print_maze_solution",
            Op::CreateMaze(..) => "create_maze",
            Op::NoMaze(..) => "create_maze without cells",
        }
    }
    fn show(&self) -> Value {
        match self {
            Op::ParseSudoku(s) => json!([self.name(), s]),
            Op::SolveSudoku(p) | Op::PrintSudoku(p) => json!([self.name(), p]),
            Op::ParseRules(s, b) => json!([self.name(), s, b]),
            Op::SolveNonogram(a, b) => json!([self.name(), a, b]),
            Op::PrintNonogram(w, h, a, b) => json!([self.name(), w, h, a, b]),
            Op::PrintNonogramSolution(w, h, i, g) => json!([self.name(), w, h, [i.width(), i.height()], g]),
            Op::Png(i) | Op::PrintMazeSolution(i, _) => json!([self.name(), [i.width(), i.height()]]),
            Op::PrintMaze(w, h, n) => json!([self.name(), w, h, n.len()]),
            Op::CreateMaze(w, h) | Op::NoMaze(w, h) => json!([self.name(), w, h]),
        }
    }
    /// The call with its inputs moved to places that earlier calls have used.
    fn run_from(&self, hand: &mut Hand) -> Result<u64, String> {
        // Only the places of the inputs change, so one place serves as the call's own copy.
        let slot = hand.slots.entry(self.name()).or_insert_with(|| self.clone());
        match (&mut *slot, self) {
            (Op::ParseSudoku(a), Op::ParseSudoku(b)) => a.clone_from(b),
            (Op::SolveSudoku(a), Op::SolveSudoku(b)) | (Op::PrintSudoku(a), Op::PrintSudoku(b)) => a.clone_from(b),
            (Op::ParseRules(a, n), Op::ParseRules(b, m)) => {
                a.clone_from(b);
                *n = *m;
            }
            (Op::SolveNonogram(a, x), Op::SolveNonogram(b, y)) => {
                a.clone_from(b);
                x.clone_from(y);
            }
            (Op::PrintNonogram(w, h, a, x), Op::PrintNonogram(v, g, b, y)) => {
                (*w, *h) = (*v, *g);
                a.clone_from(b);
                x.clone_from(y);
            }
            (Op::Png(a), Op::Png(b)) if a.dimensions() == b.dimensions() => a.copy_from_slice(b),
            (Op::PrintMaze(w, h, a), Op::PrintMaze(v, g, b)) => {
                (*w, *h) = (*v, *g);
                a.clone_from(b);
            }
            (a, b) => a.clone_from(b),
        }
        slot.run()
    }
    /// Hash of the result; for mazes, of its being a correct maze.
    fn run(&self) -> Result<u64, String> {
        let picture = |i: &RgbImage| hash_bytes(i.as_raw()) ^ mix(u64::from(i.width()));
        let text = |s: String| hash_bytes(s.as_bytes());
        guard(|| match self {
            Op::ParseSudoku(s) => text(format!("{:?}", parse_sudoku(s))),
            Op::SolveSudoku(p) => text(format!("{:?}", solve_sudoku(p))),
            Op::PrintSudoku(p) => match print_sudoku(p) {
                Ok(i) => picture(&i),
                Err(e) => text(format!("{e:?}")),
            },
            Op::ParseRules(s, b) => text(format!("{:?}", parse_nonogram_rules(s, *b))),
            Op::SolveNonogram(a, b) => text(format!("{:?}", solve_nonogram(a, b))),
            Op::PrintNonogram(w, h, a, b) => match print_nonogram(*w, *h, a, b) {
                Ok(i) => picture(&i),
                Err(e) => text(format!("{e:?}")),
            },
            Op::PrintNonogramSolution(w, h, i, g) => match print_nonogram_solution(*w, *h, i.clone(), g) {
                Ok(i) => picture(&i),
                Err(e) => text(format!("{e:?}")),
            },
            Op::Png(i) => match image_to_png_bytes(i) {
                Ok(b) => hash_bytes(&b),
                Err(e) => text(format!("{e:?}")),
            },
            Op::PrintMaze(w, h, n) => match print_maze(*w, *h, n) {
                Ok(i) => picture(&i),
                Err(e) => text(format!("{e:?}")),
            },
            Op::PrintMazeSolution(i, d) => {
                let dirs: Vec<MazeDirection> = d.iter().map(|&c| maze::direction(c)).collect();
                match print_maze_solution(i.clone(), &dirs) {
                    Ok(i) => picture(&i),
                    Err(e) => text(format!("{e:?}")),
                }
            }
            Op::NoMaze(w, h) => {
                let _ = guard(|| create_maze(*w, *h, MazeAlgorithm::RecursiveBacktrack).0.len());
                2
            }
            Op::CreateMaze(w, h) => {
                let m = match maze::generate_here(*w, *h) {
                    Ok(m) => m,
                    Err(e) => return text(e),
                };
                match maze::perfect(&m).and_then(|()| maze::solution_walks(&m)) {
                    Ok(()) => 1,
                    Err(e) => text(e),
                }
            }
        })
    }
}

/// The places that successive calls take their inputs from.
#[derive(Default)]
struct Hand {
    slots: std::collections::HashMap<&'static str, Op>,
}

/// A pool of calls in families of near-equal inputs: state kept from one call would fit the next.
fn pool(r: &mut Rng, light: bool) -> Vec<Op> {
    let mut v = Vec::new();
    let g = sudoku::solved_grid(r);
    let clues = r.range(30, 60);
    let mut p = g.to_vec();
    for _ in 0..81 - clues {
        p[r.below(81)] = 0;
    }
    v.push(Op::SolveSudoku(p.clone()));
    // The same clues with two digits exchanged: same pattern, other solution.
    let (a, b) = (r.range(1, 9) as u8, r.range(1, 9) as u8);
    let swap = |x: u8| if x == a { b } else if x == b { a } else { x };
    v.push(Op::SolveSudoku(p.iter().map(|&x| swap(x)).collect()));
    // One clue fewer, one clue changed, a clash, a bad value, a wrong length.
    let at = (0..81).find(|&i| p[i] != 0).unwrap_or(0);
    for change in 0..5 {
        let mut q = p.clone();
        match change {
            0 => q[at] = 0,
            1 => {
                let last = (0..81).rev().find(|&i| p[i] == 0).unwrap_or(80);
                q[last] = r.range(1, 9) as u8;
            }
            2 => {
                q[at] = 1 + (q[at] % 9);
            }
            3 => q[80] = 10 + r.below(200) as u8,
            _ => q.truncate(80),
        }
        if sudoku_easy(&q) {
            v.push(Op::SolveSudoku(q));
        }
    }
    // The same digits at other places, and other digits with the same sums and weighted sums.
    let turned: Vec<u8> = (0..81).map(|i| p[i % 9 * 9 + i / 9]).collect();
    let mut level = p.clone();
    let mut twin = turned.clone();
    for q in [&mut level, &mut twin] {
        for _ in 0..200 {
            let d = r.range(1, 26);
            let m = r.range(d, 80 - d);
            let up = r.chance(1, 2);
            let (ends, middle) = if up { (1i8, -2i8) } else { (-1, 2) };
            let new = [(m - d, ends), (m, middle), (m + d, ends)].map(|(i, k)| (i, q[i] as i8 + k));
            if new.iter().all(|&(_, x)| (0..=9).contains(&x)) {
                new.iter().for_each(|&(i, x)| q[i] = x as u8);
                break;
            }
        }
    }
    for q in [&turned, &level, &twin] {
        if sudoku_easy(q) {
            v.push(Op::SolveSudoku(q.clone()));
        }
    }
    let mut text: String = p.iter().map(|x| (b'0' + x) as char).collect();
    v.push(Op::ParseSudoku(text.clone()));
    v.push(Op::ParseSudoku(text.chars().rev().collect()));
    v.push(Op::ParseSudoku(level.iter().map(|x| (b'0' + x) as char).collect()));
    text.replace_range(40..41, "x");
    v.push(Op::ParseSudoku(text.clone()));
    text.truncate(39);
    v.push(Op::ParseSudoku(text));
    if !light {
        v.push(Op::PrintSudoku(p.clone()));
        let mut q = p.clone();
        q[r.below(81)] = r.below(10) as u8;
        v.push(Op::PrintSudoku(q));
        v.push(Op::PrintSudoku(level));
        v.push(Op::PrintSudoku(turned));
        v.push(Op::PrintSudoku(twin));
        v.push(Op::PrintSudoku(vec![0; 80]));
    }

    // Nonograms sharing columns, rows or totals.
    let (w, h) = (r.range(2, 6), r.range(2, 6));
    let grid = nono::random_grid(r, w, h);
    let (col, row) = nono::rules_of(w, h, &grid);
    let mut other = row.clone();
    other.rotate_left(1);
    let mut upside = col.clone();
    upside.reverse();
    for (a, b) in [(col.clone(), row.clone()), (col.clone(), other), (upside, row.clone()), (row.clone(), col.clone())] {
        if nono::effort(&a, &b, 100).is_some() {
            v.push(Op::SolveNonogram(a, b));
        }
    }
    v.push(Op::SolveNonogram(vec![vec![1]; 4], vec![vec![1]; 4]));
    v.push(Op::SolveNonogram(vec![], row.clone()));
    v.push(Op::SolveNonogram(vec![vec![usize::MAX]; w], row.clone()));
    let join = |l: &nono::Rules| l.iter().map(|v| v.iter().map(|n| n.to_string()).collect::<Vec<_>>().join(",")).collect::<Vec<_>>().join(";");
    v.push(Op::ParseRules(join(&col), h));
    v.push(Op::ParseRules(join(&col), 1));
    v.push(Op::ParseRules(format!("{};z", join(&row)), w));
    v.push(Op::PrintNonogram(w as u32, h as u32, col.clone(), row.clone()));
    v.push(Op::PrintNonogram(h as u32, w as u32, row.clone(), col.clone()));
    v.push(Op::PrintNonogram(w as u32 + 1, h as u32, col.clone(), row.clone()));
    let size = ((w * 50 + nono::margin(w)) as u32, (h * 50 + nono::margin(h)) as u32);
    let base = RgbImage::from_pixel(size.0, size.1, Rgb([200, 210, 220]));
    v.push(Op::PrintNonogramSolution(w as u32, h as u32, base.clone(), grid.clone()));
    v.push(Op::PrintNonogramSolution(w as u32, h as u32, base.clone(), grid.iter().map(|b| !b).collect()));
    let mut mirrored = grid.clone();
    mirrored.reverse();
    v.push(Op::PrintNonogramSolution(w as u32, h as u32, base.clone(), mirrored));
    v.push(Op::PrintNonogramSolution(w as u32, h as u32, base.clone(), grid[1..].to_vec()));

    // PNG: same size and other content, same content and other shape, nothing at all.
    let n = r.range(2, 30) as u32;
    let mut noise = RgbImage::new(2 * n, n);
    noise.pixels_mut().for_each(|p| *p = Rgb([r.next() as u8, r.next() as u8, r.next() as u8]));
    v.push(Op::Png(noise.clone()));
    v.push(Op::Png(RgbImage::from_raw(n, 2 * n, noise.as_raw().clone()).expect("same bytes")));
    let mut flipped = noise.clone();
    flipped.put_pixel(0, 0, Rgb([1, 2, 3]));
    v.push(Op::Png(flipped));
    // The same bytes in another order.
    let mut bytes = noise.into_raw();
    bytes.reverse();
    v.push(Op::Png(RgbImage::from_raw(2 * n, n, bytes).expect("same bytes")));
    v.push(Op::Png(RgbImage::new(0, 5)));

    // Mazes built without the library, so that nothing is called before its time.
    let (w, h) = (r.range(2, 9), r.range(2, 9));
    for k in 0..2 {
        let mut cells: Vec<maze::Cell> = (0..w * h).map(|i| maze::Cell { right: i % w == w - 1, down: i / w + 1 == h || i % w != 0 }).collect();
        cells[(h - 1) * w + if k == 0 { w - 1 } else { 0 }].down = false;
        if let Ok(nodes) = maze::nodes_of(&cells) {
            v.push(Op::PrintMaze(w as u32, h as u32, nodes.clone()));
            v.push(Op::PrintMaze(h as u32 + 1, w as u32, nodes));
        }
    }
    v.push(Op::CreateMaze(w, h));
    v.push(Op::CreateMaze(h, w));
    v.push(Op::CreateMaze(1, 7));
    v.push(Op::CreateMaze(17, 13));
    v.push(Op::NoMaze(0, h));
    v.push(Op::NoMaze(w, 0));
    let canvas = RgbImage::from_pixel(w as u32 * 10 + 1, h as u32 * 10 + 1, Rgb([255; 3]));
    let down: Vec<char> = vec!['D'; h - 1];
    v.push(Op::PrintMazeSolution(canvas.clone(), down.clone()));
    v.push(Op::PrintMazeSolution(canvas, vec!['U'; h + 1]));
    v
}

fn sudoku_easy(p: &[u8]) -> bool {
    if p.len() != 81 || p.iter().any(|&v| v > 9) {
        return true;
    }
    let mut g = [0u8; 81];
    g.copy_from_slice(p);
    sudoku::reference(&g, 1, 5_000, None).complete
}

// ---------------------------------------------------------------- processes
extern "C" {
    fn fork() -> i32;
    fn _exit(code: i32) -> !;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
}

enum Ended {
    Data(Vec<u8>),
    /// Ended by a signal or with a code.
    Died(i32),
    /// Every thread slept without using the processor for the whole grace period, or the process
    /// used three minutes of processor time on what takes well under a second.
    Stuck,
}

/// Runs `f` in a process of its own that starts from this one's state.
fn in_child(thorough: bool, f: impl FnOnce() -> Vec<u8>) -> Ended {
    use std::io::{Read, Write};
    use std::os::fd::AsRawFd;
    let (mut rx, mut tx) = std::os::unix::net::UnixStream::pair().expect("harness: socket pair");
    let pid = unsafe { fork() };
    if pid == 0 {
        drop(rx);
        let out = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        let code = match out {
            Ok(b) => {
                let ok = tx.write_all(&(b.len() as u64).to_le_bytes()).and_then(|()| tx.write_all(&b)).is_ok();
                i32::from(!ok)
            }
            Err(_) => 101,
        };
        let _ = tx.as_raw_fd();
        unsafe { _exit(code) }
    }
    assert!(pid > 0, "harness: fork");
    drop(tx);
    rx.set_read_timeout(Some(std::time::Duration::from_millis(500))).expect("harness: timeout");
    let mut data = Vec::new();
    let mut buf = [0u8; 65536];
    // Processor time in hundredths of a second, many times what any of these runs needs.
    let patience = if thorough { 18_000 } else { 6_000 };
    let mut quiet = 0;
    let mut last_cpu = 0;
    let mut stuck = false;
    loop {
        match rx.read(&mut buf) {
            Ok(0) => break,
            Ok(n) => {
                data.extend_from_slice(&buf[..n]);
                quiet = 0;
            }
            Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => {
                let (cpu, asleep) = activity(pid);
                quiet = if asleep && cpu == last_cpu { quiet + 1 } else { 0 };
                last_cpu = cpu;
                if quiet >= 50 || cpu > patience {
                    stuck = true;
                    unsafe { kill(pid, 9) };
                    break;
                }
            }
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => (),
            Err(_) => break,
        }
    }
    let mut status = 0;
    unsafe { waitpid(pid, &mut status, 0) };
    if stuck {
        return Ended::Stuck;
    }
    if status == 0 && data.len() >= 8 && data.len() - 8 == u64::from_le_bytes(data[..8].try_into().expect("8 bytes")) as usize {
        data.drain(..8);
        Ended::Data(data)
    } else {
        Ended::Died(status)
    }
}

/// (processor ticks used, every thread asleep) of a child process.
fn activity(pid: i32) -> (u64, bool) {
    let mut ticks = 0;
    let mut asleep = true;
    let Ok(dir) = std::fs::read_dir(format!("/proc/{pid}/task")) else { return (0, false) };
    for t in dir.flatten() {
        let Ok(s) = std::fs::read_to_string(t.path().join("stat")) else { continue };
        let Some(rest) = s.rsplit_once(") ").map(|x| x.1) else { continue };
        let f: Vec<&str> = rest.split(' ').collect();
        if f.first() != Some(&"S") {
            asleep = false;
        }
        ticks += f.get(11).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) + f.get(12).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    }
    (ticks, asleep)
}

// ---------------------------------------------------------------- histories
struct Event {
    thread: usize,
    op: usize,
    start: u64,
    end: u64,
    got: Result<u64, String>,
}

fn threads_run(ops: &[Op], threads: usize, per: usize, seed: u64) -> Vec<Event> {
    let barrier = Barrier::new(threads);
    let clock = Instant::now();
    let ticket = AtomicU64::new(0);
    let mut all = Vec::new();
    std::thread::scope(|s| {
        let handles: Vec<_> = (0..threads)
            .map(|t| {
                let (barrier, clock, ticket) = (&barrier, &clock, &ticket);
                std::thread::Builder::new()
                    .stack_size(2 << 20)
                    .spawn_scoped(s, move || {
                        let mut r = Rng::new(seed ^ mix(t as u64 + 1));
                        let mut out = Vec::with_capacity(per);
                        let focus = r.below(ops.len());
                        barrier.wait();
                        for k in 0..per {
                            // Half the time all threads work on neighbouring calls.
                            let op = if seed % 2 == 0 && k % 2 == 0 { (seed as usize % ops.len() + k / 2 + t % 2) % ops.len() } else if r.chance(1, 6) { focus } else { r.below(ops.len()) };
                            match r.below(6) {
                                0 => std::thread::yield_now(),
                                1 => (0..r.below(2000)).for_each(|_| std::hint::spin_loop()),
                                _ => (),
                            }
                            ticket.fetch_add(1, Relaxed);
                            let start = clock.elapsed().as_nanos() as u64;
                            let got = ops[op].run();
                            let end = clock.elapsed().as_nanos() as u64;
                            out.push(Event { thread: t, op, start, end, got });
                        }
                        out
                    })
                    .expect("harness: spawn")
            })
            .collect();
        for h in handles {
            all.extend(h.join().expect("harness: thread"));
        }
    });
    all.sort_by_key(|e| e.start);
    all
}

struct Report {
    faults: Vec<String>,
    single: u64,
    events: u64,
    overlaps: u64,
    order: u64,
}

fn history(ops: &[Op], expected: &[u64], threads: usize, per: usize, seed: u64) -> Report {
    let mut rep = Report { faults: vec![], single: 0, events: 0, overlaps: 0, order: 0 };
    let mut r = Rng::new(seed);
    let wrong = |op: usize, got: &Result<u64, String>| -> Option<String> {
        match got {
            Err(m) => Some(format!("{} {m}", ops[op].name())),
            Ok(h) if *h != expected[op] => Some(format!("{} gives another result", ops[op].name())),
            _ => None,
        }
    };
    // One thread: every call, in random orders, with immediate repetitions.
    let mut before: Vec<usize> = Vec::new();
    for round in 0..2 {
        let mut order: Vec<usize> = (0..ops.len()).collect();
        r.shuffle(&mut order);
        if round == 1 {
            let k = r.below(order.len());
            let op = order[k];
            order.insert(k, op);
        }
        for op in order {
            let got = ops[op].run();
            rep.single += 1;
            if let Some(w) = wrong(op, &got) {
                let trail: Vec<Value> = before.iter().rev().take(3).map(|&b| ops[b].show()).collect();
                rep.faults.push(format!(
                    "{w} on one thread than in a fresh process: {} after {} calls, the last being {}",
                    ops[op].show(),
                    before.len(),
                    json!(trail)
                ));
                return rep;
            }
            before.push(op);
        }
    }
    let events = threads_run(ops, threads, per, seed);
    rep.events = events.len() as u64;
    let mut order = Vec::new();
    for (k, e) in events.iter().enumerate() {
        order.push((e.thread as u8).wrapping_mul(31).wrapping_add(e.op as u8));
        let overlapping: Vec<&Event> = events[k + 1..].iter().take_while(|f| f.start < e.end).filter(|f| f.thread != e.thread).collect();
        rep.overlaps += overlapping.len() as u64;
        if let Some(w) = wrong(e.op, &e.got) {
            let with: Vec<&str> = overlapping.iter().take(6).map(|f| ops[f.op].name()).collect();
            rep.faults.push(format!("{w} on thread {} of {threads}: {} while {with:?} ran", e.thread, ops[e.op].show()));
        }
    }
    rep.order = hash_bytes(&order);
    rep
}

fn isolated_case(c: &mut Ctx) {
    let mut r = c.rng("histories");
    let ops = pool(&mut r, false);
    // Expected results, each from a process that makes this one call.
    let mut expected = Vec::with_capacity(ops.len());
    for op in &ops {
        match in_child(c.thorough, || match op.run() {
            Ok(h) => h.to_le_bytes().to_vec(),
            Err(m) => m.into_bytes(),
        }) {
            Ended::Data(d) if d.len() == 8 => expected.push(u64::from_le_bytes(d.try_into().expect("8 bytes"))),
            Ended::Data(m) => {
                c.violate(format!("alone in its process, {} {}", op.name(), String::from_utf8_lossy(&m)), op.show());
                return;
            }
            Ended::Died(s) => {
                c.violate(format!("alone in its process, {} ends it with status {s}", op.name()), op.show());
                return;
            }
            Ended::Stuck => {
                c.stop = true;
                c.violate(format!("alone in its process, {} never returns", op.name()), op.show());
                return;
            }
        }
        if matches!(op, Op::CreateMaze(..)) && expected.last() != Some(&1) {
            c.violate("create_maze gives a wrong maze", op.show());
            return;
        }
    }
    c.add("calls in a process of their own", ops.len() as u64);
    let threads = *r.pick(&[2, 3, 4, 8, 8]);
    let per = 160 / threads;
    let seed = r.next();
    let got = in_child(c.thorough, || {
        let rep = history(&ops, &expected, threads, per, seed);
        json!({"faults": rep.faults, "n": [rep.single, rep.events, rep.overlaps, rep.order]}).to_string().into_bytes()
    });
    let input = json!({"threads": threads, "calls per thread": per, "calls": ops.iter().map(|o| o.name()).collect::<Vec<_>>()});
    match got {
        Ended::Stuck => {
            c.stop = true;
            c.violate("concurrent calls block each other: all threads sleep, or none finishes", input.clone())
        }
        Ended::Died(s) => c.violate(format!("the history ends its process with status {s}"), input.clone()),
        Ended::Data(d) => {
            let v: Value = serde_json::from_slice(&d).expect("harness: report");
            for f in v["faults"].as_array().into_iter().flatten().take(2) {
                c.violate(f.as_str().unwrap_or("?"), input.clone());
            }
            let n = |k: usize| v["n"][k].as_u64().unwrap_or(0);
            c.add("calls on one thread", n(0));
            c.add("calls on several threads", n(1));
            c.add("overlapping pairs of calls", n(2));
            c.evals += n(0) + n(1);
            c.distinct.insert(n(3));
            c.count("distinct start orders of concurrent calls");
        }
    }
    if c.idx % 7 == 1 {
        c.sample(|| input);
    }
}

// ---------------------------------------------------------------- two operations in tight loops
const KINDS: usize = 13;

fn pairs() -> Vec<(usize, usize)> {
    (0..KINDS).flat_map(|a| (a..KINDS).map(move |b| (a, b))).collect()
}

/// The quickest call of each operation, so that calls meet as often as possible.
fn quickest(kind: usize, seed: u64) -> Op {
    let k = (seed % 9) as u8 + 1;
    match kind {
        0 => Op::ParseSudoku("0".repeat(80) + &k.to_string()),
        1 => {
            let mut r = Rng::new(seed);
            let mut g = sudoku::solved_grid(&mut r).to_vec();
            g[seed as usize % 81] = 0;
            Op::SolveSudoku(g)
        }
        2 => {
            let mut p = vec![0; 81];
            p[seed as usize % 81] = k;
            Op::PrintSudoku(p)
        }
        3 => Op::ParseRules(format!("{k};1,1"), 9),
        4 => Op::SolveNonogram(vec![vec![1], vec![1]], vec![vec![1], vec![1]]),
        5 => Op::PrintNonogram(1, 1, vec![vec![1]], vec![vec![1]]),
        6 => Op::PrintNonogramSolution(1, 1, RgbImage::from_pixel(200, 200, Rgb([k, 255, 255])), vec![true]),
        7 => Op::Png(RgbImage::from_pixel(2, 1, Rgb([k, 2, 3]))),
        8 => {
            let cells = vec![maze::Cell { right: true, down: false }; 2];
            Op::PrintMaze(1, 2, maze::nodes_of(&cells).unwrap_or_default())
        }
        9 => Op::PrintMazeSolution(RgbImage::from_pixel(21, 21, Rgb([k, 255, 255])), vec!['D']),
        10 => Op::CreateMaze(2, 2),
        11 => Op::SolveSudoku(vec![k; 81]),
        _ => Op::SolveNonogram(vec![vec![2]], vec![vec![usize::from(k)]]),
    }
}

/// One operation with several arguments, called very often in one process, in turn on every thread.
const MARATHONS: u64 = KINDS as u64;

fn marathon_case(c: &mut Ctx) {
    let mut r = c.rng("marathon");
    let kind = c.idx as usize;
    let ops: Vec<Op> = (0..6).map(|k| quickest(kind, r.next() / 54 * 54 + k * 10)).collect();
    let threads = 4;
    let slice = std::time::Duration::from_millis(if c.thorough { 20_000 } else { 1_200 });
    let limit = if c.thorough { 1 << 21 } else { 80_000 };
    let input = json!({"threads": threads, "calls": ops.iter().map(|o| o.show()).collect::<Vec<_>>()});
    let got = in_child(c.thorough, || {
        let expected: Vec<_> = ops.iter().map(|o| o.run()).collect();
        let (calls, wrong) = (AtomicU64::new(0), AtomicU64::new(0));
        std::thread::scope(|s| {
            for t in 0..threads {
                let (ops, expected, calls, wrong) = (&ops, &expected, &calls, &wrong);
                s.spawn(move || {
                    let mut r = Rng::new(t);
                    let end = Instant::now() + slice;
                    // The first thread alone reaches the limit if calls are quick enough.
                    for n in 0..limit {
                        if n % 16 == 0 && Instant::now() >= end {
                            break;
                        }
                        let op = r.below(ops.len());
                        calls.fetch_add(1, Relaxed);
                        if ops[op].run() != expected[op] {
                            wrong.fetch_add(1, Relaxed);
                        }
                    }
                });
            }
        });
        let mut out = calls.load(SeqCst).to_le_bytes().to_vec();
        out.extend_from_slice(&wrong.load(SeqCst).to_le_bytes());
        out
    });
    match got {
        Ended::Stuck => {
            c.stop = true;
            c.violate("repeated calls block each other: all threads sleep, or none finishes", input)
        }
        Ended::Died(s) => c.violate(format!("repeating an operation ends its process with status {s}"), input),
        Ended::Data(d) => {
            let n = |k: usize| u64::from_le_bytes(d[k * 8..k * 8 + 8].try_into().expect("8 bytes"));
            if n(1) > 0 {
                c.violate(format!("{} of {} calls give another result than the first call", n(1), n(0)), input);
            }
            c.add("calls in long repetitions", n(0));
            c.max(&format!("repetitions, {}", ops[0].name()), n(0));
            c.evals += n(0);
        }
    }
}

const VARIETIES: u64 = 12;

/// Very many different calls of one operation, neighbours differing little, in several orders: what
/// a call leaves behind meets other calls in each order, so any trace of it shows as a difference.
fn variety_case(c: &mut Ctx) {
    let mut r = c.rng("variety");
    let kind = ((c.idx - MARATHONS) % VARIETIES) as usize;
    let n = [60_000, 300_000, 1_500, 1_500, 90, 12_000, 150, 300, 2_500, 2_500, 2_500, 1_200][kind] * if c.thorough { 3 } else { 1 };
    let ops = variety(&mut r, kind, n);
    let limit = std::time::Duration::from_secs(if c.thorough { 40 } else { 8 });
    let run = |order: &[usize], reuse: bool| {
        in_child(c.thorough, || {
            let mut hand = Hand::default();
            let mut out = vec![0u64; ops.len()];
            let end = Instant::now() + limit;
            for &k in order {
                if k % 64 == 0 && Instant::now() > end {
                    break;
                }
                let got = if reuse { ops[k].run_from(&mut hand) } else { ops[k].run() };
                // What failed to return is kept apart from every result.
                out[k] = got.map_or(1, |h| h | 1 << 63);
            }
            out.iter().flat_map(|x| x.to_le_bytes()).collect()
        })
    };
    let forward: Vec<usize> = (0..ops.len()).collect();
    let mut mixed = forward.clone();
    r.shuffle(&mut mixed);
    let backward: Vec<usize> = forward.iter().rev().copied().collect();
    let runs = [("forward", run(&forward, false)), ("backward", run(&backward, false)), ("forward, in reused places", run(&forward, true)), ("mixed, in reused places", run(&mixed, true))];
    let name = ops[0].name();
    let mut results: Vec<(&str, Vec<u64>)> = Vec::new();
    for (how, got) in runs {
        match got {
            Ended::Stuck => {
                c.stop = true;
                return c.violate(format!("{name}: many calls in a row ({how}) never finish"), json!({"calls": ops.len()}));
            }
            Ended::Died(s) => return c.violate(format!("{name}: many calls in a row ({how}) end the process with status {s}"), json!({"calls": ops.len()})),
            Ended::Data(d) => results.push((how, d.chunks_exact(8).map(|b| u64::from_le_bytes(b.try_into().expect("8 bytes"))).collect())),
        }
    }
    let mut done = 0;
    for k in 0..ops.len() {
        let seen: Vec<(&str, u64)> = results.iter().map(|(how, v)| (*how, v[k])).filter(|x| x.1 != 0).collect();
        done += seen.len() as u64;
        if seen.iter().any(|x| x.1 != seen[0].1) {
            let other = seen.iter().find(|x| x.1 != seen[0].1).map_or("", |x| x.0);
            c.violate(format!("{name} gives one result among {} calls in the order '{}' and another in the order '{other}'", ops.len(), seen[0].0), ops[k].show());
            break;
        }
    }
    c.add("calls compared between orders", done);
    c.count(&format!("orders compared, {name}"));
    c.evals += done;
    c.distinct.insert(mix(c.idx));
}

/// `n` calls of one operation, each a small change of an earlier one.
fn variety(r: &mut Rng, kind: usize, n: usize) -> Vec<Op> {
    let digits = |g: &[u8]| -> String { g.iter().map(|x| (b'0' + x) as char).collect() };
    let mut ops: Vec<Op> = Vec::with_capacity(n);
    let mut grid = sudoku::solved_grid(r);
    let mut picture = RgbImage::new(5, 4);
    for k in 0..n {
        if k % 40 == 0 {
            grid = sudoku::solved_grid(r);
        }
        let mut g = grid;
        match kind {
            0 => {
                for _ in 0..r.below(3) {
                    g[r.below(81)] = r.below(10) as u8;
                }
                let mut s = digits(&g);
                match r.below(12) {
                    0 => s.truncate(r.below(81)),
                    1 => s.replace_range(40..41, *r.pick(&["x", "é", " "])),
                    2 => s += "00",
                    _ => (),
                }
                ops.push(Op::ParseSudoku(s));
            }
            1 => {
                let items = r.range(1, 5);
                let mut s = String::new();
                for _ in 0..items {
                    let top = *r.pick(&[10, 10, 100, 1000]);
                    s += &r.below(top).to_string();
                    s += *r.pick(&[",", ";", ";"]);
                }
                s.pop();
                if r.chance(1, 20) {
                    s += *r.pick(&["x", ",", ";", " "]);
                }
                ops.push(Op::ParseRules(s, if r.chance(7, 8) { 2_000 } else { r.below(30) }));
            }
            2 | 3 => {
                // Nearly full grids: every small change of the givens changes the answer.
                for _ in 0..r.range(1, 5) {
                    g[r.below(81)] = 0;
                }
                match r.below(if kind == 3 { 3 } else { 12 }) {
                    0 => {
                        let i = r.below(81);
                        g[i] = g[i] % 9 + 1;
                    }
                    1 if kind == 3 => g[r.below(81)] = r.range(10, 255) as u8,
                    _ => (),
                }
                ops.push(Op::SolveSudoku(g.to_vec()));
            }
            4 => {
                for _ in 0..r.range(1, 70) {
                    g[r.below(81)] = 0;
                }
                ops.push(Op::PrintSudoku(g.to_vec()));
            }
            5 => {
                let (w, h) = (r.range(1, 5), r.range(1, 5));
                let squares = nono::random_grid(r, w, h);
                let (col, mut row) = nono::rules_of(w, h, &squares);
                if r.chance(1, 5) {
                    let i = r.below(h);
                    row[i] = vec![r.below(w + 2)];
                }
                ops.push(Op::SolveNonogram(col, row));
            }
            6 => {
                let (w, h) = (r.range(1, 3), r.range(1, 3));
                let mut side = |k: usize| -> nono::Rules { (0..k).map(|_| (0..r.range(1, 3)).map(|_| r.below(13)).collect()).collect() };
                let (col, row) = (side(w), side(h));
                ops.push(Op::PrintNonogram((w + usize::from(k % 17 == 3)) as u32, h as u32, col, row));
            }
            7 => {
                let (w, h) = (r.range(1, 3), r.range(1, 3));
                let squares = nono::random_grid(r, w, h);
                let size = ((w * 50 + 150) as u32, (h * 50 + 150) as u32);
                ops.push(Op::PrintNonogramSolution(w as u32, h as u32, RgbImage::from_pixel(size.0, size.1, Rgb([r.below(3) as u8 * 80, 200, 7])), squares));
            }
            8 => {
                if k % 30 == 0 {
                    picture = RgbImage::new(r.range(1, 9) as u32, r.range(1, 9) as u32);
                }
                let (x, y) = (r.below(picture.width() as usize) as u32, r.below(picture.height() as usize) as u32);
                let c = r.below(4) as u8 * 85;
                picture.put_pixel(x, y, Rgb([c, if r.chance(1, 3) { r.next() as u8 } else { c }, c]));
                ops.push(Op::Png(picture.clone()));
            }
            9 => {
                let (w, h) = (r.range(1, 6), r.range(1, 6));
                let cells: Vec<maze::Cell> = (0..w * h).map(|_| maze::Cell { right: r.chance(1, 2), down: r.chance(1, 2) }).collect();
                ops.push(Op::PrintMaze(w as u32 + u32::from(r.chance(1, 20)), h as u32, maze::nodes_of(&cells).unwrap_or_default()));
            }
            10 => {
                let (w, h) = (r.range(1, 5), r.range(1, 5));
                let path: Vec<char> = (0..r.below(8)).map(|_| *r.pick(&['R', 'D', 'D', 'R', 'L', 'U'])).collect();
                ops.push(Op::PrintMazeSolution(RgbImage::from_pixel(w as u32 * 10 + 1, h as u32 * 10 + 1, Rgb([255, 255, r.below(2) as u8])), path));
            }
            _ => {
                // Everything in turn.
                let mut some = variety(r, k % 11, 1);
                ops.append(&mut some);
            }
        }
    }
    ops
}

fn hammer_case(c: &mut Ctx) {
    let all = pairs();
    let before = MARATHONS + VARIETIES * if c.thorough { 8 } else { 1 };
    let (a, b) = all[(c.idx - before) as usize % all.len()];
    let mut r = c.rng("hammer");
    let seeds = [r.next(), r.next()];
    let threads = 8;
    let slice = std::time::Duration::from_millis(if c.thorough { 600 } else { 120 });
    let ops = [quickest(a, seeds[0]), quickest(b, seeds[1])];
    let input = json!({"threads": threads, "calls": ops.iter().map(|o| o.show()).collect::<Vec<_>>()});
    let got = in_child(c.thorough, || {
        let expected = [ops[0].run(), ops[1].run()];
        let barrier = Barrier::new(threads);
        let (calls, wrong) = (AtomicU64::new(0), AtomicU64::new(0));
        std::thread::scope(|s| {
            for t in 0..threads {
                let (ops, expected, barrier, calls, wrong) = (&ops, &expected, &barrier, &calls, &wrong);
                std::thread::Builder::new()
                    .stack_size(2 << 20)
                    .spawn_scoped(s, move || {
                        let mut r = Rng::new(t as u64);
                        let mut n = 0;
                        barrier.wait();
                        let end = Instant::now() + slice;
                        while Instant::now() < end {
                            for k in 0..8 {
                                // Some threads stay with one call, some change.
                                let op = if t < 4 { t % 2 } else { (k + r.below(2)) % 2 };
                                n += 1;
                                if ops[op].run() != expected[op] {
                                    wrong.fetch_add(1, Relaxed);
                                }
                                if n == 1 {
                                    std::thread::yield_now();
                                }
                            }
                        }
                        calls.fetch_add(n, Relaxed);
                    })
                    .expect("harness: spawn");
            }
        });
        let mut out = calls.load(SeqCst).to_le_bytes().to_vec();
        out.extend_from_slice(&wrong.load(SeqCst).to_le_bytes());
        out
    });
    match got {
        Ended::Stuck => {
            c.stop = true;
            c.violate("concurrent calls block each other: all threads sleep, or none finishes", input)
        }
        Ended::Died(s) => c.violate(format!("two operations in tight loops end their process with status {s}"), input),
        Ended::Data(d) => {
            let n = |k: usize| u64::from_le_bytes(d[k * 8..k * 8 + 8].try_into().expect("8 bytes"));
            if n(1) > 0 {
                c.violate(format!("{} of {} calls give another result than on one thread", n(1), n(0)), input);
            }
            c.add("calls in tight loops of two operations", n(0));
            c.count("pairs of operations in tight loops");
            c.evals += n(0);
        }
    }
}

fn race_case(c: &mut Ctx) {
    let mut r = c.rng("races");
    let ops = pool(&mut r, true);
    let threads = *r.pick(&[2, 4, 8]);
    let per = 96 / threads;
    let seed = r.next();
    // First use from several threads at once: the results are compared with each other.
    let events = threads_run(&ops, threads, per, seed);
    let mut first: std::collections::BTreeMap<usize, u64> = Default::default();
    for e in &events {
        match &e.got {
            Err(m) => c.violate(format!("{} {m}", ops[e.op].name()), ops[e.op].show()),
            Ok(h) => {
                if *first.entry(e.op).or_insert(*h) != *h {
                    c.violate(format!("{} gives different results on different threads", ops[e.op].name()), ops[e.op].show());
                }
            }
        }
    }
    let expected: Vec<u64> = ops.iter().map(|o| o.run().unwrap_or(0)).collect();
    let rep = history(&ops, &expected, threads, per, seed ^ 1);
    for f in rep.faults.into_iter().take(2) {
        c.violate(f, json!({"threads": threads}));
    }
    c.add("calls under the race detector", rep.single + rep.events + events.len() as u64);
    c.add("overlapping pairs of calls", rep.overlaps);
    c.evals += rep.single + rep.events + events.len() as u64;
    c.distinct.insert(rep.order);
}
