//! E01: whole pipelines, judged only from the typed text and the decoded PNG bytes.
use crate::rt::*;
use crate::{draw, nono, png, sudoku, Prop};
use image::RgbImage;
use puzzle_utils::*;
use serde_json::json;

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "E01", plan: |t| crate::maze::edge_sizes(EDGE_CELLS).len() as u64 + if t { 100_000 } else { 5_200 }, case }]
}

/// Largest maze of the systematic sizes, in cells.
const EDGE_CELLS: usize = 17_000;

/// Outcome of one pipeline stage: the value, or a description of the failure.
fn stage<T, E: std::fmt::Debug>(name: &str, f: impl FnOnce() -> Result<T, E>) -> Result<T, String> {
    match guard(f) {
        Err(m) => Err(format!("{name} {m}")),
        Ok(Err(e)) => Err(format!("{name} gives {e:?}")),
        Ok(Ok(v)) => Ok(v),
    }
}

fn export(img: &RgbBuffer) -> Result<RgbImage, String> {
    png::decode(&stage("PNG export", || image_to_png_bytes(img))?).map_err(|e| format!("the PNG cannot be read: {e}"))
}

fn dark(img: &RgbImage, x: u32, y: u32) -> u32 {
    765 - img.get_pixel(x, y).0.iter().map(|&v| u32::from(v)).sum::<u32>()
}

// ---------------------------------------------------------------- sudoku
/// The digit whose shape is nearest to what the cell shows, or None if nothing is near.
fn read_digit(img: &RgbImage, i: usize) -> Option<u8> {
    let (cx, cy) = ((i % 9) as u32 * 100, (i / 9) as u32 * 100);
    let mut have = Box::new([[0u32; 90]; 90]);
    let mut total = 0u64;
    for y in 5..95 {
        for x in 5..95 {
            have[y as usize - 5][x as usize - 5] = dark(img, cx + x, cy + y);
            total += u64::from(have[y as usize - 5][x as usize - 5]);
        }
    }
    let mut best = (u64::MAX, 0, 1u64);
    for (d, stamp) in draw::digit_stamps().iter().enumerate() {
        let mut distance = total;
        let mut weight = 0u64;
        for &(x, y, c) in stamp {
            if (5..95).contains(&x) && (5..95).contains(&y) {
                let h = u64::from(have[y as usize - 5][x as usize - 5]);
                let want = 765 - c.0.iter().map(|&v| u64::from(v)).sum::<u64>();
                weight += want;
                distance = distance - h + h.abs_diff(want);
            }
        }
        if distance < best.0 {
            best = (distance, d as u8, weight.max(20_000));
        }
    }
    (best.0 * 5 < best.2).then_some(best.1)
}

fn sudoku_case(c: &mut Ctx, r: &mut Rng) {
    let mut kind = r.below(sudoku::KINDS);
    let (p, class) = loop {
        let (p, class) = sudoku::random_puzzle(r, kind);
        let o = sudoku::reference(&p, 1, 20_000, None);
        if !o.solutions.is_empty() {
            break (p, class);
        }
        kind = r.below(sudoku::KINDS);
    };
    let typed: String = p.iter().map(|v| (b'0' + v) as char).collect();
    let go = || -> Result<(), String> {
        let parsed = stage("parsing", || parse_sudoku(&typed))?;
        let solved = stage("solving", || solve_sudoku(&parsed))?;
        let img = export(&stage("drawing", || print_sudoku(&solved))?)?;
        if img.dimensions() != (900, 900) {
            return Err(format!("the picture is {:?}", img.dimensions()));
        }
        let mut read = [0u8; 81];
        for (i, v) in read.iter_mut().enumerate() {
            *v = read_digit(&img, i).ok_or_else(|| format!("the picture shows no readable digit in cell {i}"))?;
        }
        let text: String = read.iter().map(|v| (b'0' + v) as char).collect();
        if let Some(f) = sudoku::grid_fault(&read) {
            return Err(format!("the picture reads {text}: {f}"));
        }
        if let Some(i) = (0..81).find(|&i| p[i] != 0 && p[i] != read[i]) {
            return Err(format!("the picture reads {text}: cell {i} is not the typed {}", p[i]));
        }
        Ok(())
    };
    let res = go();
    c.eval(Some(hash_bytes(typed.as_bytes())));
    c.count(&format!("sudoku: {class}"));
    if c.idx < 8 {
        c.sample(|| json!({"sudoku": typed}));
    }
    if let Err(e) = res {
        c.violate(e, json!(typed));
    }
}

// ---------------------------------------------------------------- nonogram
fn typed_rules(r: &mut Rng, l: &nono::Rules) -> String {
    l.iter()
        .map(|v| {
            if v.is_empty() {
                "0".to_string()
            } else {
                v.iter().map(|n| if r.chance(1, 40) { format!("0{n}") } else { n.to_string() }).collect::<Vec<_>>().join(",")
            }
        })
        .collect::<Vec<_>>()
        .join(";")
}

fn nonogram_case(c: &mut Ctx, r: &mut Rng) {
    let (w, h, col, row) = loop {
        let (w, h) = match r.below(10) {
            0 => (1, r.range(1, 25)),
            1 => (r.range(1, 25), 1),
            2 => (r.range(10, 20), r.range(10, 20)),
            _ => (r.range(1, 10), r.range(1, 10)),
        };
        let g = nono::random_grid(r, w, h);
        let (col, row) = nono::rules_of(w, h, &g);
        if nono::effort(&col, &row, 100).is_some() {
            break (w, h, col, row);
        }
    };
    let (tc, tr) = (typed_rules(r, &col), typed_rules(r, &row));
    let go = || -> Result<(), String> {
        let pc = stage("parsing columns", || parse_nonogram_rules(&tc, h))?;
        let pr = stage("parsing rows", || parse_nonogram_rules(&tr, w))?;
        let solved = stage("solving", || solve_nonogram(&pc, &pr))?;
        let base = stage("drawing", || print_nonogram(w as u32, h as u32, &pc, &pr))?;
        let img = stage("drawing the solution", || print_nonogram_solution(w as u32, h as u32, base, &solved))?;
        let img = export(&img)?;
        let (iw, ih) = img.dimensions();
        if (iw as usize) < 50 * w || (ih as usize) < 50 * h {
            return Err(format!("the picture is {iw}x{ih}"));
        }
        let (x0, y0) = (iw - 50 * w as u32, ih - 50 * h as u32);
        let mut read = Vec::with_capacity(w * h);
        for i in 0..w * h {
            let (cx, cy) = (x0 + 50 * (i % w) as u32, y0 + 50 * (i / w) as u32);
            let mut n = 0;
            for y in 5..45 {
                for x in 5..45 {
                    n += u32::from(dark(&img, cx + x, cy + y) == 765);
                }
            }
            // A clue that reaches into the grid (N07) covers far less than half a square.
            if n != 1600 && n > 800 {
                return Err(format!("square {i} is neither black nor blank ({n} of 1600 pixels)"));
            }
            read.push(n == 1600);
        }
        match nono::grid_fault(&read, &col, &row) {
            Some(f) => Err(format!("the picture's black squares: {f}")),
            None => Ok(()),
        }
    };
    let res = go();
    c.eval(Some(hash_bytes(format!("{tc}/{tr}").as_bytes())));
    c.count("nonogram");
    c.max("nonogram_squares", (w * h) as u64);
    if c.idx < 16 {
        c.sample(|| json!({"columns": tc, "rows": tr}));
    }
    if let Err(e) = res {
        c.violate(e, json!({"columns": tc, "rows": tr}));
    }
}

// ---------------------------------------------------------------- maze
/// Runs of pixels that are not black, as inclusive ranges.
fn openings(img: &RgbImage, y: u32) -> Vec<(u32, u32)> {
    let mut out: Vec<(u32, u32)> = Vec::new();
    for x in 0..img.width() {
        if *img.get_pixel(x, y) != draw::BLACK {
            match out.last_mut() {
                Some(l) if l.1 + 1 == x => l.1 = x,
                _ => out.push((x, x)),
            }
        }
    }
    out
}

fn one_opening(img: &RgbImage, y: u32, name: &str) -> Result<(u32, u32), String> {
    match openings(img, y)[..] {
        [o] => Ok(o),
        ref v => Err(format!("the {name} border has {} openings", v.len())),
    }
}

fn maze_case(c: &mut Ctx, r: &mut Rng, edge: Option<(usize, usize)>) {
    let (w, h) = match r.below(8) {
        _ if edge.is_some() => edge.unwrap_or((1, 1)),
        0 => (1, r.range(1, 60)),
        1 => (r.range(1, 60), 1),
        2 => (r.range(20, 60), r.range(20, 60)),
        _ => (r.range(1, 16), r.range(1, 16)),
    };
    let seed = r.next();
    let mut hash = 0;
    let res = with_entropy(seed, || -> Result<u64, String> {
        let (nodes, dirs) = stage("generating", || Ok::<_, ()>(create_maze(w, h, MazeAlgorithm::RecursiveBacktrack)))?;
        let plain = stage("drawing", || print_maze(w as u32, h as u32, &nodes))?;
        let walls = export(&plain)?;
        let img = export(&stage("drawing the solution", || print_maze_solution(plain, &dirs))?)?;
        if img.dimensions() != walls.dimensions() {
            return Err("the solution picture has another size".into());
        }
        let (iw, ih) = img.dimensions();
        let red = |x: u32, y: u32| *img.get_pixel(x, y) == draw::RED;
        let (mut covered, mut altered, mut count) = (0u32, 0u32, 0u64);
        for (x, y, p) in walls.enumerate_pixels() {
            if red(x, y) {
                count += 1;
                covered += u32::from(*p == draw::BLACK);
            } else {
                altered += u32::from(img.get_pixel(x, y) != p);
            }
        }
        if covered > 0 {
            return Err(format!("the red line crosses walls ({covered} pixels)"));
        }
        if altered > 0 {
            return Err(format!("the solution picture changes {altered} pixels besides the red line"));
        }
        let top = one_opening(&walls, 0, "top")?;
        let bottom = one_opening(&walls, ih - 1, "bottom")?;
        // Flood the red line from the top opening.
        let mut seen = vec![false; (iw * ih) as usize];
        let mut stack: Vec<(u32, u32)> = (top.0..=top.1).filter(|&x| red(x, 0)).map(|x| (x, 0)).collect();
        if stack.is_empty() {
            return Err("no red pixel in the top opening".into());
        }
        while let Some((x, y)) = stack.pop() {
            let k = (y * iw + x) as usize;
            if seen[k] || !red(x, y) {
                continue;
            }
            seen[k] = true;
            if x > 0 {
                stack.push((x - 1, y));
            }
            if y > 0 {
                stack.push((x, y - 1));
            }
            if x + 1 < iw {
                stack.push((x + 1, y));
            }
            if y + 1 < ih {
                stack.push((x, y + 1));
            }
        }
        if !(bottom.0..=bottom.1).any(|x| seen[((ih - 1) * iw + x) as usize]) {
            return Err("the red line does not lead from the top opening to the bottom opening".into());
        }
        let reached = seen.iter().filter(|&&s| s).count() as u64;
        if reached != count {
            return Err(format!("{} red pixels are not connected to the line", count - reached));
        }
        hash = hash_bytes(img.as_raw());
        Ok(count)
    });
    c.eval(Some(hash ^ mix((w * 1000 + h) as u64)));
    c.count("maze");
    if c.idx < 8 {
        c.sample(|| json!({"maze": [w, h], "red pixels": res}));
    }
    match res {
        Ok(n) => c.max("red_pixels", n),
        Err(e) => c.violate(e, json!({"width": w, "height": h, "entropy": seed})),
    }
}

fn case(c: &mut Ctx) {
    let mut r = c.rng("pipeline");
    if let Some(&size) = crate::maze::edge_sizes(EDGE_CELLS).get(c.idx as usize) {
        return maze_case(c, &mut r, Some(size));
    }
    match (c.idx / 8) % 10 {
        0 => sudoku_case(c, &mut r),
        1..=4 => nonogram_case(c, &mut r),
        _ => maze_case(c, &mut r, None),
    }
}
