//! PNG monitor: P01, with its own decoder.
use crate::rt::*;
use crate::Prop;
use image::{Rgb, RgbImage};
use puzzle_utils::{image_to_png_bytes, RgbBuffer};
use serde_json::json;

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "P01", plan: |t| REPEATS + 776 + if t { 120_000 } else { 20_000 }, case: png_case }]
}

fn crc(bytes: &[u8]) -> u32 {
    let mut c = !0u32;
    for &b in bytes {
        c ^= u32::from(b);
        for _ in 0..8 {
            c = if c & 1 == 1 { 0xEDB8_8320 ^ (c >> 1) } else { c >> 1 };
        }
    }
    !c
}

/// Decodes 8-bit non-interlaced PNG (grey, RGB, palette, grey+alpha, RGBA), checking structure.
pub fn decode(b: &[u8]) -> Result<RgbImage, String> {
    if b.len() < 8 || b[..8] != [0x89, b'P', b'N', b'G', 13, 10, 26, 10] {
        return Err("wrong signature".into());
    }
    let mut at = 8;
    let (mut head, mut data, mut palette, mut ended) = (None, Vec::new(), Vec::new(), false);
    let mut data_state = 0;
    while at < b.len() {
        if ended {
            return Err("bytes after the end chunk".into());
        }
        if b.len() - at < 12 {
            return Err("chunk cut off".into());
        }
        let n = u32::from_be_bytes([b[at], b[at + 1], b[at + 2], b[at + 3]]) as usize;
        if b.len() - at - 12 < n {
            return Err("chunk cut off".into());
        }
        let kind = &b[at + 4..at + 8];
        let body = &b[at + 8..at + 8 + n];
        let e = at + 8 + n;
        let sum = u32::from_be_bytes([b[e], b[e + 1], b[e + 2], b[e + 3]]);
        if crc(&b[at + 4..e]) != sum {
            return Err(format!("checksum of chunk {:?} is wrong", String::from_utf8_lossy(kind)));
        }
        if head.is_none() && kind != b"IHDR" {
            return Err("first chunk is not the header".into());
        }
        match kind {
            b"IHDR" => {
                if head.is_some() || n != 13 {
                    return Err("bad header chunk".into());
                }
                let w = u32::from_be_bytes([body[0], body[1], body[2], body[3]]);
                let h = u32::from_be_bytes([body[4], body[5], body[6], body[7]]);
                head = Some((w, h, body[8], body[9], body[10], body[11], body[12]));
            }
            b"PLTE" => palette = body.to_vec(),
            b"IDAT" => {
                if data_state == 2 {
                    return Err("data chunks are not consecutive".into());
                }
                data_state = 1;
                data.extend_from_slice(body);
            }
            b"IEND" => ended = true,
            _ => {
                if kind[0] & 0x20 == 0 {
                    return Err(format!("unknown critical chunk {:?}", String::from_utf8_lossy(kind)));
                }
            }
        }
        if kind != b"IDAT" && data_state == 1 {
            data_state = 2;
        }
        at = e + 4;
    }
    let Some((w, h, depth, colour, comp, filter, lace)) = head else { return Err("no header".into()) };
    if !ended {
        return Err("no end chunk".into());
    }
    if w == 0 || h == 0 {
        return Err("zero dimension".into());
    }
    if comp != 0 || filter != 0 {
        return Err("unknown compression or filter method".into());
    }
    let channels = match colour {
        0 | 3 => 1,
        2 => 3,
        4 => 2,
        6 => 4,
        _ => return Err("unknown colour type".into()),
    };
    if depth != 8 || lace != 0 {
        // Legal, but not what this decoder covers.
        return image::load_from_memory(b).map(|i| i.to_rgb8()).map_err(|e| e.to_string());
    }
    let stride = w as usize * channels;
    let raw = miniz_oxide::inflate::decompress_to_vec_zlib(&data).map_err(|e| format!("data does not inflate: {e:?}"))?;
    if raw.len() != (stride + 1) * h as usize {
        return Err(format!("{} data bytes instead of {}", raw.len(), (stride + 1) * h as usize));
    }
    let mut prev = vec![0u8; stride];
    let mut out = RgbImage::new(w, h);
    for y in 0..h as usize {
        let line = &raw[y * (stride + 1)..(y + 1) * (stride + 1)];
        let mut cur = vec![0u8; stride];
        for i in 0..stride {
            let a = if i >= channels { cur[i - channels] } else { 0 };
            let c = if i >= channels { prev[i - channels] } else { 0 };
            let b = prev[i];
            let p = match line[0] {
                0 => 0,
                1 => a,
                2 => b,
                3 => ((u16::from(a) + u16::from(b)) / 2) as u8,
                4 => {
                    let e = i16::from(a) + i16::from(b) - i16::from(c);
                    let (pa, pb, pc) = ((e - i16::from(a)).abs(), (e - i16::from(b)).abs(), (e - i16::from(c)).abs());
                    if pa <= pb && pa <= pc {
                        a
                    } else if pb <= pc {
                        b
                    } else {
                        c
                    }
                }
                _ => return Err("unknown filter type".into()),
            };
            cur[i] = line[i + 1].wrapping_add(p);
        }
        for x in 0..w as usize {
            let s = &cur[x * channels..(x + 1) * channels];
            let px = match colour {
                2 | 6 => Rgb([s[0], s[1], s[2]]),
                3 => {
                    let k = s[0] as usize * 3;
                    if k + 2 >= palette.len() {
                        return Err("palette index out of range".into());
                    }
                    Rgb([palette[k], palette[k + 1], palette[k + 2]])
                }
                _ => Rgb([s[0]; 3]),
            };
            out.put_pixel(x as u32, y as u32, px);
        }
        prev = cur;
    }
    Ok(out)
}

fn image_of(c: &Ctx, r: &mut Rng) -> (RgbImage, &'static str) {
    if c.idx < 600 {
        let (w, h) = (c.idx as u32 % 25, c.idx as u32 / 25);
        let mut i = RgbImage::new(w, h);
        i.pixels_mut().for_each(|p| *p = Rgb([r.next() as u8, r.next() as u8, r.next() as u8]));
        return (i, "every small size");
    }
    if c.idx < 640 {
        // Extreme aspect ratios and sizes near buffer limits.
        let dims = [(1, 65_536), (65_536, 1), (10_922, 3), (10_923, 3), (21_845, 1), (21_846, 1), (1, 32_768), (4096, 8), (2730, 4), (2731, 4)];
        let (w, h) = dims[(c.idx - 600) as usize % dims.len()];
        let mut i = RgbImage::new(w, h);
        let mode = (c.idx - 600) as usize / dims.len();
        i.pixels_mut().for_each(|p| {
            *p = match mode {
                0 => Rgb([r.next() as u8; 3]),
                1 => Rgb([255; 3]),
                2 => Rgb([if r.chance(1, 50) { 0 } else { 255 }; 3]),
                _ => Rgb([r.next() as u8, r.next() as u8, r.next() as u8]),
            }
        });
        return (i, "extreme size");
    }
    if c.idx < 700 {
        // Pictures as the library draws them.
        let mut g = [0u8; 81];
        g.iter_mut().for_each(|v| *v = r.below(10) as u8);
        let i = match c.idx % 3 {
            0 => guard(|| puzzle_utils::print_sudoku(&g).ok()).ok().flatten(),
            1 => {
                let (w, h) = (r.range(1, 20), r.range(1, 20));
                let grid = crate::nono::random_grid(r, w, h);
                let (a, b) = crate::nono::rules_of(w, h, &grid);
                crate::nono::draw_puzzle(w, h, &a, &b).ok().and_then(|x| x.ok())
            }
            _ => guard(|| {
                let (n, _) = puzzle_utils::create_maze(12, 9, puzzle_utils::MazeAlgorithm::RecursiveBacktrack);
                puzzle_utils::print_maze(12, 9, &n).ok()
            })
            .ok()
            .flatten(),
        };
        return (i.unwrap_or_else(|| RgbImage::new(3, 3)), "drawn by the library");
    }
    if c.idx < 760 {
        // Exactly so many colours, in order of size: limits of palettes and bit depths.
        let n = [1, 2, 3, 4, 5, 15, 16, 17, 255, 256, 257, 300][(c.idx - 700) as usize % 12];
        let (w, h) = (r.range(17, 40) as u32, r.range(19, 40) as u32);
        let mut cols: Vec<Rgb<u8>> = Vec::new();
        let gray = c.idx % 2 == 0 && n <= 256;
        while cols.len() < n {
            let v = r.next();
            let p = if gray { Rgb([v as u8; 3]) } else { Rgb([v as u8, (v >> 8) as u8, (v >> 16) as u8]) };
            if !cols.contains(&p) {
                cols.push(p);
            }
        }
        let mut i = RgbImage::new(w, h);
        let mut k = 0;
        i.pixels_mut().for_each(|p| {
            *p = cols[k % n];
            k += 1;
        });
        return (i, "a certain number of colours");
    }
    if c.idx < 776 {
        // More data than fits any one buffer.
        let (w, h) = [(700, 700), (1500, 300), (300, 1500), (1, 300_000), (90_000, 4), (1000, 1000), (65_537, 1), (1, 65_537), (131_073, 2), (2, 131_073), (1, 70_000), (70_000, 3), (1900, 1900), (2400, 700), (5, 400_000), (400_000, 5)]
            [(c.idx - 760) as usize];
        let mut i = RgbImage::new(w, h);
        i.pixels_mut().for_each(|p| *p = Rgb([r.next() as u8, r.next() as u8, r.next() as u8]));
        return (i, "large noise");
    }
    let (w, h) = match r.below(6) {
        0 => (r.range(1, 400), r.range(1, 4)),
        1 => (r.range(1, 4), r.range(1, 400)),
        2 => (r.range(50, 200), r.range(50, 200)),
        _ => (r.range(1, 60), r.range(1, 60)),
    };
    let mut i = RgbImage::new(w as u32, h as u32);
    let kind = match r.below(10) {
        0 => {
            i.pixels_mut().for_each(|p| *p = Rgb([r.next() as u8, r.next() as u8, r.next() as u8]));
            "noise"
        }
        1 => {
            let v = Rgb([r.next() as u8, r.next() as u8, r.next() as u8]);
            i.pixels_mut().for_each(|p| *p = v);
            "one colour"
        }
        2 => {
            let (a, b, d) = (r.below(9) as u32, r.below(9) as u32, r.below(256) as u32);
            i.enumerate_pixels_mut().for_each(|(x, y, p)| *p = Rgb([(a * x + d) as u8, (b * y) as u8, (a * x + b * y) as u8]));
            "gradient"
        }
        3 => {
            let cols: Vec<Rgb<u8>> = (0..r.range(2, 4)).map(|_| Rgb([r.next() as u8, r.next() as u8, r.next() as u8])).collect();
            i.pixels_mut().for_each(|p| *p = *r.pick(&cols));
            "few colours"
        }
        4 => {
            i.pixels_mut().for_each(|p| *p = Rgb([255; 3]));
            for _ in 0..r.range(1, 6) {
                let (x, y) = (r.below(w) as u32, r.below(h) as u32);
                i.put_pixel(x, y, Rgb([r.next() as u8, r.next() as u8, r.next() as u8]));
            }
            "white with single pixels"
        }
        5 => {
            // Differs from one colour in a single channel only.
            let ch = r.below(3);
            i.pixels_mut().for_each(|p| p.0[ch] = r.next() as u8);
            "one channel"
        }
        6 => {
            i.pixels_mut().for_each(|p| *p = Rgb([if r.chance(1, 2) { 0 } else { 255 }; 3]));
            "black and white"
        }
        7 => {
            // Gray but for one pixel that is off by little in one channel.
            i.pixels_mut().for_each(|p| *p = Rgb([r.next() as u8; 3]));
            let at = if r.chance(1, 2) { (w as u32 - 1, h as u32 - 1) } else { (r.below(w) as u32, r.below(h) as u32) };
            let ch = r.below(3);
            i.get_pixel_mut(at.0, at.1).0[ch] ^= 1 << r.below(8);
            "gray but for one pixel"
        }
        8 => {
            // Equal rows or columns.
            let row: Vec<Rgb<u8>> = (0..w.max(h)).map(|_| Rgb([r.next() as u8, r.next() as u8, r.next() as u8])).collect();
            let across = r.chance(1, 2);
            i.enumerate_pixels_mut().for_each(|(x, y, p)| *p = row[if across { x } else { y } as usize]);
            "equal lines"
        }
        _ => {
            let k = r.range(1, 9) as u32;
            i.enumerate_pixels_mut().for_each(|(x, y, p)| *p = if (x / k + y / k) % 2 == 0 { Rgb([254, 255, 255]) } else { Rgb([255, 255, 254]) });
            "near-white checks"
        }
    };
    (i, kind)
}

pub fn round_trip(img: &RgbBuffer) -> Result<usize, String> {
    let bytes = match guard(|| image_to_png_bytes(img)) {
        Err(m) => return Err(format!("encoding {m}")),
        Ok(Err(e)) => return Err(format!("encoding fails: {e}")),
        Ok(Ok(b)) => b,
    };
    let back = decode(&bytes)?;
    match crate::draw::difference(&back, img) {
        Some(d) => Err(format!("decoded: {d}")),
        None => Ok(bytes.len()),
    }
}

/// Cases that encode a few pictures very often in one process.
const REPEATS: u64 = 4;

fn repeat_case(c: &mut Ctx) {
    let mut r = c.rng("repeated encoding");
    let times = if c.thorough { 2_000_000 } else { 70_000 } / [1, 2, 4, 40][c.idx as usize];
    let images: Vec<RgbImage> = (0..5u32)
        .map(|k| {
            let side = [2, 4, 8, 60][c.idx as usize] + k;
            let mut i = RgbImage::new(side, side + 1);
            i.pixels_mut().for_each(|p| *p = Rgb([if k % 2 == 0 { 255 } else { r.next() as u8 }, 255, if r.chance(1, 9) { 0 } else { 255 }]));
            i
        })
        .collect();
    let got = guard(|| {
        let first: Vec<_> = images.iter().map(|i| image_to_png_bytes(i).ok()).collect();
        (0..times).find(|_| {
            let k = r.below(images.len());
            image_to_png_bytes(&images[k]).ok() != first[k]
        })
    });
    let input = json!({"pictures of a side of": images[0].width(), "times": times});
    match got {
        Err(m) => c.violate(format!("encoding {m}"), input),
        Ok(Some(n)) => c.violate(format!("after {n} other encodings the same picture gives different bytes"), input),
        Ok(None) => c.add("repeated encodings", times),
    }
    c.eval(Some(mix(c.idx + 7)));
}

thread_local! {
    /// A small picture of an earlier case and its bytes.
    static EARLIER: std::cell::RefCell<Option<(RgbImage, Vec<u8>)>> = const { std::cell::RefCell::new(None) };
}

fn png_case(c: &mut Ctx) {
    if c.idx < REPEATS {
        return repeat_case(c);
    }
    let real = c.idx;
    c.idx -= REPEATS;
    picture_case(c);
    c.idx = real;
    c.violations.iter_mut().for_each(|v| {
        if v["case"] == json!(real - REPEATS) {
            v["case"] = json!(real);
        }
    });
}

fn picture_case(c: &mut Ctx) {
    let mut r = c.rng("png");
    let (mut img, kind) = image_of(c, &mut r);
    if c.idx % 16 == 11 {
        // A buffer may be longer than its picture.
        let (w, h) = img.dimensions();
        let mut raw = img.into_raw();
        let more = *r.pick(&[1, 2, 3, w as usize * 3, w as usize * 6, w as usize * 3 * h as usize, 1000]);
        raw.extend((0..more).map(|_| r.next() as u8));
        img = RgbImage::from_raw(w, h, raw).unwrap();
        c.count("a buffer longer than its picture");
    }
    let (w, h) = img.dimensions();
    let input = || {
        let n = img.as_raw().len().min(600);
        json!({"width": w, "height": h, "kind": kind, "first bytes": img.as_raw()[..n]})
    };
    c.count(kind);
    let copy = img.clone();
    if w == 0 || h == 0 {
        match guard(|| image_to_png_bytes(&img)) {
            Err(m) => c.violate(format!("encoding {m}"), input()),
            Ok(Err(_)) => c.count("zero dimension refused"),
            Ok(Ok(b)) => {
                if image::load_from_memory(&b).map(|i| i.to_rgb8().dimensions()).ok() != Some((w, h)) {
                    c.violate("a picture without pixels is encoded as something else", input());
                }
            }
        }
        c.eval(None);
        return;
    }
    match round_trip(&img) {
        Err(e) => c.violate(e, input()),
        Ok(n) => {
            c.add("bytes encoded", n as u64);
            c.add("pixels compared", u64::from(w) * u64::from(h));
        }
    }
    let twice = guard(|| (image_to_png_bytes(&img).ok(), image_to_png_bytes(&img).ok()));
    if !matches!(&twice, Ok((a, b)) if a == b) {
        c.violate("encoding twice gives different bytes", input());
    }
    if img != copy {
        c.violate("encoding changed the picture", input());
    }
    // A picture of an earlier case gives what it gave then.
    EARLIER.with(|e| {
        let mut e = e.borrow_mut();
        if let Some((old, bytes)) = e.as_ref().filter(|_| c.done > 0) {
            if !matches!(guard(|| image_to_png_bytes(old).ok()), Ok(Some(b)) if b == *bytes) {
                c.violate("a picture encoded again after others gives different bytes", json!({"width": old.width(), "height": old.height()}));
            }
            c.count("pictures of earlier cases encoded again");
        }
        if c.idx % 64 < 8 && w * h < 4_000 {
            *e = twice.ok().and_then(|x| x.0).map(|b| (img.clone(), b));
        }
    });
    c.eval(Some(hash_bytes(img.as_raw()) ^ mix(w as u64)));
    if c.idx % 97 == 8 {
        c.sample(|| json!({"width": w, "height": h, "kind": kind}));
    }
}
