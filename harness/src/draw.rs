//! Reference drawings, built from the documented layout and compared pixel by pixel.
use ab_glyph::FontRef;
use image::{Rgb, RgbImage};
use imageproc::drawing::draw_text_mut;
use puzzle_utils::RgbBuffer;
use std::sync::OnceLock;

pub const WHITE: Rgb<u8> = Rgb([255, 255, 255]);
pub const BLACK: Rgb<u8> = Rgb([0, 0, 0]);
pub const RED: Rgb<u8> = Rgb([255, 0, 0]);
pub const GRAY: Rgb<u8> = Rgb([105, 105, 105]);

pub fn font() -> &'static FontRef<'static> {
    static F: OnceLock<FontRef<'static>> = OnceLock::new();
    F.get_or_init(|| FontRef::try_from_slice(include_bytes!("../res/Roboto-Medium.ttf")).expect("font"))
}

pub fn difference(got: &RgbBuffer, want: &RgbBuffer) -> Option<String> {
    if got.dimensions() != want.dimensions() {
        return Some(format!("picture is {:?}, expected {:?}", got.dimensions(), want.dimensions()));
    }
    if got.as_raw() == want.as_raw() {
        return None;
    }
    let mut n = 0u64;
    let mut first = None;
    for (x, y, p) in got.enumerate_pixels() {
        let w = want.get_pixel(x, y);
        if p != w {
            n += 1;
            first.get_or_insert((x, y, p.0, w.0));
        }
    }
    let (x, y, p, w) = first?;
    Some(format!("{n} pixels differ, first at ({x},{y}): {p:?} instead of {w:?}"))
}

/// Ink of one digit relative to its cell: (dx, dy, colour).
type Stamp = Vec<(u32, u32, Rgb<u8>)>;

pub fn digit_stamps() -> &'static [Stamp; 10] {
    static S: OnceLock<[Stamp; 10]> = OnceLock::new();
    S.get_or_init(|| {
        std::array::from_fn(|d| {
            let mut out = Vec::new();
            if d == 0 {
                return out;
            }
            let mut cell = RgbImage::from_pixel(300, 300, WHITE);
            draw_text_mut(&mut cell, BLACK, 100 + 25, 100 + 5, 100.0, font(), &d.to_string());
            for (x, y, p) in cell.enumerate_pixels() {
                if *p != WHITE {
                    assert!((101..199).contains(&x) && (101..199).contains(&y), "digit leaves its cell");
                    out.push((x - 100, y - 100, *p));
                }
            }
            out
        })
    })
}

pub fn sudoku_blank() -> &'static RgbImage {
    static B: OnceLock<RgbImage> = OnceLock::new();
    B.get_or_init(|| {
        let on = |v: u32| v % 100 == 0 || [299, 301, 599, 601].contains(&v);
        RgbImage::from_fn(900, 900, |x, y| if on(x) || on(y) { BLACK } else { WHITE })
    })
}

pub fn sudoku(p: &[u8; 81]) -> RgbImage {
    let mut img = sudoku_blank().clone();
    for (i, &v) in p.iter().enumerate() {
        let (cx, cy) = ((i % 9) as u32 * 100, (i / 9) as u32 * 100);
        for &(dx, dy, c) in &digit_stamps()[v as usize] {
            img.put_pixel(cx + dx, cy + dy, c);
        }
    }
    img
}
