//! Reference glyph coverage of one character cell.
use super::machine::Look;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::OnceLock;

macro_rules! font {
    ($n:literal) => {
        include_bytes!(concat!("/repo/thermal_renderer/resources/fonts/JetBrainsMonoNL-", $n, ".ttf")) as &[u8]
    };
}

fn font(bold: bool, italic: bool) -> &'static fontdue::Font {
    static FONTS: OnceLock<Vec<fontdue::Font>> = OnceLock::new();
    let all = FONTS.get_or_init(|| {
        [font!("Medium"), font!("Bold"), font!("MediumItalic"), font!("BoldItalic")]
            .into_iter()
            .map(|b| fontdue::Font::from_bytes(b, fontdue::FontSettings::default()).unwrap())
            .collect()
    });
    &all[bold as usize + 2 * italic as usize]
}

const BASE: f32 = 12f32 * 1.68;

fn size(f: char) -> f32 {
    match f {
        'B' => BASE * 0.8,
        'C' => BASE * 0.7,
        _ => BASE,
    }
}

/// How far below the top of a line of height `h` the baseline lies
pub fn baseline(f: char, h: u32) -> f32 {
    let s = match f {
        'B' => BASE * 0.8,
        'C' => BASE * 0.5,
        _ => BASE,
    };
    h as f32 * (s * 0.0315)
}

/// Coverage (0..=255) of each pixel of a cell; None when nothing is painted
pub type Cell = Option<Rc<Vec<u8>>>;

type Key = (char, bool, bool, char, u32, u32, u32, u32);
thread_local! {
    static CACHE: RefCell<HashMap<Key, Cell>> = RefCell::new(HashMap::new());
}

pub fn cell(c: char, l: &Look) -> Cell {
    let f = if matches!(l.font, 'B' | 'C') { l.font } else { 'A' };
    let key = (c, l.bold, l.italic, f, l.bw, l.bh, l.cw, l.ch);
    CACHE.with(|k| {
        let mut k = k.borrow_mut();
        if k.len() > 20_000 {
            k.clear();
        }
        k.entry(key).or_insert_with(|| draw(c, l, f)).clone()
    })
}

fn draw(c: char, l: &Look, f: char) -> Cell {
    let font = font(l.bold, l.italic);
    let class = fontdue::layout::CharacterData::classify(c, font.lookup_glyph_index(c));
    if class.is_control() {
        return None;
    }
    let scale = (l.cw / l.bw).max(l.ch / l.bh);
    let px = size(f) * scale as f32;
    let (w, h) = (l.bw * scale, l.bh * scale);
    let (m, bitmap) = font.rasterize(c, px);
    let line = font.horizontal_line_metrics(px).unwrap();
    let base = (line.ascent + line.descent).ceil();
    let top = ((base - m.bounds.height) + (-1.0 * m.bounds.ymin)).ceil() as u32;
    let left = m.bounds.xmin.round().abs() as u32;
    let at = |x: u32, y: u32| -> u8 {
        if x < left || y < top {
            return 0;
        }
        let (gx, gy) = ((x - left) as usize, (y - top) as usize);
        if gx < m.width && gy < m.height { bitmap[gy * m.width + gx] } else { 0 }
    };
    let mut out = Vec::with_capacity((l.cw * l.ch) as usize);
    let (rx, ry) = (w as f32 / l.cw as f32, h as f32 / l.ch as f32);
    for y in 0..l.ch {
        for x in 0..l.cw {
            out.push(if scale > 1 { at((x as f32 * rx) as u32, (y as f32 * ry) as u32) } else { at(x, y) });
        }
    }
    Some(Rc::new(out))
}
