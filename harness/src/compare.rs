//! Canonical form of event sequences and their comparison.
use crate::spec::machine::*;

/// Painted colours may differ by rounding
pub fn close(a: &[Rgb], b: &[Rgb]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a == b || (0..4).all(|i| a[i].abs_diff(b[i]) <= 1))
}

#[derive(Clone, PartialEq, Debug)]
pub enum Canon {
    Begin(u32),
    Line { cells: Vec<(char, u32, u32)>, looks: Vec<Look>, max_height: u32, just: Just, page: bool },
    Rects { color: Rgb, rects: Vec<(u32, u32, u32, u32)>, page: bool },
    Image { pic: Pic, page: bool },
    PageBegin,
    PageArea(u8, u32, u32),
    PageEnd,
    PrintPage(u32, u32),
    End(u32),
}

/// sorted, touching rectangles of a row joined
pub fn join(rects: &[(u32, u32, u32, u32)]) -> Vec<(u32, u32, u32, u32)> {
    let mut v = rects.to_vec();
    v.retain(|r| r.2 > 0 && r.3 > 0);
    v.sort_by_key(|r| (r.1, r.3, r.0, r.2));
    let mut out: Vec<(u32, u32, u32, u32)> = vec![];
    for r in v {
        match out.last_mut() {
            Some(l) if l.1 == r.1 && l.3 == r.3 && l.0 + l.2 == r.0 => l.2 += r.2,
            _ => out.push(r),
        }
    }
    out
}

/// What rectangles cover, whatever they are cut into
pub fn region(rects: &[(u32, u32, u32, u32)]) -> Vec<(u32, u32, u32, u32)> {
    let mut ys: Vec<u32> = rects.iter().flat_map(|r| [r.1, r.1.saturating_add(r.3)]).collect();
    ys.sort();
    ys.dedup();
    let mut out: Vec<(u32, u32, u32, u32)> = vec![];
    let mut above = 0..0;
    for b in ys.windows(2) {
        let (y, end) = (b[0], b[1]);
        let mut xs: Vec<(u32, u32)> =
            rects.iter().filter(|r| r.1 <= y && r.1.saturating_add(r.3) >= end).map(|r| (r.0, r.0.saturating_add(r.2))).collect();
        xs.sort();
        let mut runs: Vec<(u32, u32)> = vec![];
        for x in xs {
            match runs.last_mut() {
                Some(l) if l.1 >= x.0 => l.1 = l.1.max(x.1),
                _ => runs.push(x),
            }
        }
        let same = !runs.is_empty()
            && out[above.clone()].len() == runs.len()
            && out[above.clone()].iter().zip(&runs).all(|(o, r)| (o.0, o.0 + o.2) == *r && o.1 + o.3 == y);
        if same {
            out[above.clone()].iter_mut().for_each(|o| o.3 += end - y);
        } else {
            above = out.len()..out.len() + runs.len();
            out.extend(runs.iter().map(|r| (r.0, y, r.1 - r.0, end - y)));
        }
    }
    out
}
/// Rectangles drawn in a row as the area that they cover
fn covered(events: Vec<Canon>) -> Vec<Canon> {
    let mut out: Vec<Canon> = vec![];
    for e in events {
        match (out.last_mut(), e) {
            (Some(Canon::Rects { color, rects, page }), Canon::Rects { color: c, rects: more, page: p }) if *color == c && *page == p => rects.extend(more),
            (_, e) => out.push(e),
        }
    }
    for e in &mut out {
        if let Canon::Rects { rects, .. } = e {
            *rects = region(rects);
        }
    }
    out
}

pub fn canon(events: &[Ev]) -> Vec<Canon> {
    let mut out = vec![];
    for e in events {
        out.push(match e {
            Ev::Begin { y } => Canon::Begin(*y),
            Ev::Line { spans, max_height, just, page } => {
                let (mut cells, mut looks) = (vec![], vec![]);
                for s in spans {
                    for (i, c) in s.text.chars().enumerate() {
                        cells.push((c, s.x + i as u32 * s.look.cw, s.y));
                        looks.push(s.look.clone());
                    }
                }
                if cells.is_empty() {
                    continue;
                }
                Canon::Line { cells, looks, max_height: *max_height, just: *just, page: *page }
            }
            Ev::Rects { color, rects, page } => {
                let rects = join(rects);
                if rects.is_empty() {
                    continue;
                }
                Canon::Rects { color: *color, rects, page: *page }
            }
            Ev::Image { pic, page } => {
                if pic.w == 0 || pic.h == 0 {
                    continue;
                }
                Canon::Image { pic: pic.clone(), page: *page }
            }
            Ev::PageBegin => Canon::PageBegin,
            Ev::PageArea { turn, w, h } => Canon::PageArea(*turn, *w, *h),
            Ev::PageEnd => Canon::PageEnd,
            Ev::PrintPage { x, y } => Canon::PrintPage(*x, *y),
            Ev::End { y } => Canon::End(*y),
        });
    }
    out
}

pub fn show(c: &Canon) -> String {
    match c {
        Canon::Line { cells, looks, max_height, just, page } => {
            let text: String = cells.iter().map(|c| c.0).collect();
            let at: Vec<(u32, u32)> = cells.iter().map(|c| (c.1, c.2)).collect();
            let mut l = looks.clone();
            l.dedup();
            format!("line {text:?} at {at:?} tallest {max_height} {just:?} page {page} looks {l:?}")
        }
        Canon::Image { pic, page } => {
            let mut dots = String::new();
            for y in 0..pic.h.min(16) {
                for x in 0..pic.w.min(32) {
                    let p = pic.px[(y * pic.w + x) as usize];
                    dots.push(if p[3] == 0 { '.' } else if p == BLACK { '#' } else { 'o' });
                }
                dots.push('/');
            }
            format!("image {}x{} at {},{} page {page} {dots}", pic.w, pic.h, pic.x, pic.y)
        }
        c => {
            let s = format!("{c:?}");
            s.chars().take(400).collect()
        }
    }
}

pub fn events(want: &[Ev], got: &[Ev]) -> Result<(), String> {
    let (w, g) = (canon(want), canon(got));
    if w == g {
        return Ok(());
    }
    let (w, g) = (covered(w), covered(g));
    if w == g {
        return Ok(());
    }
    let i = w.iter().zip(&g).take_while(|(a, b)| a == b).count();
    let s = |v: &[Canon]| v.get(i).map_or("nothing more".to_string(), show);
    Err(format!("print event {i}: expected {} but got {}", s(&w), s(&g)))
}
