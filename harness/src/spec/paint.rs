//! Reference painter: documents as pixels.
use super::glyph;
use super::machine::{Ev, Pic, Rgb, Span, PAPER, PRINT_W};

#[derive(Clone, PartialEq)]
pub struct Canvas {
    pub w: u32,
    pub h: u32,
    pub px: Vec<Rgb>,
}

impl Canvas {
    pub fn empty(w: u32) -> Canvas {
        Canvas { w, h: 0, px: vec![] }
    }
    pub fn get(&self, x: u32, y: u32) -> Rgb {
        self.px[y as usize * self.w as usize + x as usize]
    }
    fn at(&mut self, x: u32, y: u32) -> &mut Rgb {
        &mut self.px[y as usize * self.w as usize + x as usize]
    }
    pub fn grow_down(&mut self, h: u32, paper: Rgb) {
        if h > self.h && self.w > 0 {
            self.h = h;
            self.px.resize(self.w as usize * h as usize, paper);
        }
    }
    pub fn grow(&mut self, w: u32, h: u32) {
        let (w, h) = (w.max(self.w), h.max(self.h));
        let mut px = vec![PAPER; w as usize * h as usize];
        for y in 0..self.h {
            for x in 0..self.w {
                px[y as usize * w as usize + x as usize] = self.get(x, y);
            }
        }
        *self = Canvas { w, h, px };
    }
    /// the paper with its left and right margin
    pub fn with_margin(&self, w: u32, h: u32) -> Canvas {
        let h = h.max(self.h);
        let left = (w - self.w) / 2;
        let mut out = Canvas { w, h, px: vec![PAPER; w as usize * h as usize] };
        for y in 0..self.h {
            for x in 0..self.w {
                *out.at(x + left, y) = self.get(x, y);
            }
        }
        out
    }
}

fn round_div(n: u32, d: u32) -> u8 {
    ((2 * n + d) / (2 * d)) as u8
}

pub fn mix(paint: Rgb, under: Rgb) -> Rgb {
    if paint[3] == 0 {
        return under;
    }
    let m = |i: usize| round_div(paint[i] as u32 * under[i] as u32, 255);
    [m(0), m(1), m(2), under[3]]
}

pub fn cover(text: Rgb, back: Rgb, coverage: u8) -> Rgb {
    let a = coverage as u32;
    let m = |i: usize| round_div(text[i] as u32 * a + back[i] as u32 * (255 - a), 255);
    [m(0), m(1), m(2), 255]
}

/// A drawing surface seen from one of the four directions
pub struct Surface<'a> {
    pub c: &'a mut Canvas,
    pub fixed: bool,
    pub dir: u8,
    pub oob: &'a mut bool,
    /// what grows
    pub paper: Rgb,
}

impl Surface<'_> {
    fn size(&self) -> (u32, u32) {
        if self.dir % 2 == 1 { (self.c.h, self.c.w) } else { (self.c.w, self.c.h) }
    }
    fn pixel(&mut self, x: u32, y: u32) -> &mut Rgb {
        let (w, h) = (self.c.w, self.c.h);
        let (x, y) = match self.dir {
            0 => (x, y),
            1 => (y, h - 1 - x),
            2 => (w - 1 - x, h - 1 - y),
            _ => (w - 1 - y, x),
        };
        self.c.at(x, y)
    }
    /// combines a block with what is below it
    fn put(&mut self, x: u32, y: u32, w: u32, h: u32, mut f: impl FnMut(u32, u32, Rgb) -> Rgb) {
        let (cw, ch) = self.size();
        if x >= cw || (self.fixed && y >= ch) {
            *self.oob = true;
            return;
        }
        let w = w.min(cw - x);
        let h = if self.fixed { h.min(ch - y) } else { h };
        if !self.fixed {
            self.c.grow_down(y + h, self.paper);
        }
        for dy in 0..h {
            for dx in 0..w {
                let p = self.pixel(x + dx, y + dy);
                *p = f(dx, dy, *p);
            }
        }
    }
    fn rect(&mut self, x: u32, y: u32, w: u32, h: u32, color: Rgb) {
        self.put(x, y, w, h, |_, _, under| mix(color, under));
    }
    fn pic(&mut self, p: &Pic) {
        self.put(p.x, p.y, p.w, p.h, |x, y, under| mix(p.px[y as usize * p.w as usize + x as usize], under));
    }
    fn mirror(&mut self, x: u32, y: u32, w: u32, h: u32) {
        let (cw, ch) = self.size();
        if x + w > cw || (self.fixed && y + h > ch) {
            return;
        }
        if !self.fixed {
            self.c.grow_down(y + h, self.paper);
        }
        for dy in 0..h / 2 {
            for dx in 0..w {
                let (a, b) = (*self.pixel(x + dx, y + dy), *self.pixel(x + dx, y + h - 1 - dy));
                *self.pixel(x + dx, y + dy) = b;
                *self.pixel(x + dx, y + h - 1 - dy) = a;
            }
        }
    }
    pub fn span(&mut self, s: &Span, tallest: u32) {
        let l = &s.look;
        let drop = if tallest > l.ch {
            (glyph::baseline(l.font, tallest) - glyph::baseline(l.font, l.ch)) as u32
        } else {
            0
        };
        let y = s.y + drop;
        let n = s.text.chars().count() as u32;
        for (i, c) in s.text.chars().enumerate() {
            if let Some(cell) = glyph::cell(c, l) {
                self.put(s.x + i as u32 * l.cw, y, l.cw, l.ch, |dx, dy, under| {
                    mix(cover(l.fg, l.bg, cell[(dy * l.cw + dx) as usize]), under)
                });
            }
        }
        let w = n * l.cw;
        if l.underline > 0 {
            self.rect(s.x, y + 3 + glyph::baseline(l.font, l.ch) as u32, w, 1, l.fg);
        }
        if l.strike > 0 {
            self.rect(s.x, y + (l.ch as f32 / 2.5) as u32, w, l.strike, l.fg);
        }
        if l.upside_down {
            self.mirror(s.x, y, w, l.ch);
        }
    }
}

#[derive(Clone)]
pub struct Doc {
    pub paper: Canvas,
    /// position at the end of the document
    pub end: u32,
    /// the page at each time it was printed
    pub pages: Vec<Pic>,
}

pub struct Painted {
    pub docs: Vec<Doc>,
    /// something was completely outside of its canvas
    pub oob: bool,
}

pub fn paint(events: &[Ev]) -> Painted {
    let mut docs: Vec<Doc> = vec![];
    let mut page = Canvas::empty(0);
    let mut dir = 0u8;
    let mut oob = false;
    for e in events {
        match e {
            Ev::Begin { .. } => {
                docs.push(Doc { paper: Canvas::empty(PRINT_W), end: 0, pages: vec![] });
                page = Canvas::empty(0);
                continue;
            }
            Ev::End { y } => {
                if let Some(d) = docs.last_mut() {
                    d.end = *y;
                }
                continue;
            }
            Ev::PageBegin => {
                page = Canvas::empty(0);
                dir = 0;
                continue;
            }
            Ev::PageArea { turn, w, h } => {
                dir = (dir + turn) % 4;
                let (w, h) = if dir % 2 == 1 { (*h, *w) } else { (*w, *h) };
                page.grow(w, h);
                continue;
            }
            Ev::PageEnd => continue,
            Ev::Line { .. } | Ev::Rects { .. } | Ev::Image { .. } | Ev::PrintPage { .. } => {}
        }
        let Some(doc) = docs.last_mut() else { continue };
        let on_page = match e {
            Ev::Line { page, .. } | Ev::Rects { page, .. } | Ev::Image { page, .. } => *page,
            _ => false,
        };
        if let Ev::PrintPage { x, y } = e {
            let (w, h) = (page.w, page.h);
            let mut s = Surface { c: &mut doc.paper, fixed: false, dir: 0, oob: &mut oob, paper: PAPER };
            s.put(*x, *y, w, h, |dx, dy, _| page.get(dx, dy));
            doc.pages.push(Pic { x: *x, y: *y, w, h, px: page.px.clone() });
            continue;
        }
        let mut s = if on_page {
            Surface { c: &mut page, fixed: true, dir, oob: &mut oob, paper: PAPER }
        } else {
            Surface { c: &mut doc.paper, fixed: false, dir: 0, oob: &mut oob, paper: PAPER }
        };
        match e {
            Ev::Line { spans, max_height, .. } => spans.iter().for_each(|sp| s.span(sp, *max_height)),
            Ev::Rects { color, rects, .. } => rects.iter().for_each(|r| s.rect(r.0, r.1, r.2, r.3, *color)),
            Ev::Image { pic, .. } => s.pic(pic),
            _ => {}
        }
    }
    Painted { docs, oob }
}
