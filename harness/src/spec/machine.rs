//! Reference printer: executes framed commands and yields the sequence of
//! observable print events.

use super::barcode;
use super::frame::{frames, Frame, Op};
use super::tables;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};

pub type Rgb = [u8; 4];
pub const PAPER: Rgb = [255, 255, 255, 255];
pub const BLACK: Rgb = [0, 0, 0, 255];
pub const RED: Rgb = [158, 22, 22, 255];
pub const BLUE: Rgb = [27, 57, 169, 255];
/// printable width, paper width, first y of a document before its margin
pub const PRINT_W: u32 = 609;
pub const PAPER_W: u32 = 649;
pub const TOP: u32 = 60;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Just {
    Left,
    Center,
    Right,
}

/// How a run of characters looks
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Look {
    /// A..E, 's' and 't' are the special fonts
    pub font: char,
    pub bw: u32,
    pub bh: u32,
    pub cw: u32,
    pub ch: u32,
    pub bold: bool,
    pub italic: bool,
    pub underline: u32,
    pub strike: u32,
    pub inverted: bool,
    pub upside_down: bool,
    pub fg: Rgb,
    pub bg: Rgb,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Span {
    pub text: String,
    pub x: u32,
    pub y: u32,
    pub look: Look,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Pic {
    pub x: u32,
    pub y: u32,
    pub w: u32,
    pub h: u32,
    pub px: Vec<Rgb>,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Ev {
    Begin { y: u32 },
    Line { spans: Vec<Span>, max_height: u32, just: Just, page: bool },
    Rects { color: Rgb, rects: Vec<(u32, u32, u32, u32)>, page: bool },
    Image { pic: Pic, page: bool },
    PageBegin,
    /// direction number, page size in that direction
    PageArea { turn: u8, w: u32, h: u32 },
    PageEnd,
    PrintPage { x: u32, y: u32 },
    End { y: u32 },
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Fault {
    Unknown,
    Graphics,
}

#[derive(Clone, Copy, Hash, PartialEq, Eq, Debug, Default)]
pub struct Area {
    pub x: u32,
    pub y: u32,
    pub w: u32,
    pub h: u32,
}

/// number of clockwise quarter turns between the standard direction and a
/// page direction
pub type Turn = u8;

#[derive(Clone, Hash, PartialEq, Eq, Debug)]
pub struct Style {
    pub font: char,
    pub bw: u32,
    pub bh: u32,
    pub bold: bool,
    pub italic: bool,
    pub underline: u8,
    pub strike: u8,
    pub inverted: bool,
    pub upside_down: bool,
    pub wm: u32,
    pub hm: u32,
    pub spacing: u32,
    pub fg: Rgb,
    pub bg: Rgb,
    pub just: Just,
    pub table: u8,
    pub charset: u8,
    pub tabs: Vec<u8>,
}

#[derive(Clone, Hash, PartialEq, Eq, Debug)]
pub struct Page {
    pub on: bool,
    pub logical: Area,
    pub cur: Area,
    pub page: Area,
    pub dir: Turn,
    pub prev: Turn,
}

/// A stored picture or the fact that it can't be decoded
#[derive(Clone, Hash, PartialEq, Eq, Debug)]
pub enum Stored {
    Bad,
    Pic { w: u32, h: u32, px: Vec<Rgb> },
}

#[derive(Clone, Copy, PartialEq)]
enum Flow {
    Inline,
    Block,
}

#[derive(Clone, Hash, PartialEq, Eq, Debug)]
pub struct Symbol {
    pub width: u32,
    pub size: u32,
    pub dots: Vec<bool>,
}

#[derive(Clone, Hash, PartialEq, Eq, Debug)]
pub struct State {
    pub style: Style,
    pub x: u32,
    pub y: u32,
    pub h_unit: u32,
    pub v_unit: u32,
    pub dpi: u32,
    pub bar_font: char,
    pub bar_w: u32,
    pub bar_h: u32,
    pub hri: u8,
    pub qr_model: u8,
    pub qr_level: u8,
    pub qr_size: u32,
    pub symbol: Option<Symbol>,
    pub stored: BTreeMap<(bool, u8, u8), Stored>,
    pub buffer: Vec<Stored>,
    pub page: Page,
    /// text that is not printed yet
    pub pending: Vec<(String, Look)>,
}

fn font_size(font: char) -> (u32, u32) {
    if font == 'A' {
        (12, 24)
    } else {
        (9, 17)
    }
}

pub fn font_of(n: u8) -> char {
    match n {
        1 | 49 => 'B',
        2 | 50 => 'C',
        3 | 51 => 'D',
        4 | 52 => 'E',
        97 => 's',
        98 => 't',
        _ => 'A',
    }
}

fn color_no(n: u8) -> Rgb {
    match n {
        0 => PAPER,
        2 | 50 => RED,
        3 | 51 => BLUE,
        _ => BLACK,
    }
}

impl Page {
    fn off() -> Page {
        Page { on: false, logical: Area::default(), cur: Area::default(), page: Area::default(), dir: 0, prev: 0 }
    }

    /// page size in the standard direction
    pub fn paper_size(&self) -> (u32, u32) {
        if self.dir % 2 == 1 {
            (self.page.h, self.page.w)
        } else {
            (self.page.w, self.page.h)
        }
    }

    /// Places the logical area (standard direction) on the page seen in the
    /// current direction
    fn apply(&mut self) -> (u8, u32, u32) {
        let (mut w, mut h) = if self.prev % 2 == 1 {
            (self.page.h, self.page.w)
        } else {
            (self.page.w, self.page.h)
        };
        let l = self.logical;
        w = w.max(l.x + l.w);
        h = h.max(l.y + l.h);
        self.cur = match self.dir {
            0 => Area { x: l.x, y: l.y, w: l.w, h: l.h },
            // seen from the left side: up is the former left
            1 => Area { x: h - (l.y + l.h), y: l.x, w: l.h, h: l.w },
            2 => Area { x: w - (l.x + l.w), y: h - (l.y + l.h), w: l.w, h: l.h },
            _ => Area { x: l.y, y: w - (l.x + l.w), w: l.h, h: l.w },
        };
        let (pw, ph) = if self.dir % 2 == 1 { (h, w) } else { (w, h) };
        self.page = Area { x: self.cur.x, y: self.cur.y, w: pw, h: ph };
        ((self.dir + 4 - self.prev) % 4, pw, ph)
    }
}

impl State {
    pub fn power_on() -> State {
        State {
            style: Style {
                font: 'A',
                bw: 12,
                bh: 24,
                bold: false,
                italic: false,
                underline: 0,
                strike: 0,
                inverted: false,
                upside_down: false,
                wm: 1,
                hm: 1,
                spacing: 24,
                fg: BLACK,
                bg: PAPER,
                just: Just::Left,
                table: 0,
                charset: 0,
                tabs: vec![8; 32],
            },
            x: 0,
            y: TOP,
            h_unit: 1,
            v_unit: 1,
            dpi: 203,
            bar_font: 'A',
            bar_w: 3,
            bar_h: 40,
            hri: 0,
            qr_model: 1,
            qr_level: 0,
            qr_size: 3,
            symbol: None,
            stored: BTreeMap::new(),
            buffer: vec![],
            page: Page::off(),
            pending: vec![],
        }
    }

    pub fn digest(&self) -> u64 {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        self.hash(&mut h);
        h.finish()
    }

    fn get_x(&self) -> u32 {
        if self.page.on { self.page.cur.x } else { self.x }
    }
    fn get_y(&self) -> u32 {
        if self.page.on { self.page.cur.y } else { self.y }
    }
    fn base_x(&self) -> u32 {
        if self.page.on { self.page.page.x } else { 0 }
    }
    fn set_x(&mut self, x: u32) {
        if self.page.on {
            self.page.cur.x = self.page.page.x + x
        } else {
            self.x = x
        }
    }
    fn move_x(&mut self, d: u32) {
        if self.page.on { self.page.cur.x += d } else { self.x += d }
    }
    fn move_y(&mut self, d: u32) {
        if self.page.on { self.page.cur.y += d } else { self.y += d }
    }
    fn carriage(&mut self) {
        self.set_x(0)
    }
    fn width(&self) -> u32 {
        if self.page.on { self.page.cur.w } else { PRINT_W }
    }
    /// room to the right of the position
    fn room(&self) -> u32 {
        self.width().saturating_sub(self.get_x().saturating_sub(self.base_x()))
    }
    fn newline(&mut self, n: u32) {
        self.carriage();
        self.move_y(n * self.style.spacing);
    }
    fn justified(&self, w: u32) -> u32 {
        let space = self.width().saturating_sub(w);
        match self.style.just {
            Just::Left => 0,
            Just::Center => space / 2,
            Just::Right => space,
        }
    }

    fn look(&self) -> Look {
        let s = &self.style;
        let points = |n: u8| (n as f32 * (self.dpi as f32 / 96f32)) as u32;
        Look {
            font: s.font,
            bw: s.bw,
            bh: s.bh,
            cw: s.bw * s.wm,
            ch: s.bh * s.hm,
            bold: s.bold,
            italic: s.italic,
            underline: points(s.underline),
            strike: points(s.strike),
            inverted: s.inverted,
            upside_down: s.upside_down,
            fg: s.fg,
            bg: s.bg,
        }
    }
}

pub struct Machine {
    pub st: State,
    pub events: Vec<Ev>,
    pub faults: Vec<Fault>,
    pub steps: u64,
    pub trail: Vec<u64>,
}

pub struct Outcome {
    pub events: Vec<Ev>,
    pub faults: Vec<Fault>,
    pub steps: u64,
    pub state: u64,
    pub trail: Vec<u64>,
}

pub fn run(bytes: &[u8]) -> Outcome {
    let mut m = Machine::new();
    for f in frames(bytes) {
        m.step(bytes, &f);
    }
    m.finish()
}

/// The state in which a stream leaves the printer
pub fn state_after(bytes: &[u8]) -> u64 {
    let mut m = Machine::new();
    for f in frames(bytes) {
        m.step(bytes, &f);
    }
    m.st.digest()
}

fn two(d: &[u8], i: usize) -> u32 {
    d.get(i).copied().unwrap_or(0) as u32 + 256 * d.get(i + 1).copied().unwrap_or(0) as u32
}

/// bits, most significant first, rows padded to bytes
fn rows_of_bits(w: u32, h: u32, data: &[u8]) -> Option<Vec<bool>> {
    let stride = (w as usize + 7) / 8;
    if data.len() != stride * h as usize {
        return None;
    }
    let mut v = Vec::with_capacity(w as usize * h as usize);
    for y in 0..h as usize {
        for x in 0..w as usize {
            v.push(data[y * stride + x / 8] >> (7 - x % 8) & 1 == 1);
        }
    }
    Some(v)
}

/// columns from left to right, each from top to bottom, padded to bytes
fn columns_of_bits(w: u32, h: u32, data: &[u8]) -> Option<Vec<bool>> {
    let stride = (h as usize + 7) / 8;
    if data.len() != stride * w as usize {
        return None;
    }
    let mut v = Vec::with_capacity(w as usize * h as usize);
    for y in 0..h as usize {
        for x in 0..w as usize {
            v.push(data[x * stride + y / 8] >> (7 - y % 8) & 1 == 1);
        }
    }
    Some(v)
}

const CLEAR: Rgb = [0, 0, 0, 0];

fn picture(w: u32, h: u32, bits: Option<Vec<bool>>, sx: u32, sy: u32, color: Rgb) -> Stored {
    let (sx, sy) = (sx.max(1), sy.max(1));
    match bits {
        None => Stored::Bad,
        Some(bits) => {
            let (fw, fh) = (w * sx, h * sy);
            let mut px = Vec::with_capacity(fw as usize * fh as usize);
            for y in 0..fh {
                for x in 0..fw {
                    let on = bits[(y / sy) as usize * w as usize + (x / sx) as usize];
                    px.push(if on { color } else { CLEAR });
                }
            }
            Stored::Pic { w: fw, h: fh, px }
        }
    }
}

fn merge(layers: &[Stored]) -> Stored {
    let mut out: Option<(u32, u32, Vec<Rgb>)> = None;
    for l in layers {
        match (l, &mut out) {
            (Stored::Bad, _) => return Stored::Bad,
            (Stored::Pic { w, h, px }, None) => out = Some((*w, *h, px.clone())),
            (Stored::Pic { w, h, px }, Some((ow, oh, opx))) => {
                if w != ow || h != oh {
                    return Stored::Bad;
                }
                for (o, p) in opx.iter_mut().zip(px) {
                    if p[3] != 0 {
                        *o = *p;
                    }
                }
            }
        }
    }
    match out {
        None => Stored::Bad,
        Some((w, h, px)) => Stored::Pic { w, h, px },
    }
}

impl Machine {
    pub fn new() -> Machine {
        let mut m = Machine { st: State::power_on(), events: vec![], faults: vec![], steps: 0, trail: vec![] };
        m.begin_document();
        m
    }

    fn begin_document(&mut self) {
        self.st.y = TOP;
        self.st.newline(2);
        self.events.push(Ev::Begin { y: self.st.y });
    }

    pub fn finish(mut self) -> Outcome {
        self.flush();
        self.events.push(Ev::End { y: self.st.y });
        Outcome { events: self.events, faults: self.faults, steps: self.steps, state: self.st.digest(), trail: self.trail }
    }

    fn text(&mut self, t: &str) {
        let look = self.st.look();
        self.st.pending.push((t.to_string(), look));
    }

    pub fn step(&mut self, bytes: &[u8], f: &Frame) {
        self.steps += 1;
        let d = &bytes[f.body..f.end];
        let d0 = d.first().copied();
        let n = d0.unwrap_or(0);
        let st = &mut self.st;
        let style = &mut st.style;
        match f.op {
            // ---- text
            Op::Text => {
                let t = tables::decode(style.table, style.charset, d);
                self.text(&t);
            }
            Op::LineFeed => self.text("\n"),
            Op::Tab => self.text("\t"),
            Op::CarriageReturn => {}
            Op::Unknown => self.faults.push(Fault::Unknown),
            // ---- style, without effect on text already received
            Op::AltColor => style.fg = if matches!(n, 1 | 49) { RED } else { BLACK },
            Op::Invert => {
                style.inverted = n == 1;
                (style.fg, style.bg) = if n == 1 { (PAPER, BLACK) } else { (BLACK, PAPER) };
            }
            Op::CharSize => {
                style.hm = (n % 8) as u32 + 1;
                style.wm = (n / 16 % 8) as u32 + 1;
            }
            Op::CodeTable => style.table = n,
            Op::Charset => style.charset = n,
            Op::DoubleStrike => {
                style.strike = match (n % 2, style.strike) {
                    (1, _) => 2,
                    (_, 2) => 1,
                    _ => 0,
                }
            }
            Op::Bold => style.bold = n % 2 == 1,
            Op::Italic => style.italic = n % 2 == 1,
            Op::UpsideDown => style.upside_down = n % 2 == 1,
            Op::Smoothing => {}
            Op::Underline => {
                style.underline = match n {
                    1 | 49 => 1,
                    2 | 50 => 2,
                    _ => 0,
                }
            }
            Op::Font => {
                style.font = font_of(n);
                (style.bw, style.bh) = font_size(style.font);
            }
            Op::PrintMode => {
                style.font = if n & 1 != 0 { 'B' } else { 'A' };
                (style.bw, style.bh) = font_size(style.font);
                style.bold = n & 8 != 0;
                style.hm = if n & 16 != 0 { 2 } else { 1 };
                style.wm = if n & 32 != 0 { 2 } else { 1 };
                style.underline = (n & 128 != 0) as u8;
            }
            Op::CharEffects => {
                let color = d.get(3).copied().unwrap_or(48);
                match d.get(2) {
                    Some(48) => style.fg = color_no(color),
                    Some(49) => style.bg = color_no(color),
                    _ => {}
                }
            }
            // ---- pictures and symbols
            Op::BitImage => {
                if d.len() < 3 {
                    if !d.is_empty() {
                        self.faults.push(Fault::Graphics);
                    }
                } else {
                    let (w, h) = (two(d, 1), if matches!(n, 32 | 33) { 24 } else { 8 });
                    let (sx, sy) = if matches!(n, 0 | 32) { (2, 3) } else { (1, 1) };
                    let pic = picture(w, h, columns_of_bits(w, h, &d[3..]), sx, sy, BLACK);
                    self.show(pic, Flow::Inline);
                }
            }
            Op::Raster => {
                if d.len() < 5 {
                    if !d.is_empty() {
                        self.faults.push(Fault::Graphics);
                    }
                } else {
                    let (w, h) = (two(d, 1) * 8, two(d, 3));
                    let (sx, sy) = match n {
                        1 | 49 => (2, 1),
                        2 | 50 => (1, 2),
                        3 | 51 => (2, 2),
                        _ => (1, 1),
                    };
                    let pic = picture(w, h, rows_of_bits(w, h, &d[5..]), sx, sy, BLACK);
                    self.show(pic, Flow::Block);
                }
            }
            Op::Barcode => self.barcode(d),
            Op::Code2D => self.code2d(d[2], d[3], &d[4..]),
            Op::Graphics => self.graphics(d[3], &d[4..]),
            Op::LargeGraphics => self.graphics(d[5], &d[6..]),
            // ---- everything else ends the text before it
            _ => {
                self.flush();
                self.control(f.op, d, d0, n);
            }
        }
        if TRAIL.with(|t| t.get()) {
            self.trail.push(self.st.digest());
        }
    }

    fn control(&mut self, op: Op, d: &[u8], d0: Option<u8>, n: u8) {
        let st = &mut self.st;
        match op {
            Op::Init => {
                let y = st.y;
                *st = State::power_on();
                st.y = y;
            }
            Op::DefaultLineSpacing => st.style.spacing = 24,
            Op::LineSpacing => st.style.spacing = d0.unwrap_or(24) as u32,
            Op::Justify => {
                st.style.just = match n {
                    1 | 49 => Just::Center,
                    2 | 50 => Just::Right,
                    _ => Just::Left,
                }
            }
            Op::TabLen => {
                let (len, at) = (d0.unwrap_or(24), d.get(1).copied().unwrap_or(24) as usize);
                if let Some(t) = st.style.tabs.get_mut(at) {
                    *t = len;
                }
            }
            Op::MotionUnits => {
                let (x, y) = (n, d.get(1).copied().unwrap_or(0));
                if x != 0 && y != 0 {
                    st.h_unit = (st.dpi / x as u32).max(1);
                    st.v_unit = (st.dpi / y as u32).max(1);
                }
            }
            Op::BarHeight => st.bar_h = n as u32,
            Op::BarWidth => {
                let w = d0.unwrap_or(2).max(2);
                if w <= 6 {
                    st.bar_w = w as u32;
                }
            }
            Op::BarFont => st.bar_font = font_of(n),
            Op::BarHri => {
                st.hri = match n {
                    1 | 49 => 1,
                    2 | 50 => 2,
                    3 | 51 => 3,
                    _ => 0,
                }
            }
            Op::Feed => {
                st.move_y(n as u32);
                st.carriage();
            }
            Op::FeedLines => st.newline(n as u32),
            Op::ReverseFeedLines => {
                st.carriage();
                let up = st.style.spacing * n as u32;
                let y = if st.page.on { &mut st.page.cur.y } else { &mut st.y };
                *y = y.saturating_sub(up);
            }
            Op::Cut => {
                let cuts = matches!(n, 0 | 1 | 48 | 49 | 65 | 66 | 97 | 98 | 103 | 104);
                if cuts {
                    st.newline(2);
                }
                if cuts && !matches!(n, 0 | 1 | 48 | 49) {
                    st.move_y(d.get(1).copied().unwrap_or(0) as u32);
                    st.carriage();
                }
            }
            Op::PosX => {
                let x = two(d, 0) / st.h_unit;
                if !st.page.on {
                    st.x = x;
                } else {
                    let (p, c) = (st.page.page, &mut st.page.cur);
                    match st.page.dir {
                        0 => c.x = p.x + x,
                        1 => c.y = p.y + x,
                        2 => c.x = (p.x + c.w).saturating_sub(x),
                        _ => c.y = p.y + c.h.saturating_sub(x),
                    }
                }
            }
            Op::PosY => {
                if st.page.on {
                    let y = two(d, 0) / st.v_unit;
                    let (p, c) = (st.page.page, &mut st.page.cur);
                    match st.page.dir {
                        0 => c.y = p.y + y,
                        1 => c.x = p.x + c.w.saturating_sub(y),
                        2 => c.y = p.y + c.h.saturating_sub(y),
                        _ => c.x = p.x + y,
                    }
                }
            }
            Op::RelY => {
                if st.page.on {
                    let delta = two(d, 0) as u16 as i16 as i64 / st.v_unit as i64;
                    let c = &mut st.page.cur;
                    c.y = (c.y as i64 + delta).max(0) as u32;
                }
            }
            Op::PageMode => {
                st.page = Page::off();
                st.page.on = true;
                self.events.push(Ev::PageBegin);
            }
            Op::StdMode => st.page.on = false,
            Op::PageArea => {
                if st.page.on {
                    let mut a = Area {
                        x: two(d, 0) / st.h_unit,
                        y: two(d, 2) / st.v_unit,
                        w: two(d, 4) / st.h_unit,
                        h: two(d, 6) / st.v_unit,
                    };
                    a.x = a.x.min(PRINT_W);
                    a.w = a.w.min(PRINT_W - a.x);
                    st.page.logical = a;
                    st.page.prev = st.page.dir;
                    let (turn, w, h) = st.page.apply();
                    self.events.push(Ev::PageArea { turn, w, h });
                }
            }
            Op::PageDir => {
                if st.page.on {
                    let dir = match n {
                        1 | 49 => 1,
                        2 | 50 => 2,
                        3 | 51 => 3,
                        _ => 0,
                    };
                    st.page.prev = st.page.dir;
                    st.page.dir = dir;
                    let (turn, w, h) = st.page.apply();
                    self.events.push(Ev::PageArea { turn, w, h });
                }
            }
            Op::PagePrint => {
                if st.page.on {
                    self.print_page();
                }
            }
            Op::FormFeed => {
                if st.page.on {
                    st.page.on = false;
                    self.events.push(Ev::PageEnd);
                    self.print_page();
                } else {
                    self.events.push(Ev::End { y: st.y });
                    self.begin_document();
                }
            }
            // GS ( G, requests, sensors, pulse, cancel
            _ => {}
        }
    }

    fn print_page(&mut self) {
        let st = &mut self.st;
        self.events.push(Ev::PrintPage { x: st.x, y: st.y });
        st.y += st.page.paper_size().1;
        st.x = 0;
    }

    fn show(&mut self, pic: Stored, flow: Flow) {
        let (w, h, px) = match pic {
            Stored::Bad => return self.faults.push(Fault::Graphics),
            Stored::Pic { w, h, px } => (w, h, px),
        };
        self.flush();
        let st = &mut self.st;
        match flow {
            Flow::Inline => {
                if w > st.room() {
                    st.newline(1);
                }
            }
            Flow::Block => {
                if !st.page.on {
                    st.x = st.justified(w);
                }
            }
        }
        let pic = Pic { x: st.get_x(), y: st.get_y(), w, h, px };
        if w > 0 && h > 0 {
            self.events.push(Ev::Image { pic, page: st.page.on });
        }
        match flow {
            Flow::Inline => st.move_x(w),
            Flow::Block => {
                if !st.page.on {
                    st.y += h;
                    st.x = 0;
                }
            }
        }
    }

    fn rects(&mut self, rects: Vec<(u32, u32, u32, u32)>) {
        let color = self.st.style.fg;
        let page = self.st.page.on;
        self.events.push(Ev::Rects { color, rects, page });
    }

    fn barcode(&mut self, d: &[u8]) {
        let (kind, data) = match d.first() {
            None => return self.faults.push(Fault::Graphics),
            Some(k @ 0..=6) => {
                let end = d[1..].iter().position(|c| *c == 0).map_or(d.len(), |n| n + 1);
                (*k, &d[1..end])
            }
            Some(k @ 65..=79) => (*k, d.get(2..).unwrap_or(&[])),
            Some(k) => (*k, &d[1..1]),
        };
        let (bars, label) = match barcode::encode(kind, data) {
            Some(b) => b,
            None => return self.faults.push(Fault::Graphics),
        };
        self.flush();
        let mut look = self.st.look();
        look.font = self.st.bar_font;
        if self.st.hri & 1 != 0 {
            self.st.pending.push((label.clone(), look.clone()));
            self.flush();
            self.st.newline(1);
        }
        let st = &mut self.st;
        let (bw, bh) = (st.bar_w, st.bar_h);
        let x0 = st.justified(bars.len() as u32 * bw);
        st.set_x(0);
        let (left, y, width) = (st.get_x(), st.get_y(), st.width());
        let rects = bars
            .iter()
            .enumerate()
            .filter(|(i, b)| **b && x0 + *i as u32 * bw + bw <= width)
            .map(|(i, _)| (left + x0 + i as u32 * bw, y, bw, bh))
            .collect();
        self.rects(rects);
        let st = &mut self.st;
        st.carriage();
        st.move_y(bh);
        if self.st.hri & 2 != 0 {
            self.st.move_y(8);
            self.st.pending.push((label, look));
            self.flush();
            self.st.newline(1);
        }
    }

    fn code2d(&mut self, m: u8, f: u8, d: &[u8]) {
        let st = &self.st;
        if f == 81 {
            let symbol = match (&st.symbol, m) {
                (Some(s), _) => s.clone(),
                (None, 49) => return self.faults.push(Fault::Graphics),
                (None, _) => return,
            };
            self.flush();
            let st = &mut self.st;
            let x0 = st.justified(symbol.width * symbol.size);
            st.set_x(0);
            let (left, top, width, size) = (st.get_x(), st.get_y(), st.width(), symbol.size);
            let mut rects = vec![];
            for (i, dot) in symbol.dots.iter().enumerate() {
                let (cx, cy) = (i as u32 % symbol.width, i as u32 / symbol.width);
                if *dot && x0 + cx * size + size <= width {
                    rects.push((left + x0 + cx * size, top + cy * size, size, size));
                }
            }
            self.st.move_y(symbol.width * size);
            self.rects(rects);
            return;
        }
        self.flush();
        let st = &mut self.st;
        if m != 49 {
            return;
        }
        match f {
            65 => {
                st.qr_model = match d.first() {
                    Some(50) => 2,
                    Some(51) => 3,
                    _ => 1,
                }
            }
            67 => st.qr_size = d.first().copied().unwrap_or(1) as u32,
            69 => {
                st.qr_level = match d.first() {
                    Some(1 | 49) => 1,
                    Some(2 | 50) => 2,
                    Some(3 | 51) => 3,
                    _ => 0,
                }
            }
            80 => {
                st.symbol = barcode::qr(st.qr_model, st.qr_level, d.get(1..).unwrap_or(&[]))
                    .map(|(width, dots)| Symbol { width, size: st.qr_size, dots })
            }
            _ => {}
        }
    }

    fn graphics(&mut self, f: u8, d: &[u8]) {
        // prints
        match f {
            2 | 50 => {
                if !self.st.buffer.is_empty() {
                    let layers = std::mem::take(&mut self.st.buffer);
                    let pic = merge(&layers);
                    self.show(pic, Flow::Block);
                }
                return;
            }
            69 | 85 => {
                if d.len() >= 2 {
                    if let Some(pic) = self.st.stored.get(&(f == 85, d[0], d[1])).cloned() {
                        self.show(pic, Flow::Block);
                    }
                }
                return;
            }
            _ => {}
        }
        self.flush();
        let st = &mut self.st;
        match f {
            1 | 49 => {
                let (x, y) = (d.first().copied().unwrap_or(50), d.get(1).copied().unwrap_or(50));
                if (x, y) == (50, 50) {
                    st.dpi = 180;
                } else if (x, y) == (51, 51) {
                    st.dpi = 360;
                }
            }
            65 => st.stored.retain(|k, _| k.0),
            81 => st.stored.retain(|k, _| !k.0),
            66 | 82 => {
                if d.len() >= 2 {
                    st.stored.remove(&(f == 82, d[0], d[1]));
                }
            }
            67 | 68 | 83 | 84 => {
                if d.len() < 8 {
                    return;
                }
                let columns = f == 68 || f == 84;
                let (w, h) = (two(d, 4), two(d, 6));
                let layer = 1 + if columns {
                    (h as usize + 7) / 8 * w as usize
                } else {
                    (w as usize + 7) / 8 * h as usize
                };
                let body = &d[8..];
                let pic = if body.len() != layer * d[3] as usize {
                    Stored::Bad
                } else {
                    let layers: Vec<Stored> = body
                        .chunks(layer)
                        .map(|l| {
                            let bits = if columns {
                                columns_of_bits(w, h, &l[1..])
                            } else {
                                rows_of_bits(w, h, &l[1..])
                            };
                            picture(w, h, bits, 1, 1, color_no(l[0]))
                        })
                        .collect();
                    merge(&layers)
                };
                st.stored.insert((f >= 83, d[1], d[2]), pic);
            }
            112 | 113 => {
                let pic = if d.len() < 8 {
                    Stored::Bad
                } else {
                    let (w, h) = (two(d, 4), two(d, 6));
                    let bits = if f == 113 {
                        columns_of_bits(w, h, &d[8..])
                    } else {
                        rows_of_bits(w, h, &d[8..])
                    };
                    picture(w, h, bits, d[1] as u32, d[2] as u32, color_no(d[3]))
                };
                st.buffer.push(pic);
            }
            _ => {}
        }
    }

    /// Lays out and prints the pending text
    fn flush(&mut self) {
        let pending = std::mem::take(&mut self.st.pending);
        if pending.is_empty() {
            return;
        }
        let st = &mut self.st;
        let width = st.width();
        let mut lines: Vec<Vec<Span>> = vec![vec![]];

        fn feed(st: &mut State, lines: &mut Vec<Vec<Span>>) {
            let tallest = lines.last().unwrap().iter().map(|s| s.look.ch).max().unwrap_or(0);
            st.carriage();
            st.move_y(tallest.max(st.style.spacing));
            lines.push(vec![]);
        }
        fn place(st: &mut State, lines: &mut Vec<Vec<Span>>, text: String, look: &Look) {
            if text.is_empty() {
                return;
            }
            let (x, y) = (st.get_x(), st.get_y());
            st.move_x(text.chars().count() as u32 * look.cw);
            lines.last_mut().unwrap().push(Span { text, x, y, look: look.clone() });
        }

        for (text, look) in &pending {
            for word in text.split_inclusive(char::is_whitespace) {
                if word == "\n" {
                    feed(st, &mut lines);
                } else if word == "\t" {
                    let here = st.get_x().saturating_sub(st.base_x());
                    let mut stop = 0;
                    for t in st.style.tabs.clone() {
                        stop += t as u32 * look.cw;
                        if stop > here {
                            st.set_x(stop);
                            break;
                        }
                    }
                } else {
                    let chars: Vec<char> = word.chars().collect();
                    let w = chars.len() as u32 * look.cw;
                    if w <= st.room() {
                        place(st, &mut lines, word.to_string(), look);
                    } else if w <= width {
                        feed(st, &mut lines);
                        place(st, &mut lines, word.to_string(), look);
                    } else {
                        // too long for any line: fill this one and the next ones
                        let mut left = &chars[..];
                        let mut n = (st.room() / look.cw) as usize;
                        loop {
                            let (now, later) = left.split_at(n.min(left.len()));
                            place(st, &mut lines, now.iter().collect(), look);
                            left = later;
                            if left.is_empty() {
                                break;
                            }
                            feed(st, &mut lines);
                            n = ((width / look.cw) as usize).max(1);
                        }
                    }
                }
            }
        }

        let just = st.style.just;
        let base = st.base_x();
        for mut spans in lines {
            if spans.is_empty() {
                continue;
            }
            let start = spans.iter().map(|s| s.x).min().unwrap();
            let end = spans.iter().map(|s| s.x + s.text.chars().count() as u32 * s.look.cw).max().unwrap();
            let free = width.saturating_sub(end.saturating_sub(base));
            let shift = match just {
                Just::Left => 0,
                Just::Right => free,
                Just::Center => (width.saturating_sub(end - start) / 2).min(free),
            };
            for s in &mut spans {
                s.x += shift;
            }
            let max_height = spans.iter().map(|s| s.look.ch).max().unwrap();
            self.events.push(Ev::Line { spans, max_height, just, page: st.page.on });
        }
    }
}

thread_local! {
    /// whether the digests of all states along a run are kept
    pub static TRAIL: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
