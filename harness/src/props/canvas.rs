//! C13 the canvas
use crate::explore::{Explorer, Local};
use crate::spec::machine::{Look, Rgb, Span};
use crate::spec::paint::{Canvas, Surface};
use crate::sut;
use std::cell::RefCell;
use thermal_parser::context::{Context, Font, PrintDirection, Rotation, TextJustify};
use thermal_parser::graphics::{Image, ImageFlow, Rectangle, RGBA};
use thermal_parser::text::{Dimensions, TextSpan};
use thermal_renderer::image_renderer::thermal_image::ThermalImage;

/// the paper of these canvases is not white, so that what is grown is seen
const BASE: Rgb = [200, 210, 220, 255];

fn rgba(c: Rgb) -> RGBA {
    RGBA { r: c[0], g: c[1], b: c[2], a: c[3] }
}

/// Every pixel has a colour of its own; some of them are transparent
fn paint(n: usize, alphas: &[u8], seed: u32) -> Vec<Rgb> {
    (0..n as u32)
        .map(|i| {
            let k = i * 37 + seed * 101 + 5;
            let a = alphas[i as usize % alphas.len()];
            if a == 0 { [0, 0, 0, 0] } else { [(k % 256) as u8, (k / 3 % 256) as u8, (255 - k % 251) as u8, a] }
        })
        .collect()
}

#[derive(Clone, Debug, PartialEq)]
enum Op {
    Put { x: u32, y: u32, w: u32, h: u32, multiply: bool, clear: bool },
    /// pixels of another size than stated
    Wrong { x: u32, y: u32, w: u32, h: u32, n: usize },
    Rect { x: u32, y: u32, w: u32, h: u32, how: u8 },
    Img { x: u32, y: u32, w: u32, h: u32, mirror: bool },
    Flip { x: u32, y: u32, w: u32, h: u32 },
    Turn(u8),
    Page { dir: u8, w: u32, h: u32 },
    Width(u32),
    Right(u32),
    Height(u32),
    Top(u32),
    SetWidth(u32),
    Empty,
    Reset,
    Take,
}

/// the reference: a canvas, and whether something was refused
struct Ref {
    c: Canvas,
    grows: bool,
    refused: usize,
    taken: Vec<(u32, u32, Vec<u8>)>,
}

fn blend(p: Rgb, u: Rgb) -> Rgb {
    match p[3] {
        0 => u,
        255 => p,
        a => {
            let f = |i: usize| (p[i] as f64 * a as f64 / 255.0 + u[i] as f64 * (1.0 - a as f64 / 255.0)).round() as u8;
            [f(0), f(1), f(2), u[3]]
        }
    }
}

impl Ref {
    fn put(&mut self, x: u32, y: u32, w: u32, h: u32, px: &[Rgb], multiply: bool) {
        if x >= self.c.w || (!self.grows && y >= self.c.h) {
            self.refused += 1;
            return;
        }
        if self.grows {
            self.down(y + h);
        }
        for dy in 0..h {
            for dx in 0..w {
                if x + dx < self.c.w && y + dy < self.c.h {
                    let i = ((y + dy) * self.c.w + x + dx) as usize;
                    let p = px[(dy * w + dx) as usize];
                    self.c.px[i] = if multiply { crate::spec::paint::mix(p, self.c.px[i]) } else { blend(p, self.c.px[i]) };
                }
            }
        }
    }
    fn down(&mut self, h: u32) {
        if h > self.c.h && self.c.w > 0 {
            self.c.h = h;
            self.c.px.resize((self.c.w * h) as usize, BASE);
        }
    }
    fn mirror(&mut self, x: u32, y: u32, w: u32, h: u32) {
        if x + w > self.c.w || (!self.grows && y + h > self.c.h) {
            return;
        }
        self.down(y + h);
        let old = self.c.px.clone();
        for dy in 0..h {
            for dx in 0..w {
                self.c.px[((y + dy) * self.c.w + x + dx) as usize] = old[((y + h - 1 - dy) * self.c.w + x + dx) as usize];
            }
        }
    }
    fn resized(&mut self, w: u32, h: u32, from: impl Fn(u32, u32) -> Option<(u32, u32)>) {
        let mut px = vec![BASE; (w * h) as usize];
        for y in 0..h {
            for x in 0..w {
                if let Some((ox, oy)) = from(x, y) {
                    px[(y * w + x) as usize] = self.c.px[(oy * self.c.w + ox) as usize];
                }
            }
        }
        self.c = Canvas { w, h: if w == 0 { 0 } else { h }, px };
    }
    fn turn(&mut self, quarters: u8) {
        let (w, h) = (self.c.w, self.c.h);
        match quarters {
            1 => self.resized(h, w, |x, y| Some((y, h - 1 - x))),
            2 => self.resized(w, h, |x, y| Some((w - 1 - x, h - 1 - y))),
            3 => self.resized(h, w, |x, y| Some((w - 1 - y, x))),
            _ => {}
        }
    }
    fn apply(&mut self, op: &Op) {
        let (cw, ch) = (self.c.w, self.c.h);
        match *op {
            Op::Put { x, y, w, h, multiply, clear } => {
                let px = paint((w * h) as usize, if clear { &[255, 0, 128] } else { &[255] }, x);
                self.put(x, y, w, h, &if multiply { opaque(px) } else { px }, multiply)
            }
            Op::Wrong { .. } => self.refused += 1,
            Op::Rect { x, y, w, h, how } => self.put(x, y, w, h, &vec![tint(how); (w * h) as usize], how != 2),
            Op::Img { x, y, w, h, mirror } => {
                self.put(x, y, w, h, &opaque(paint((w * h) as usize, &[255, 0], y)), true);
                if mirror {
                    self.mirror(x, y, w, h);
                }
            }
            Op::Flip { x, y, w, h } => self.mirror(x, y, w, h),
            Op::Turn(q) => self.turn(q),
            Op::Page { dir, w, h } => {
                // seen from above it is enlarged to the right and to the bottom
                let (w, h) = if dir % 2 == 1 { (h, w) } else { (w, h) };
                self.turn((4 - dir) % 4);
                let (ow, oh) = (self.c.w, self.c.h);
                let nw = w.max(ow);
                let nh = if nw == 0 { 0 } else { h.max(oh) };
                self.resized(nw, nh, |x, y| (x < ow && y < oh).then_some((x, y)));
                self.turn(dir);
            }
            Op::Width(n) => {
                if n >= cw {
                    let left = (n - cw) / 2;
                    self.resized(n, ch, |x, y| (x >= left && x < left + cw).then(|| (x - left, y)));
                }
            }
            Op::Right(n) => {
                if n > cw {
                    self.resized(n, ch, |x, y| (x < cw).then_some((x, y)));
                }
            }
            Op::Height(n) => self.down(n),
            Op::Top(n) => {
                if cw > 0 {
                    self.resized(cw, ch + n, |x, y| (y >= n).then(|| (x, y - n)))
                }
            }
            Op::SetWidth(n) => self.c = Canvas::empty(n),
            Op::Empty | Op::Reset => self.c = Canvas::empty(cw),
            Op::Take => {
                let bytes = self.c.px.iter().flat_map(|p| [p[0], p[1], p[2]]).collect();
                self.taken.push((cw, ch, bytes));
                self.c = Canvas::empty(0);
            }
        }
    }
}
fn opaque(px: Vec<Rgb>) -> Vec<Rgb> {
    px.into_iter().map(|p| if p[3] == 128 { [p[0], p[1], p[2], 255] } else { p }).collect()
}
fn tint(how: u8) -> Rgb {
    [[0, 0, 0, 255], [30, 200, 90, 255], [1, 2, 3, 255], [9, 9, 9, 0]][how as usize]
}

struct Real {
    taken: Vec<(u32, u32, Vec<u8>)>,
}

fn apply(t: &mut ThermalImage, op: &Op, real: &mut Real) {
    let list = |px: Vec<Rgb>| px.into_iter().map(rgba).collect::<Vec<RGBA>>();
    match *op {
        Op::Put { x, y, w, h, multiply, clear } => {
            let px = paint((w * h) as usize, if clear { &[255, 0, 128] } else { &[255] }, x);
            t.put_pixels(x, y, w, h, list(if multiply { opaque(px) } else { px }), false, multiply);
        }
        Op::Wrong { x, y, w, h, n } => {
            t.put_pixels(x, y, w, h, list(paint(n, &[255], 0)), false, false);
        }
        Op::Rect { x, y, w, h, how } => match how {
            0 => t.put_rect(&Rectangle { x, y, w, h }, &rgba(tint(how))),
            h3 => t.draw_rect(x, y, w, h, &rgba(tint(how)), h3 != 2),
        },
        Op::Img { x, y, w, h, mirror } => t.put_render_img(&Image {
            pixels: list(opaque(paint((w * h) as usize, &[255, 0], y))),
            x,
            y,
            w,
            h,
            flow: ImageFlow::Block,
            upside_down: mirror,
        }),
        Op::Flip { x, y, w, h } => t.flip_pixels(x, y, w, h),
        Op::Turn(q) => t.rotate(&[Rotation::R0, Rotation::R90, Rotation::R180, Rotation::R270][q as usize]),
        Op::Page { dir, w, h } => {
            let mut page = Context::new().page_mode;
            page.direction = match dir {
                0 => PrintDirection::TopLeft2Right,
                1 => PrintDirection::BottomLeft2Top,
                2 => PrintDirection::BottomRight2Left,
                _ => PrintDirection::TopRight2Bottom,
            };
            t.grow_page(&page, w, h)
        }
        Op::Width(n) => t.expand_to_width(n),
        Op::Right(n) => t.expand_right(n),
        Op::Height(n) => t.expand_to_height(n),
        Op::Top(n) => t.add_top_margin(n),
        Op::SetWidth(n) => t.set_width(n),
        Op::Empty => t.empty(),
        Op::Reset => t.reset(),
        Op::Take => real.taken.push(t.consume_rgb_u8()),
    }
}

thread_local! {
    static IMAGE: RefCell<Option<ThermalImage>> = const { RefCell::new(None) };
}

/// a canvas like `start`
fn fresh<T>(start: &Canvas, grows: bool, f: impl FnOnce(&mut ThermalImage) -> T) -> T {
    let mut t = IMAGE.with(|i| i.borrow_mut().take()).unwrap_or_else(|| ThermalImage::new(1));
    t.paper_color = rgba(BASE);
    t.auto_grow = true;
    t.debug_profile = Default::default();
    t.errors.clear();
    t.set_width(start.w);
    t.put_pixels(0, 0, start.w, start.h, start.px.iter().map(|p| rgba(*p)).collect(), false, false);
    t.errors.clear();
    t.auto_grow = grows;
    let r = f(&mut t);
    IMAGE.with(|i| *i.borrow_mut() = Some(t));
    r
}

fn same(t: &mut ThermalImage, want: &Canvas) -> Result<(), String> {
    let (w, h, px) = t.copy();
    if (w, h) != (want.w, want.h) || px.len() as u64 != w as u64 * h as u64 || t.get_height() != h || t.width != w {
        return Err(format!("{w}x{h} with {} pixels instead of {}x{}", px.len(), want.w, want.h));
    }
    for (i, p) in px.iter().enumerate() {
        if [p.r, p.g, p.b, p.a] != want.px[i] {
            return Err(format!("pixel {},{} is {p:?} instead of {:?}", i as u32 % w, i as u32 / w, want.px[i]));
        }
    }
    Ok(())
}

fn history(start: &Canvas, grows: bool, ops: &[&Op], l: &mut Local) -> Result<(), String> {
    let mut want = Ref { c: start.clone(), grows, refused: 0, taken: vec![] };
    let mut real = Real { taken: vec![] };
    fresh(start, grows, |t| {
        for (i, op) in ops.iter().enumerate() {
            let before = t.errors.len();
            want.refused = 0;
            apply(t, op, &mut real);
            want.apply(op);
            l.transitions += 1;
            let done = || format!("after {:?} on {}x{} {}", &ops[..=i], start.w, start.h, if grows { "growing" } else { "fixed" });
            same(t, &want.c).map_err(|e| format!("{e} {}", done()))?;
            // whether nothing can be outside is nothing to rely on
            let nothing = matches!(op, Op::Put { w, h, .. } | Op::Rect { w, h, .. } | Op::Img { w, h, .. } | Op::Flip { w, h, .. } if w * h == 0);
            if !nothing && (t.errors.len() > before) != (want.refused > 0) {
                return Err(format!("errors {:?} instead of {} {}", &t.errors[before..], want.refused, done()));
            }
            if real.taken != want.taken {
                return Err(format!("bytes {:?} instead of {:?} {}", real.taken, want.taken, done()));
            }
            l.state((want.c.w, want.c.h, &want.c.px));
        }
        l.runs += 1;
        Ok(())
    })
}

/// blocks at all of these places
fn blocks(x: &[u32], y: &[u32], w: &[u32], h: &[u32], mut f: impl FnMut(u32, u32, u32, u32)) {
    for &x in x {
        for &y in y {
            for &w in w {
                for &h in h {
                    f(x, y, w, h)
                }
            }
        }
    }
}

fn operations(x: &[u32], s: &[u32], all: bool) -> Vec<Op> {
    let mut v = vec![];
    blocks(x, x, s, s, |x, y, w, h| {
        for multiply in [false, true] {
            v.push(Op::Put { x, y, w, h, multiply, clear: false });
            if all {
                v.push(Op::Put { x, y, w, h, multiply, clear: true });
            }
        }
        for how in if all { 0..4 } else { 1..2 } {
            v.push(Op::Rect { x, y, w, h, how });
        }
        for mirror in [false, true] {
            if all || mirror {
                v.push(Op::Img { x, y, w, h, mirror });
            }
        }
        v.push(Op::Flip { x, y, w, h });
        if all {
            for n in [0usize, 1, 2, 3, 5, 20] {
                if n != (w * h) as usize {
                    v.push(Op::Wrong { x, y, w, h, n });
                }
            }
        }
    });
    v.extend([1, 2, 3].map(Op::Turn));
    let n: &[u32] = if all { &[0, 1, 2, 3, 4, 5, 6, 7] } else { &[1, 4] };
    for &k in n {
        v.extend([Op::Width(k), Op::Right(k), Op::Height(k), Op::Top(k)]);
        if all {
            v.push(Op::SetWidth(k));
        }
        for &j in n {
            if all || j != k {
                v.extend((0..4).map(|dir| Op::Page { dir, w: k, h: j }));
            }
        }
    }
    v.extend([Op::Take, Op::Empty, Op::Reset, Op::Turn(0)]);
    v
}

fn canvases(n: u32) -> Vec<Canvas> {
    let mut v = vec![];
    for w in 0..=n {
        for h in 0..=n {
            let h = if w == 0 { 0 } else { h };
            v.push(Canvas { w, h, px: paint((w * h) as usize, &[255], 77) });
        }
    }
    v.dedup_by(|a, b| (a.w, a.h) == (b.w, b.h));
    v
}

fn histories(e: &mut Explorer, name: &str, starts: &[Canvas], ops: &[Op], depth: u32) {
    let n = ops.len() as u64;
    let per: u64 = n.pow(depth);
    let total = per * starts.len() as u64 * 2;
    e.cases(name, total, |_| None, |i, l| {
        let (start, grows) = (&starts[(i / per / 2) as usize], i / per % 2 == 0);
        let mut k = i % per;
        let mut list = vec![];
        for _ in 0..depth {
            list.push(&ops[(k % n) as usize]);
            k /= n;
        }
        history(start, grows, &list, l)
    });
}

fn span_of(s: &Span, w: u32) -> TextSpan {
    let l = &s.look;
    TextSpan {
        font: match l.font {
            'B' => Font::B,
            'C' => Font::C,
            _ => Font::A,
        },
        character_width: l.cw,
        character_height: l.ch,
        base_character_width: l.bw,
        base_character_height: l.bh,
        text: s.text.clone(),
        bold: l.bold,
        italic: l.italic,
        underline: l.underline,
        strikethrough: l.strike,
        stretch_width: l.cw as f32 / l.bw as f32,
        stretch_height: l.ch as f32 / l.bh as f32,
        inverted: l.inverted,
        upside_down: l.upside_down,
        justify: TextJustify::Left,
        dimensions: Some(Dimensions { x: s.x, y: s.y, w, h: l.ch }),
        background_color: rgba(l.bg),
        text_color: rgba(l.fg),
    }
}

fn looks(all: bool) -> Vec<Look> {
    let mut v = vec![];
    let colors: [(Rgb, Rgb); 4] = [
        ([0, 0, 0, 255], [255, 255, 255, 255]),
        ([255, 255, 255, 255], [0, 0, 0, 255]),
        ([158, 22, 22, 255], [255, 255, 255, 255]),
        ([20, 40, 60, 255], [90, 160, 220, 255]),
    ];
    for (font, bw, bh) in [('A', 12, 24), ('B', 10, 24), ('C', 8, 16)] {
        for (mx, my) in [(1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (1, 4)] {
            for bits in 0..if all { 16 } else { 8u32 } {
                for (i, (fg, bg)) in colors.iter().enumerate() {
                    for lines in 0..4u32 {
                        if !all && i != (bits % 4) as usize {
                            continue;
                        }
                        v.push(Look {
                            font,
                            bw,
                            bh,
                            cw: bw * mx,
                            ch: bh * my,
                            bold: bits & 1 > 0,
                            italic: bits & 2 > 0,
                            upside_down: bits & 4 > 0,
                            inverted: bits & 8 > 0,
                            underline: lines % 2 * (1 + bits % 2),
                            strike: lines / 2 * (1 + bits / 2 % 2),
                            fg: *fg,
                            bg: *bg,
                        });
                    }
                }
            }
        }
    }
    v
}

pub fn c13(e: &mut Explorer) {
    e.assumptions = vec!["glyph shapes are those of the font rasteriser (fontdue), at a pixel size given by the font; their placement in the cell is the model's".into()];
    let every = operations(&[0, 1, 2, 3, 4, 6], &[0, 1, 2, 3, 4], true);
    histories(e, "operations", &canvases(4), &every, 1);
    let some = operations(&[0, 1, 3], &[0, 1, 2], true);
    histories(e, "pairs of operations", &canvases(e.pick(2, 3)), &some, 2);
    let few = operations(&[0, 1, 3], &[1, 2], false);
    histories(e, "pairs", &canvases(3), &few, 2);
    let least = operations(&[0, 2], &[2], false);
    let starts: Vec<Canvas> = canvases(3).into_iter().filter(|c| [(0, 0), (1, 2), (3, 2), (3, 0)].contains(&(c.w, c.h))).collect();
    histories(e, "sequences", &starts, &least, 4);
    if e.thorough() {
        let tiny: Vec<Op> = least.iter().step_by(2).cloned().collect();
        histories(e, "long sequences", &starts, &tiny, 6);
    }

    // canvases whose sizes, and numbers of pixels, do not fit into a byte or two
    let large: Vec<Canvas> = [(300u32, 3u32), (3, 300), (256, 257), (70, 1000), (700, 255)].iter().map(|(w, h)| Canvas { w: *w, h: *h, px: paint((w * h) as usize, &[255], 77) }).collect();
    let mut far = operations(&[0, 1, 255, 299], &[1, 256, 300], false);
    for n in [255u32, 256, 257, 300, 700] {
        far.extend([Op::Width(n), Op::Right(n), Op::Height(n), Op::Top(n), Op::SetWidth(n)]);
        far.extend((0..4).map(|dir| Op::Page { dir, w: n, h: 300 }));
    }
    histories(e, "large canvases", &large, &far, 1);
    let turns: Vec<Op> = far.iter().filter(|o| matches!(o, Op::Turn(_) | Op::Page { .. } | Op::Height(_) | Op::Take)).cloned().collect();
    histories(e, "large canvases turned", &large[..3], &turns, 2);

    // the shape of a canvas, when it is turned, enlarged and handed out
    let sides = [1u32, 2, 3, 5, 8, 9, 16, 17, 31, 32, 33, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 301, 320, 400, 511, 512, 513, 600, 609, 649, 700, 1000, 1023, 1025];
    let n = sides.len() as u64;
    e.cases("shapes", n * n * 8, |_| None, |i, l| {
        let (w, h) = (sides[(i % n) as usize], sides[(i / n % n) as usize]);
        let (start, t) = (Canvas { w, h, px: paint((w * h) as usize, &[255], 77) }, (i / n / n) as u8);
        match t {
            0..=3 => history(&start, false, &[&Op::Turn(t), &Op::Take], l),
            4 => history(&start, false, &[&Op::Page { dir: 0, w: w + 1, h }, &Op::Page { dir: 1, w: w + 1, h: h + 1 }], l),
            5 => history(&start, false, &[&Op::Page { dir: 2, w, h: h + 1 }, &Op::Page { dir: 3, w: w + 1, h: h + 1 }], l),
            6 => history(&start, true, &[&Op::Width(w + 3), &Op::Top(1), &Op::Right(w + 4)], l),
            _ => history(&start, true, &[&Op::Flip { x: 0, y: 0, w, h }, &Op::Height(h + 1)], l),
        }
    });

    // over and over
    let over = operations(&[0, 1], &[1, 2], false);
    let times = [300usize, 1100];
    e.cases("lots", (over.len() * over.len() * 2) as u64, |_| None, |i, l| {
        let k = over.len() as u64;
        let (a, b) = (&over[(i % k) as usize], &over[(i / k % k) as usize]);
        let n = if i / k / k == 0 { 40 } else if i % k == i / k % k { times[1] } else { return Ok(()) };
        let ops: Vec<&Op> = (0..n).flat_map(|_| [a, b]).collect();
        history(&starts[0], true, &ops, l).map_err(|m| format!("{n} times {m}"))
    });

    // colours on colours
    let values: Vec<u8> = if e.thorough() { (0..=255).collect() } else { (0..=255).step_by(3).chain([1, 127, 128, 254]).collect() };
    let n = values.len() as u64;
    e.cases("colours", n * n, |_| None, |i, l| {
        let (p, u) = (values[(i % n) as usize], values[(i / n) as usize]);
        for a in [0, 1, 60, 128, 254, 255] {
            let under: Rgb = [u, 255 - u, 10, 255];
            let over: Rgb = [p, p / 2, 255 - p, a];
            let mut c = rgba(under);
            c.blend_foreground(&rgba(over));
            let want = blend(over, under);
            if (0..3).any(|k| [c.r, c.g, c.b][k].abs_diff(want[k]) > (a % 255 != 0) as u8) {
                return Err(format!("{over:?} over {under:?} is {c:?} instead of {want:?}"));
            }
            if a == 0 || a == 255 {
                let mut c = rgba(under);
                c.multiply_foreground(&rgba(over));
                let want = crate::spec::paint::mix(over, under);
                if [c.r, c.g, c.b, c.a] != want {
                    return Err(format!("{over:?} on {under:?} is {c:?} instead of {want:?}"));
                }
            }
            l.transitions += 2;
        }
        l.runs += 1;
        l.state((p, u));
        Ok(())
    });

    // cut, scaled and framed bitmaps
    let m = e.pick(7u64, 10);
    e.cases("cut", m.pow(4) * 2, |_| None, |i, l| {
        let a = |k: u32| (i / 2 / m.pow(k) % m) as u32;
        let (w, h, mw, mh, crop) = (a(0), a(1), a(2), a(3), i % 2 == 0);
        let px = paint((w * h) as usize, &[255, 0], 3);
        let got = ThermalImage::crop_pixels(&px.iter().map(|p| rgba(*p)).collect::<Vec<_>>(), w, h, mw, mh, crop);
        let (nw, nh) = (w.min(mw), if crop { h.min(mh) } else { h });
        let want: Vec<Rgb> = (0..nh).flat_map(|y| (0..nw).map(move |x| (x, y))).map(|(x, y)| px[(y * w + x) as usize]).collect();
        l.runs += 1;
        l.transitions += 1;
        l.state((w, h, mw, mh));
        if (got.0, got.1) != (nw, nh) || got.2.iter().map(sut::rgb).ne(want) {
            return Err(format!("{w}x{h} cut to {mw}x{mh}: {got:?}"));
        }
        Ok(())
    });
    let k = e.pick(8u64, 12);
    e.cases("scaled", 4 * k.pow(4), |_| None, |i, l| {
        let a = |j: u32| (i / 4 / k.pow(j) % k) as u32 + 1;
        let (w, h, mx, my) = (a(0), a(1), a(2), a(3));
        // larger, smaller, or one of each
        let (w, h, sw, sh) = match i % 4 {
            0 => (w, h, w * mx, h * my),
            1 => (w * mx, h * my, w, h),
            2 => (w, h * my, w * mx, h),
            _ => (w * mx, h, w, h * my),
        };
        let px = paint((w * h) as usize, &[255, 0], 3);
        let got = ThermalImage::scale_bitmap(&px.iter().map(|p| rgba(*p)).collect::<Vec<_>>(), w, h, sw, sh);
        l.runs += 1;
        l.transitions += 1;
        l.state((w, h, sw, sh));
        for y in 0..sh {
            for x in 0..sw {
                let want = px[((y * h / sh) * w + x * w / sw) as usize];
                if got.get((y * sw + x) as usize).map(sut::rgb) != Some(want) {
                    return Err(format!("{w}x{h} scaled to {sw}x{sh}: pixel {x},{y} {:?} instead of {want:?}", got.get((y * sw + x) as usize)));
                }
            }
        }
        if got.len() as u32 != sw * sh {
            return Err(format!("{} pixels", got.len()));
        }
        Ok(())
    });
    e.cases("framed", 20 * 20, |_| None, |i, l| {
        let (w, h) = ((i % 20) as u32, (i / 20) as u32);
        let px = paint((w * h) as usize, &[255], 3);
        let mut got: Vec<RGBA> = px.iter().map(|p| rgba(*p)).collect();
        ThermalImage::draw_border(&mut got, w, h, &rgba([1, 2, 3, 255]));
        l.runs += 1;
        l.transitions += 1;
        l.state((w, h));
        for y in 0..h {
            for x in 0..w {
                let edge = x == 0 || y == 0 || x == w - 1 || y == h - 1;
                let want = if edge { [1, 2, 3, 255] } else { px[(y * w + x) as usize] };
                if sut::rgb(&got[(y * w + x) as usize]) != want {
                    return Err(format!("{w}x{h} framed: pixel {x},{y}"));
                }
            }
        }
        Ok(())
    });

    // text
    let styles = looks(e.thorough());
    let texts = ["", "A", "g|", "é#", "A\u{7}B", " x "];
    let starts = [(0u32, 0u32), (1, 1), (20, 5), (40, 30), (60, 100), (300, 0)];
    let at = [(0u32, 0u32, 0u32), (3, 2, 0), (0, 7, 5), (15, 25, 4), (59, 99, 0), (300, 0, 0)];
    let tall = [0u32, 1, 24, 70];
    let n = [styles.len(), texts.len(), starts.len(), at.len(), tall.len(), 2].map(|n| n as u64);
    let total: u64 = n.iter().product();
    e.cases("text", total, |_| None, |i, l| {
        let mut k = i;
        let mut next = |n: u64| {
            let r = (k % n) as usize;
            k /= n;
            r
        };
        let grows = next(n[5]) == 0;
        let more = tall[next(n[4])];
        let (x, y, offset) = at[next(n[3])];
        let (w, h) = starts[next(n[2])];
        let text = texts[next(n[1])];
        let look = &styles[next(n[0])];
        let start = Canvas { w, h, px: vec![BASE; (w * h) as usize] };
        let span = Span { text: text.into(), x, y, look: look.clone() };
        let tallest = look.ch + more;
        let mut want = start.clone();
        let mut outside = false;
        let placed = Span { x: x + offset, ..span.clone() };
        Surface { c: &mut want, fixed: !grows, dir: 0, oob: &mut outside, paper: BASE }.span(&placed, tallest);
        let real = span_of(&span, text.chars().count() as u32 * look.cw);
        l.runs += 1;
        l.transitions += text.chars().count() as u64 + 1;
        l.state((look.cw, look.ch, x, y, w, h, more, outside));
        fresh(&start, grows, |t| {
            t.render_span(offset, tallest, &real);
            same(t, &want).map_err(|e| format!("{e}: {span:?} from {offset} on {w}x{h} {} tallest {tallest}", if grows { "growing" } else { "fixed" }))?;
            if t.errors.is_empty() == outside && !text.is_empty() {
                return Err(format!("errors {:?}: {span:?} on {w}x{h}", t.errors));
            }
            // a span without a place is not printed
            let nowhere = TextSpan { dimensions: None, ..real };
            t.render_span(offset, tallest, &nowhere);
            same(t, &want)
        })
    });
}
