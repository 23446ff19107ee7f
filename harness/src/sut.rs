//! Runs the real parser and renderers and records what they do.
use crate::spec::machine::{Ev, Fault, Just, Look, Pic, Rgb, Span};
use std::cell::{Cell, RefCell};
use thermal_parser::command::DeviceCommand;
use thermal_parser::context::{Context, Font, Rotation, TextJustify};
use thermal_parser::graphics::{Image, VectorGraphic, RGBA};
use thermal_renderer::html_renderer::{HtmlRenderer, ReceiptHtml};
use thermal_renderer::image_renderer::{ImageRenderer, ReceiptImage};
use thermal_renderer::renderer::{DebugProfile, OutputRenderer, Renderer};

/// How the lists of the crate are handed over
mod lists {
    include!(concat!(env!("OUT_DIR"), "/lists.rs"));
}

#[derive(Clone, Copy, PartialEq, Debug, Default)]
pub struct Level {
    /// paint the paper
    pub image: bool,
    /// with margins, as the bytes handed to the user; always without the inner parts
    pub full: bool,
    pub html: bool,
    pub debug: bool,
}

pub const EV: Level = Level { image: false, full: false, html: false, debug: false };
pub const IMG: Level = Level { image: true, full: false, html: false, debug: false };
pub const FULL: Level = Level { image: true, full: true, html: false, debug: false };
pub const HTML: Level = Level { image: false, full: false, html: true, debug: false };
pub const ALL: Level = Level { image: true, full: true, html: true, debug: false };
/// paper and document, without the slow margins
pub const ALLX: Level = Level { image: true, full: false, html: true, debug: false };

pub struct Paper {
    pub w: u32,
    pub h: u32,
    pub px: Vec<Rgb>,
}

pub struct DocOut {
    pub events: Vec<Ev>,
    pub paper: Option<Paper>,
    /// width, height and number of bytes
    pub image_size: Option<(u32, u32, usize)>,
    pub html: Option<String>,
}

pub struct Job {
    pub docs: Vec<DocOut>,
    pub faults: Vec<Fault>,
    pub child_errors: usize,
    pub errors: Vec<String>,
}

struct Tee {
    events: Vec<Ev>,
    image: ImageRenderer,
    html: HtmlRenderer,
}

thread_local! {
    static LEVEL: Cell<Level> = const { Cell::new(EV) };
    static TEE: RefCell<Option<Box<dyn OutputRenderer<DocOut>>>> = const { RefCell::new(None) };
}

pub fn rgb(c: &RGBA) -> Rgb {
    if c.a == 0 { [0, 0, 0, 0] } else { [c.r, c.g, c.b, c.a] }
}

pub fn just(j: &TextJustify) -> Just {
    match j {
        TextJustify::Left => Just::Left,
        TextJustify::Center => Just::Center,
        TextJustify::Right => Just::Right,
    }
}

pub fn font(f: &Font) -> char {
    match f {
        Font::A => 'A',
        Font::B => 'B',
        Font::C => 'C',
        Font::D => 'D',
        Font::E => 'E',
        Font::SpecialA => 's',
        Font::SpecialB => 't',
    }
}

pub fn turn(r: &Rotation) -> u8 {
    match r {
        Rotation::R0 => 0,
        Rotation::R90 => 1,
        Rotation::R180 => 2,
        Rotation::R270 => 3,
    }
}

fn again(r: &Rotation) -> Rotation {
    match r {
        Rotation::R0 => Rotation::R0,
        Rotation::R90 => Rotation::R90,
        Rotation::R180 => Rotation::R180,
        Rotation::R270 => Rotation::R270,
    }
}

impl Tee {
    fn level(&self) -> Level {
        LEVEL.with(|l| l.get())
    }
}

impl OutputRenderer<DocOut> for Tee {
    fn set_debug_profile(&mut self, profile: DebugProfile) {
        self.events.clear();
        self.image.set_debug_profile(profile);
        self.html.set_debug_profile(profile);
    }
    fn begin_render(&mut self, context: &mut Context) {
        self.events.push(Ev::Begin { y: context.get_y() });
        if self.level().image {
            self.image.begin_render(context);
        }
        if self.level().html {
            self.html.begin_render(context);
        }
    }
    fn page_begin(&mut self, context: &mut Context) {
        self.events.push(Ev::PageBegin);
        if self.level().image {
            self.image.page_begin(context);
        }
        if self.level().html {
            self.html.page_begin(context);
        }
    }
    fn page_area_changed(&mut self, context: &mut Context, rotation: Rotation, width: u32, height: u32) {
        // outside of page mode there is no page to change
        if context.page_mode.enabled {
            self.events.push(Ev::PageArea { turn: turn(&rotation), w: width, h: height });
        }
        if self.level().html {
            self.html.page_area_changed(context, again(&rotation), width, height);
        }
        if self.level().image {
            self.image.page_area_changed(context, rotation, width, height);
        }
    }
    fn page_end(&mut self, context: &mut Context) {
        self.events.push(Ev::PageEnd);
        if self.level().image {
            self.image.page_end(context);
        }
        if self.level().html {
            self.html.page_end(context);
        }
    }
    fn render_page(&mut self, context: &mut Context) {
        self.events.push(Ev::PrintPage { x: context.graphics.render_area.x, y: context.graphics.render_area.y });
        if self.level().image {
            self.image.render_page(context);
        }
        if self.level().html {
            self.html.render_page(context);
        }
    }
    fn render_graphics(&mut self, context: &mut Context, graphics: &lists::Graphics) {
        let rects = graphics
            .iter()
            .map(|g| match g {
                VectorGraphic::Rectangle(r) => (r.x, r.y, r.w, r.h),
            })
            .collect();
        self.events.push(Ev::Rects { color: rgb(&context.text.color), rects, page: context.page_mode.enabled });
        if self.level().image {
            self.image.render_graphics(context, graphics);
        }
        if self.level().html {
            self.html.render_graphics(context, graphics);
        }
    }
    fn render_image(&mut self, context: &mut Context, image: &Image) {
        let px = image.pixels.iter().map(rgb).collect();
        let pic = Pic { x: image.x, y: image.y, w: image.w, h: image.h, px };
        self.events.push(Ev::Image { pic, page: context.page_mode.enabled });
        if self.level().image {
            self.image.render_image(context, image);
        }
        if self.level().html {
            self.html.render_image(context, image);
        }
    }
    fn render_text(
        &mut self,
        context: &mut Context,
        spans: &lists::Spans,
        x_offset: u32,
        max_height: u32,
        text_justify: TextJustify,
    ) {
        let mut line = vec![];
        for s in spans {
            let Some(d) = &s.dimensions else { continue };
            line.push(Span {
                text: s.text.clone(),
                x: d.x + x_offset,
                y: d.y,
                look: Look {
                    font: font(&s.font),
                    bw: s.base_character_width,
                    bh: s.base_character_height,
                    cw: s.character_width,
                    ch: s.character_height,
                    bold: s.bold,
                    italic: s.italic,
                    underline: s.underline,
                    strike: s.strikethrough,
                    inverted: s.inverted,
                    upside_down: s.upside_down,
                    fg: rgb(&s.text_color),
                    bg: rgb(&s.background_color),
                },
            });
        }
        self.events.push(Ev::Line {
            spans: line,
            max_height,
            just: just(&text_justify),
            page: context.page_mode.enabled,
        });
        if self.level().image {
            self.image.render_text(context, spans, x_offset, max_height, text_justify.clone());
        }
        if self.level().html {
            self.html.render_text(context, spans, x_offset, max_height, text_justify);
        }
    }
    fn device_command(&mut self, context: &mut Context, command: &DeviceCommand) {
        if self.level().image {
            self.image.device_command(context, command);
        }
        if self.level().html {
            self.html.device_command(context, command);
        }
    }
    fn get_render_errors(&mut self) -> Vec<String> {
        let mut e = vec![];
        if self.level().image {
            e.extend(self.image.get_render_errors());
        }
        if self.level().html {
            e.extend(self.html.get_render_errors());
        }
        e
    }
    fn end_render(&mut self, context: &mut Context) -> DocOut {
        let level = self.level();
        self.events.push(Ev::End { y: context.graphics.render_area.y });
        let (mut paper, mut image_size) = (None, None);
        if level.image {
            #[cfg(feature = "inner")]
            if !level.full {
                let (w, h, px) = self.image.paper_image.copy();
                paper = Some(Paper { w, h, px: px.iter().map(|c| [c.r, c.g, c.b, c.a]).collect() });
            }
            if paper.is_none() {
                let r: ReceiptImage = self.image.end_render(context);
                image_size = Some((r.width, r.height, r.bytes.len()));
                let px = r.bytes.chunks_exact(3).map(|c| [c[0], c[1], c[2], 255]).collect();
                paper = Some(Paper { w: r.width, h: r.height, px });
            }
        }
        let html = level.html.then(|| {
            let r: ReceiptHtml = self.html.end_render(context);
            r.content
        });
        DocOut { events: std::mem::take(&mut self.events), paper, image_size, html }
    }
}

pub fn profile(on: bool) -> DebugProfile {
    DebugProfile { text: on, image: on, page: on, info: on }
}

pub fn run(bytes: &[u8], level: Level) -> Job {
    LEVEL.with(|l| l.set(level));
    // taken out while in use: after a panic a new one is made
    let mut tee = TEE.with(|t| t.borrow_mut().take()).unwrap_or_else(|| {
        Box::new(Tee { events: vec![], image: ImageRenderer::new(), html: HtmlRenderer::new() })
    });
    let out = Renderer::new(&mut tee, profile(level.debug)).render(&bytes.to_vec());
    TEE.with(|t| *t.borrow_mut() = Some(tee));
    let mut r = Job { docs: out.output, faults: vec![], child_errors: 0, errors: vec![] };
    for e in &out.errors {
        let text = format!("{e:?}");
        if text.contains("[GraphicsError]") {
            r.faults.push(Fault::Graphics);
            r.errors.push(text);
        } else if text.contains("[UnknownCommand]") {
            r.faults.push(Fault::Unknown);
            r.errors.push(text);
        } else {
            r.child_errors += 1;
            r.errors.push(text);
        }
    }
    r
}
