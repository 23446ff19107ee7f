//! Reference HTML documents: rows, read back from the real document.
use super::machine::{Ev, Look, Pic, Rgb, BLACK, BLUE, RED};
use super::paint::Doc;
use base64::Engine;

#[derive(Clone, PartialEq, Debug)]
pub enum Item {
    /// characters with left edge, top offset, sorted classes and cell width
    Text(Vec<(char, u32, u32, String, u32)>),
    /// the same as it is in the document: text, left edge, top offset, classes
    Spans(Vec<(String, u32, u32, String)>),
    Img(Pic),
    Svg { left: u32, w: u32, h: u32, rects: Vec<(u32, u32, u32, u32, String)> },
    Nothing,
}

/// y is absolute
#[derive(Clone, PartialEq, Debug)]
pub struct Row {
    pub y: i64,
    pub h: i64,
    pub item: Item,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Page {
    pub rows: Vec<Row>,
    pub padding: u32,
}

fn color_class(c: Rgb, fg: bool) -> Option<&'static str> {
    match (c, fg) {
        (BLACK, true) => None,
        (BLACK, false) => Some("bg_1"),
        (RED, true) => Some("fg_2"),
        (RED, false) => Some("bg_2"),
        (BLUE, true) => Some("fg_3"),
        (BLUE, false) => Some("bg_3"),
        (_, true) => Some("fg_0"),
        _ => None,
    }
}

fn classes(l: &Look) -> String {
    let mut v: Vec<String> = vec![];
    let mut on = |b: bool, s: &str| {
        if b {
            v.push(s.to_string())
        }
    };
    on(l.bold, "b");
    on(l.italic, "i");
    on(l.strike > 0, "s");
    on(l.strike > 1, "sd");
    let (w, h) = (l.cw / l.bw, l.ch / l.bh);
    on(w > 1, &format!("w{w}"));
    on(h > 1, &format!("h{h}"));
    on(w > 1 || h > 1, "str");
    on(l.underline > 0, "u");
    on(l.underline > 1, "ud");
    on(l.upside_down, "upd");
    on(l.font == 'B', "fb");
    on(l.font == 'C', "fc");
    on(color_class(l.fg, true).is_some(), color_class(l.fg, true).unwrap_or(""));
    on(color_class(l.bg, false).is_some(), color_class(l.bg, false).unwrap_or(""));
    v.sort();
    v.join(" ")
}

fn hex(c: Rgb) -> String {
    format!("#{:02X}{:02X}{:02X}{:02X}", c[0], c[1], c[2], c[3])
}

pub fn expected(events: &[Ev], docs: &[Doc]) -> Vec<Page> {
    let mut out: Vec<Page> = vec![];
    let mut printed = 0;
    for e in events {
        let n = out.len();
        match e {
            Ev::Begin { y } => {
                printed = 0;
                let rows = if *y > 0 { vec![Row { y: 0, h: *y as i64, item: Item::Nothing }] } else { vec![] };
                out.push(Page { rows, padding: 0 });
            }
            Ev::End { y } => {
                if let Some(p) = out.last_mut() {
                    let last = p.rows.last().map_or(0, |r| r.y + r.h);
                    p.padding = (*y as i64 - last).max(0) as u32;
                }
            }
            Ev::Line { spans, max_height, page: false, .. } => {
                let mut cells = vec![];
                for s in spans {
                    let top = (*max_height as f32 * 0.78 - s.look.ch as f32 * 0.78) as u32;
                    let class = classes(&s.look);
                    for (i, c) in s.text.chars().enumerate() {
                        cells.push((c, s.x + i as u32 * s.look.cw, top, class.clone(), s.look.cw));
                    }
                }
                let y = spans.iter().map(|s| s.y).min().unwrap_or(0) as i64;
                let h = spans.iter().map(|s| s.look.ch).max().unwrap_or(0) as i64;
                out[n - 1].rows.push(Row { y, h, item: Item::Text(cells) });
            }
            Ev::Rects { color, rects, page: false } => {
                if rects.is_empty() {
                    continue;
                }
                let left = rects.iter().map(|r| r.0).min().unwrap();
                let top = rects.iter().map(|r| r.1).min().unwrap();
                let w = rects.iter().map(|r| r.0 - left + r.2).max().unwrap();
                let h = rects.iter().map(|r| r.1 - top + r.3).max().unwrap();
                let rects = rects.iter().map(|r| (r.0, r.1, r.2, r.3, hex(*color))).collect();
                out[n - 1].rows.push(Row { y: top as i64, h: h as i64, item: Item::Svg { left, w, h, rects } });
            }
            Ev::Image { pic, page: false } => {
                if pic.w > 0 && pic.h > 0 {
                    out[n - 1].rows.push(Row { y: pic.y as i64, h: pic.h as i64, item: Item::Img(pic.clone()) });
                }
            }
            Ev::PrintPage { .. } => {
                let pic = docs[n - 1].pages[printed].clone();
                printed += 1;
                if pic.w > 0 && pic.h > 0 {
                    out[n - 1].rows.push(Row { y: pic.y as i64, h: pic.h as i64, item: Item::Img(pic) });
                }
            }
            _ => {}
        }
    }
    out
}

/// An element's start (or end) tag, and what follows it
struct Tag<'a> {
    name: String,
    attrs: Vec<(String, String)>,
    rest: &'a str,
}
fn tag(s: &str) -> Result<Tag<'_>, String> {
    let head = || s.chars().take(80).collect::<String>();
    let mut r = s.strip_prefix('<').ok_or_else(|| format!("expected a tag at {:?}", head()))?;
    let n = r.find(|c: char| c.is_whitespace() || c == '>').ok_or_else(|| format!("an open tag at {:?}", head()))?;
    let name = r[..n].trim_end_matches('/').to_ascii_lowercase();
    if name.trim_start_matches('/').is_empty() || !name.trim_start_matches('/').chars().all(|c| c.is_ascii_alphanumeric() || c == '!') {
        return Err(format!("not a tag: {:?}", head()));
    }
    r = &r[n..];
    let mut attrs: Vec<(String, String)> = vec![];
    loop {
        r = r.trim_start();
        if let Some(rest) = r.strip_prefix("/>").or_else(|| r.strip_prefix('>')) {
            return Ok(Tag { name, attrs, rest });
        }
        let n = r.find(|c: char| c.is_whitespace() || c == '=' || c == '>').ok_or_else(|| format!("an open tag at {:?}", head()))?;
        let key = r[..n].to_ascii_lowercase();
        r = r[n..].trim_start();
        let Some(v) = r.strip_prefix('=') else {
            attrs.push((key, String::new()));
            continue;
        };
        let v = v.trim_start();
        let q = v.chars().next().filter(|c| *c == '\'' || *c == '"').ok_or_else(|| format!("an attribute without quotes at {:?}", head()))?;
        let end = v[1..].find(q).ok_or_else(|| format!("an open attribute at {:?}", head()))?;
        if attrs.iter().any(|a| a.0 == key) {
            return Err(format!("attribute {key} twice at {:?}", head()));
        }
        attrs.push((key, unescape(&v[1..1 + end])?));
        r = &v[end + 2..];
    }
}
impl Tag<'_> {
    fn attr(&self, key: &str) -> Result<&str, String> {
        self.attrs.iter().find(|a| a.0 == key).map(|a| a.1.as_str()).ok_or_else(|| format!("<{}> has no {key}", self.name))
    }
    /// a length of the style attribute
    fn style(&self, key: &str) -> Result<i64, String> {
        let mut hit = None;
        for d in self.attr("style")?.split(';') {
            if let Some((k, v)) = d.split_once(':') {
                if k.trim().eq_ignore_ascii_case(key) {
                    hit = Some(v.trim());
                }
            }
        }
        let v = hit.ok_or_else(|| format!("<{}> has no {key}: {:?}", self.name, self.attr("style")))?;
        match v.strip_suffix("px") {
            Some(n) => num(n),
            None if v == "0" => Ok(0),
            None => Err(format!("{key} is {v:?}")),
        }
    }
    fn classes(&self) -> Vec<&str> {
        let mut c: Vec<&str> = self.attr("class").unwrap_or("").split_ascii_whitespace().collect();
        c.sort();
        c
    }
}
fn until<'a>(s: &mut &'a str, mark: &str) -> Result<&'a str, String> {
    let i = s.find(mark).ok_or_else(|| format!("no {mark:?} in {:?}", s.chars().take(80).collect::<String>()))?;
    let r = &s[..i];
    *s = &s[i + mark.len()..];
    Ok(r)
}
fn small<T: TryFrom<i64>>(n: i64) -> Result<T, String> {
    T::try_from(n).map_err(|_| format!("{n} is out of range"))
}
/// the start tag of this element is next
fn open<'a>(s: &mut &'a str, name: &str) -> Result<Tag<'a>, String> {
    let t = tag(s.trim_start())?;
    if t.name != name {
        return Err(format!("expected <{name}> at {:?}", s.chars().take(80).collect::<String>()));
    }
    *s = t.rest;
    Ok(t)
}
fn num<T: std::str::FromStr>(s: &str) -> Result<T, String> {
    let s = s.trim();
    s.strip_suffix(".0").unwrap_or(s).parse().map_err(|_| format!("not a number: {s:?}"))
}

fn unescape(s: &str) -> Result<String, String> {
    let mut out = String::new();
    let mut r = s;
    while let Some(c) = r.chars().next() {
        if c == '&' {
            let hit = [("amp", '&'), ("lt", '<'), ("gt", '>'), ("quot", '"'), ("apos", '\''), ("nbsp", '\u{a0}')];
            let end = r.find(';').ok_or(format!("unescaped & in {s:?}"))?;
            let e = &r[1..end];
            let number = match e.strip_prefix('#') {
                Some(n) => match n.strip_prefix(['x', 'X']) {
                    Some(h) => u32::from_str_radix(h, 16).ok(),
                    None => n.parse().ok(),
                },
                None => None,
            };
            let named = hit.iter().find(|h| h.0 == e).map(|h| h.1);
            out.push(named.or(number.and_then(char::from_u32)).ok_or(format!("unescaped & in {s:?}"))?);
            r = &r[end + 1..];
        } else if c == '<' || c == '>' {
            return Err(format!("unescaped {c} in {s:?}"));
        } else {
            out.push(c);
            r = &r[c.len_utf8()..];
        }
    }
    Ok(out)
}

pub fn png(data: &str) -> Result<(u32, u32, Vec<Rgb>), String> {
    let data = data.trim().trim_end_matches('=');
    let bytes = base64::engine::general_purpose::STANDARD_NO_PAD.decode(data).map_err(|e| format!("base64: {e}"))?;
    let mut reader = png::Decoder::new(&bytes[..]).read_info().map_err(|e| format!("png: {e}"))?;
    let mut buf = vec![0; reader.output_buffer_size()];
    let info = reader.next_frame(&mut buf).map_err(|e| format!("png: {e}"))?;
    if info.bit_depth != png::BitDepth::Eight {
        return Err("png depth".into());
    }
    let px = match info.color_type {
        png::ColorType::Rgba => buf[..info.buffer_size()].chunks(4).map(|c| if c[3] == 0 { [0; 4] } else { [c[0], c[1], c[2], c[3]] }).collect(),
        png::ColorType::Rgb => buf[..info.buffer_size()].chunks(3).map(|c| [c[0], c[1], c[2], 255]).collect(),
        _ => return Err("png colours".into()),
    };
    Ok((info.width, info.height, px))
}

pub fn parse(doc: &str) -> Result<Page, String> {
    for t in ["{{color-0}}", "{{color-1}}", "{{color-2}}", "{{color-3}}", "{{receipt-style}}"] {
        // a printed text can look like a token, the parts of the template can't
        let body = doc.find("<section").unwrap_or(0);
        if doc[..body].contains(t) {
            return Err(format!("template token {t} was not replaced"));
        }
    }
    let lower = doc.trim_start().to_ascii_lowercase();
    if !lower.starts_with("<!doctype html>") || !doc.trim_end().ends_with("</html>") {
        return Err("the document is not complete".into());
    }
    let mut s = doc;
    let body = s.find("<section").ok_or("no section")?;
    s = &s[body..];
    let section = open(&mut s, "section")?;
    if (section.style("width")?, section.style("padding-left")?, section.style("padding-right")?) != (649, 20, 20) {
        return Err(format!("receipt style: {:?}", section.attr("style")));
    }
    let padding = small(section.style("padding-bottom")?)?;
    open(&mut s, "article")?;
    let mut rows = vec![];
    let mut last = 0i64;
    loop {
        s = s.trim_start();
        if s.starts_with("</") {
            open(&mut s, "/article")?;
            break;
        }
        let p = open(&mut s, "p")?;
        let (h, margin) = (p.style("height")?, p.style("margin-top")?);
        let mut body = until(&mut s, "</p>")?;
        let y = last + margin;
        last = y + h;
        body = body.trim();
        let item = if body.is_empty() {
            Item::Nothing
        } else if body.starts_with("<span") {
            let mut cells = vec![];
            while !body.is_empty() {
                let t = open(&mut body, "span")?;
                let (x, top) = (small(t.style("left")?)?, small(t.style("top")?)?);
                let text = unescape(until(&mut body, "</span>")?)?;
                cells.push((text, x, top, t.classes().join(" ")));
                body = body.trim_start();
            }
            Item::Spans(cells)
        } else if body.starts_with("<img") {
            let t = open(&mut body, "img")?;
            let x = small(t.style("left")?)?;
            let w: u32 = num(t.attr("width")?)?;
            let data = t.attr("src")?.strip_prefix("data:image/png;base64,").ok_or("not a png")?;
            let (pw, ph, px) = png(data)?;
            if pw != w || !body.is_empty() || !t.classes().contains(&"img") {
                return Err(format!("image width {w}, data width {pw}"));
            }
            Item::Img(Pic { x, y: y as u32, w, h: ph, px })
        } else {
            let t = open(&mut body, "svg")?;
            if !t.classes().contains(&"gfx") {
                return Err("graphic without its class".into());
            }
            let left: u32 = small(t.style("left")?)?;
            let (w, h) = (num(t.attr("width")?)?, num(t.attr("height")?)?);
            let mut rects = vec![];
            loop {
                body = body.trim_start();
                if body.starts_with("</") {
                    // a rectangle's or the graphic's end
                    let t = tag(body)?;
                    body = t.rest;
                    match t.name.as_str() {
                        "/rect" => continue,
                        "/svg" => break,
                        n => return Err(format!("unexpected {n}")),
                    }
                }
                let t = open(&mut body, "rect")?;
                let (rx, ry): (u32, i64) = (num(t.attr("x")?)?, num(t.attr("y")?)?);
                rects.push((left + rx, small(y + ry)?, num(t.attr("width")?)?, num(t.attr("height")?)?, t.attr("fill")?.to_ascii_uppercase()));
            }
            if !body.trim().is_empty() {
                return Err("text after the graphic".into());
            }
            Item::Svg { left, w, h, rects }
        };
        rows.push(Row { y, h, item });
    }
    Ok(Page { rows, padding })
}

type Patch = (u32, u32, u32, u32, String);
/// What the rectangles of a graphic cover, by colour
fn covered(rects: &[Patch]) -> Vec<(String, Vec<(u32, u32, u32, u32)>)> {
    let mut colors: Vec<&String> = rects.iter().map(|r| &r.4).collect();
    colors.sort();
    colors.dedup();
    let of = |c: &String| rects.iter().filter(|r| &r.4 == c && r.2 > 0 && r.3 > 0).map(|r| (r.0, r.1, r.2, r.3)).collect::<Vec<_>>();
    colors.into_iter().map(|c| (c.clone(), crate::compare::region(&of(c)))).filter(|c| !c.1.is_empty()).collect()
}
/// rows that show something
fn visible(p: &Page) -> Vec<&Row> {
    p.rows.iter().filter(|r| match &r.item {
        Item::Nothing => false,
        Item::Svg { rects, .. } => rects.iter().any(|r| r.2 > 0 && r.3 > 0),
        _ => true,
    }).collect()
}

pub fn same(want: &Page, got: &Page) -> Result<(), String> {
    let height = |p: &Page| p.rows.last().map_or(0, |r| r.y + r.h) + p.padding as i64;
    if height(want) != height(got) {
        return Err(format!("the document is {} high instead of {}", height(got), height(want)));
    }
    let (ws, gs) = (visible(want), visible(got));
    if ws.len() != gs.len() {
        return Err(format!("{} rows instead of {}", gs.len(), ws.len()));
    }
    for (i, (w, g)) in ws.into_iter().zip(gs).enumerate() {
        if (w.y, w.h) != (g.y, g.h) {
            return Err(format!("row {i} is at {}+{} instead of {}+{}", g.y, g.h, w.y, w.h));
        }
        let ok = match (&w.item, &g.item) {
            (Item::Text(a), Item::Spans(b)) => same_text(a, b),
            (Item::Svg { left, w, h, rects }, Item::Svg { left: l2, w: w2, h: h2, rects: r2 }) => {
                (left, w, h) == (l2, w2, h2) && {
                    let sort = |r: &[Patch]| {
                        let mut r = r.to_vec();
                        r.sort();
                        r
                    };
                    sort(rects) == sort(r2) || covered(rects) == covered(r2)
                }
            }
            (Item::Img(a), Item::Img(b)) => {
                (a.x, a.w, a.h) == (b.x, b.w, b.h) && crate::compare::close(&a.px, &b.px)
            }
            (a, b) => a == b,
        };
        if !ok {
            return Err(format!("row {i} differs: want {} got {}", brief(&w.item), brief(&g.item)));
        }
    }
    Ok(())
}

/// However the characters are grouped into spans, each span starts at its
/// first character and its characters follow each other without gaps
fn same_text(want: &[(char, u32, u32, String, u32)], got: &[(String, u32, u32, String)]) -> bool {
    let mut i = 0;
    for (text, x, top, class) in got {
        let mut at = *x;
        for c in text.chars() {
            match want.get(i) {
                Some(w) if (w.0, w.1, w.2, &w.3) == (c, at, *top, class) => at += w.4,
                _ => return false,
            }
            i += 1;
        }
    }
    i == want.len()
}

pub fn brief(i: &Item) -> String {
    match i {
        Item::Text(c) => format!("{:?}", c.iter().map(|c| (c.0, c.1, c.2, c.3.as_str())).collect::<Vec<_>>()),
        Item::Spans(c) => format!("{c:?}"),
        Item::Img(p) => format!("image {}x{} at {},{}", p.w, p.h, p.x, p.y),
        Item::Svg { left, w, h, rects } => format!("svg {left} {w}x{h} {rects:?}"),
        Item::Nothing => "nothing".into(),
    }
}
