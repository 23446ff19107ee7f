//! C01 nothing breaks, C16 nothing interferes
use super::atoms::*;
use super::parse::{commands, structural};
use super::style::everything;
use crate::compare::{self, Canon};
use crate::explore::{guarded, hex, pick, sequence, Explorer, Local};
use crate::spec::frame::ROWS;
use crate::spec::html;
use crate::sut::*;
use thermal_renderer::html_renderer::HtmlRenderer;
use thermal_renderer::image_renderer::ImageRenderer;

const DEBUG: Level = Level { image: true, full: false, html: true, debug: true };

/// Documents are complete whatever they show
fn whole(doc: &str) -> Result<(), String> {
    let d = doc.trim();
    if !d.to_ascii_lowercase().starts_with("<!doctype html>") || !d.ends_with("</html>") {
        return Err("the document is not complete".into());
    }
    for t in ["<html", "</html>", "<body", "</body>", "<article", "</article>", "</head>"] {
        if d.matches(t).count() != 1 {
            return Err(format!("{} times {t}", d.matches(t).count()));
        }
    }
    let mut rest = d;
    while let Some(i) = rest.find("base64,") {
        rest = rest[i + 7..].trim_start();
        let end = rest.find(|c: char| !(c.is_ascii_alphanumeric() || "+/=".contains(c))).unwrap_or(rest.len());
        let (w, h, px) = html::png(&rest[..end])?;
        if px.len() as u64 != w as u64 * h as u64 {
            return Err(format!("an image of {w}x{h} has {} pixels", px.len()));
        }
        rest = &rest[end..];
    }
    Ok(())
}

fn formed(b: &[u8], level: Level) -> Result<Job, String> {
    let r = run(b, level);
    if r.docs.is_empty() {
        return Err("there is no document".into());
    }
    for (i, d) in r.docs.iter().enumerate() {
        if let Some(p) = &d.paper {
            if p.px.len() as u64 != p.w as u64 * p.h as u64 {
                return Err(format!("document {i}: {} pixels for {}x{}", p.px.len(), p.w, p.h));
            }
        }
        if let Some((w, h, n)) = d.image_size {
            if n as u64 != w as u64 * h as u64 * 3 {
                return Err(format!("document {i}: {n} bytes for {w}x{h}"));
            }
        }
        if let Some(doc) = &d.html {
            whole(doc).map_err(|e| format!("html document {i}: {e}"))?;
            if !level.debug {
                html::parse(doc).map_err(|e| format!("html document {i}: {e}"))?;
            }
        }
    }
    Ok(r)
}

/// Not compared with anything: it ends, and what it makes has a proper form
fn holds(b: &[u8], l: &mut Local) -> Result<(), String> {
    let r = formed(b, ALLX)?;
    formed(b, DEBUG)?;
    l.runs += 2;
    let events: Vec<_> = r.docs.iter().flat_map(|d| d.events.iter()).collect();
    l.transitions += events.len() as u64;
    l.state((r.docs.len(), r.faults.len(), events.len(), r.docs[0].paper.as_ref().map(|p| p.h)));
    Ok(())
}

/// The public entry points
fn public(b: &[u8], l: &mut Local) -> Result<(), String> {
    let b = b.to_vec();
    for on in [false, true] {
        let images = ImageRenderer::render(&b, on.then(|| profile(true)));
        let pages = HtmlRenderer::render(&b, on.then(|| profile(true)));
        l.runs += 2;
        l.transitions += images.output.len() as u64;
        if images.output.is_empty() || images.output.len() != pages.output.len() {
            return Err(format!("{} images and {} html documents", images.output.len(), pages.output.len()));
        }
        for (i, d) in images.output.iter().enumerate() {
            if d.bytes.len() as u64 != d.width as u64 * d.height as u64 * 3 {
                return Err(format!("image {i}: {} bytes for {}x{}", d.bytes.len(), d.width, d.height));
            }
            l.state((d.width, d.height));
        }
        for (i, d) in pages.output.iter().enumerate() {
            whole(&d.content).map_err(|e| format!("html document {i}: {e}"))?;
        }
    }
    Ok(())
}

type Case = fn(&[u8], &mut Local) -> Result<(), String>;

fn product(e: &mut Explorer, name: &str, slots: &[&[B]], f: impl Fn(&[u8], &mut Local) -> Result<(), String> + Sync) {
    let total = slots.iter().map(|s| s.len() as u64).product();
    e.cases(name, total, |i| Some(pick(slots, i)), |i, l| f(&pick(slots, i), l));
}
fn strings(e: &mut Explorer, name: &str, alphabet: &[u8], depth: u32, f: Case) {
    let n = alphabet.len() as u64;
    let total = (0..=depth).map(|d| n.pow(d)).sum();
    let make = |i| -> B { sequence(i, n, depth).iter().map(|k| alphabet[*k]).collect() };
    e.cases(name, total, |i| Some(make(i)), |i, l| f(&make(i), l));
}

/// commands with parameters at the ends of their ranges
fn extremes() -> Vec<B> {
    let ends = [0u8, 1, 2, 8, 127, 128, 254, 255];
    let mut v: Vec<B> = vec![];
    for r in ROWS {
        match r.data {
            crate::spec::frame::Data::Fixed(n) => {
                let n = n.min(4);
                for i in 0..ends.len().pow(n.min(2) as u32) {
                    let mut b = r.opcode.to_vec();
                    for k in 0..n {
                        b.push(ends[i / ends.len().pow((k % 2) as u32) % ends.len()]);
                    }
                    v.push(b);
                }
            }
            _ => {
                for a in ends {
                    for k in ends {
                        v.push(c(r.opcode, &[a, k, 0, 1, a, k, 0, 0, a]));
                    }
                }
            }
        }
    }
    v
}

pub fn c01(e: &mut Explorer) {
    e.assumptions = vec![
        "memory of up to 3 GiB and 90 s per job count as ending: a job can ask for paper and images in proportion to the sizes and magnifications it states".into(),
    ];
    let thorough = e.thorough();
    let every: Vec<u8> = (0..=255).collect();
    strings(e, "byte strings", &every, 2, holds);
    strings(e, "structural bytes", &structural(), e.pick(2, 3), holds);
    let few: Vec<u8> = vec![0x1B, 0x1D, 0x18, b'(', b'k', b'L', b'*', b'@', 0, 3, b'A', 0x0A, 0x0C, 0xFF];
    strings(e, "few bytes", &few, e.pick(4, 5), holds);
    let cmds = commands();
    let mut cut: Vec<B> = vec![];
    for c in &cmds {
        for k in 1..=c.len().min(30) {
            cut.push(c[..k].to_vec());
        }
    }
    cut.sort();
    cut.dedup();
    let before = [vec![], cat(&[page(), area(5, 5, 90, 60), t("a")]), cat(&[t("ab"), gs(b'!', &[0x77]), esc(b'{', &[1])])];
    let after = [vec![], t("x"), lf(), vec![FF], esc(b'@', &[])];
    product(e, "cut off commands", &[&before, &cut, &after], holds);
    // parameters at the ends of their ranges, in sequence
    let ext = extremes();
    let some: Vec<B> = ext.iter().step_by(e.pick(9, 3)).cloned().collect();
    let content = [cat(&[t("Ab\tc"), raster_n(0, 2, 3), bar_nul(4, b"A"), qr_store(b"1"), qr_print(), t("x")]), cat(&[page(), t("p q"), raster_n(3, 2, 3), bar_nul(4, b"A"), vec![FF]])];
    product(e, "extremes", &[&before, &ext, &content], holds);
    product(e, "pairs of extremes", &[&some, &some, &content[..e.pick(1, 2)].to_vec()], holds);
    // pages of all sizes with everything in them
    let inside = [t("Ab c"), raster_n(0, 9, 9), bit_n(33, 20), bar_nul(4, b"ABC"), cat(&[qr_store(b"1"), qr_print()]), cat(&[esc(b'{', &[1]), gs(b'!', &[0x77]), t("Q")])];
    let place = [vec![], posx(65535), posy(65535), cat(&[rely(-32768), posx(300)]), cat(&[rely(32767), t("z")])];
    let (k, q) = (inside.len() as u64, place.len() as u64);
    let mut pages = |name: &str, v: &[u16], step: u64| {
        let n = v.len() as u64;
        let make = |i: u64| {
            let a = |m: u32| v[(i / 4 / k / q / n.pow(m) % n) as usize];
            cat(&[page(), area(a(0), a(1), a(2), a(3)), dir((i % 4) as u8), place[(i / 4 / k % q) as usize].clone(), inside[(i / 4 % k) as usize].clone(), vec![FF]])
        };
        let total = 4 * k * q * n.pow(4);
        e.cases(name, total / step, |i| Some(make(i * step)), |i, l| {
            let b = make(i * step);
            formed(&b, ALLX)?;
            l.runs += 1;
            l.transitions += 5;
            l.state(i % 997);
            Ok(())
        });
    };
    let (small, large) = if thorough { (1, 7) } else { (41, 397) };
    pages("pages", &[0, 1, 8, 255, 607, 608, 609, 2000], small);
    pages("large pages", &[0, 300, 32768, 65535], large);
    // areas and directions one after the other, with positions in and beyond them
    let mut shifts: Vec<B> = vec![];
    for d in 0..4 {
        for a in [area(0, 0, 300, 200), area(40, 60, 100, 80), area(500, 300, 60, 60), area(0, 0, 0, 0), area(7, 400, 609, 9)] {
            shifts.push(cat(&[a.clone(), dir(d)]));
            shifts.push(cat(&[dir(d), a]));
        }
    }
    let to = posts();
    let what = [t("Ab c\nd"), bit_n(33, 12), cat(&[bar_nul(4, b"A"), t("x")])];
    let fin = [cat(&[vec![FF], t("e")])];
    product(e, "areas and positions", &[&[page()], &shifts, &[vec![], t("long text")], &shifts, &to, &what, &fin], |b, l| {
        run(b, EV);
        l.runs += 1;
        l.transitions += 6;
        l.state(crate::spec::frame::frames(b).len());
        Ok(())
    });
    let fewer: Vec<B> = shifts.iter().step_by(e.pick(5, 1)).cloned().collect();
    product(e, "areas and positions painted", &[&[page()], &fewer, &shifts, &to, &what, &fin], |b, l| {
        formed(b, ALLX)?;
        l.runs += 1;
        l.transitions += 6;
        l.state(crate::spec::frame::frames(b).len());
        Ok(())
    });
    if thorough {
        product(e, "areas and positions twice", &[&[page()], &shifts, &to, &what[..1].to_vec(), &shifts, &to, &what, &fin], |b, l| {
            run(b, IMG);
            l.runs += 1;
            l.transitions += 7;
            l.state(b.len());
            Ok(())
        });
    }
    // stated sizes without the data
    let mut lies: Vec<B> = vec![];
    let s = [0u16, 1, 7, 8, 255, 256, 4095, 32767, 32768, 65535];
    for w in s {
        for h in s {
            for n in [0usize, 1, 8, 64] {
                let p = pattern(n, 3);
                lies.push(cat(&[buffer(112, 1, 1, 49, w, h, &p), buffer_print()]));
                lies.push(cat(&[buffer(113, 2, 2, 49, w, h, &p), buffer_print()]));
                if h < 1000 {
                    lies.push(cat(&[buffer(112, 255, 255, 49, w, h, &p), buffer_print()]));
                }
                for f in [67, 68, 83, 84] {
                    let key = (65, 66);
                    lies.push(cat(&[define(f, key, w, h, &[(49, p.clone())]), graph(if f < 80 { 69 } else { 85 }, &[65, 66, 2, 2])]));
                }
                lies.push(cat(&[raster(3, w, h, &p), t("e")]));
                lies.push(cat(&[bit(33, w, &p), t("e")]));
            }
        }
    }
    product(e, "stated sizes", &[&[vec![], page()], &lies, &[lf()]], holds);
    // many of everything
    let many: Vec<B> = everything()
        .iter()
        .chain(&[t("word "), t("a"), vec![0x1B], vec![0x1D], vec![0xFF], vec![0], t("<"), vec![0xC3], t("\t"), cat(&[page(), t("a"), vec![FF]]), cat(&[page(), area(0, 0, 9, 9)])])
        .map(|b| b.repeat(e.pick(300, 1000)))
        .collect();
    product(e, "many", &[&[vec![], page()], &many, &[t("e")]], holds);
    // long streams: bytes, commands, and what they leave open, over and over; long papers
    let s = structural();
    let mut parts: Vec<B> = (0..=255u8).map(|b| vec![b]).collect();
    parts.extend(everything());
    let single = parts.len();
    parts.extend(s.iter().flat_map(|a| s.iter().map(|b| vec![*a, *b]).collect::<Vec<_>>()));
    let mut endless = |name: &str, parts: &[B], n: usize, level: Level| {
        let make = |i: u64| cat(&[parts[i as usize].repeat(n / parts[i as usize].len().min(50)), t("e")]);
        e.cases(name, parts.len() as u64, |_| None, |i, l| {
            let b = make(i);
            formed(&b, level).map_err(|e| format!("{} many times: {e}", hex(&parts[i as usize])))?;
            l.runs += 1;
            l.transitions += b.len() as u64;
            l.state(b.len());
            Ok(())
        });
    };
    endless("long streams", &parts[..single], if thorough { 1_000_000 } else { 200_000 }, HTML);
    endless("long streams of pairs", &parts[single..], if thorough { 200_000 } else { 20_000 }, HTML);
    endless("long papers", &parts[..single], 5000, Level { full: true, ..ALLX });
    // settings at all sizes of symbols
    let mut symbols: Vec<B> = vec![];
    for n in 0..=255u8 {
        for (k, d) in [(4, &b"AB 1"[..]), (0, b"12345678901"), (2, b"123456789012")] {
            symbols.push(cat(&[gs(b'w', &[n]), gs(b'h', &[n]), gs(b'H', &[n]), gs(b'f', &[n]), bar_nul(k, d)]));
        }
        symbols.push(cat(&[qr(67, &[n]), qr(69, &[n]), qr(65, &[n, 0]), qr_store(b"ab1"), qr_print()]));
        for m in [48, 50, 51, 52, 53, 54] {
            for f in 65..=82 {
                symbols.push(cat(&[sub(b'k', &[m, f, n]), sub(b'k', &[m, f, n, 49, n]), sub(b'k', &[m, 80, 48, 65, n]), sub(b'k', &[m, 81, 48])]));
            }
        }
    }
    product(e, "symbols", &[&symbols], holds);
    let mut data: Vec<B> = vec![];
    for n in (0..=300usize).chain([500, 1000, 2000, 2953, 2954, 3000, 7000, 7089, 7090, 40000]) {
        for fill in [b'1', b'A', b'a', 0xFF] {
            data.push(cat(&[qr_store(&vec![fill; n]), qr_print()]));
            for m in [48, 50, 51, 52, 53, 54] {
                data.push(cat(&[sub(b'k', &[&[m, 80, 48], &vec![fill; n][..]].concat()), sub(b'k', &[m, 81, 48])]));
            }
            if n < 256 {
                for k in 65..=79 {
                    data.push(bar_len(k, &vec![fill; n]));
                }
            }
            for k in 0..=6 {
                data.push(bar_nul(k, &vec![fill; n]));
            }
        }
    }
    product(e, "symbol data", &[&data], |b, l| {
        formed(b, ALLX)?;
        l.runs += 1;
        l.transitions += 1;
        l.state(b.len());
        Ok(())
    });
    // as a user calls it
    product(e, "entry points", &[&everything(), &[probe()]], public);
    product(e, "entry points, cut off", &[&cut.iter().step_by(e.pick(7, 1)).cloned().collect::<Vec<_>>()], public);
    if e.thorough() {
        product(e, "everything twice", &[&everything(), &everything(), &[probe()]], holds);
        product(e, "all extremes", &[&ext, &some, &content[..1].to_vec()], holds);
    }
}

/// positions in areas and beyond them
pub fn posts() -> Vec<B> {
    let mut v = vec![vec![]];
    for n in [0u16, 1, 50, 99, 100, 101, 150, 400, 65535] {
        v.push(posx(n));
        v.push(posy(n));
    }
    v.extend([rely(-32768), rely(-60), rely(70), rely(32767), cat(&[posy(100), posx(100)]), cat(&[posy(150), posx(150)]), cat(&[posx(60), rely(120), t("o")]), gs(b'P', &[20, 10])]);
    v
}

fn events(r: &Job) -> Vec<Canon> {
    compare::canon(&r.docs.iter().flat_map(|d| d.events.iter().cloned()).collect::<Vec<_>>())
}
fn texts(r: &Job) -> Vec<Canon> {
    events(r).into_iter().filter(|c| matches!(c, Canon::Line { .. })).collect()
}
/// everything a job makes
fn print(r: &Job) -> String {
    let docs: Vec<_> = r
        .docs
        .iter()
        .map(|d| (compare::canon(&d.events), d.paper.as_ref().map(|p| (p.w, p.h, p.px.clone())), d.html.clone(), d.image_size))
        .collect();
    let docs = docs.into_iter().map(|d| (d.0.len(), d.1.map(|p| (p.0, p.1, digest(&p.2))), d.2.map(|h| digest(&h)), digest(&format!("{:?}", d.0)))).collect::<Vec<_>>();
    format!("{docs:?} {:?}", r.errors)
}
pub fn made(b: &[u8]) -> String {
    print(&run(b, ALLX))
}
/// What the last of these jobs makes in a process that has done nothing else
fn fresh(jobs: &[&[u8]]) -> String {
    use std::io::Write;
    use std::process::{Command, Stdio};
    let mut input = String::new();
    for b in jobs {
        input.extend(b.iter().map(|b| format!("{b:02x}")));
        input.push('\n');
    }
    let me = std::env::current_exe().expect("our own path");
    let mut child = Command::new(me).arg("fresh").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("a new process");
    let _ = child.stdin.take().unwrap().write_all(input.as_bytes());
    let out = child.wait_with_output().expect("a new process");
    String::from_utf8_lossy(&out.stdout).trim().to_string()
}
/// Each in a process of its own
fn alone(jobs: &[Vec<&[u8]>]) -> Vec<String> {
    let next = std::sync::atomic::AtomicUsize::new(0);
    let mut all: Vec<(usize, String)> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..8).map(|_| s.spawn(|| {
            let mut v = vec![];
            loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if i >= jobs.len() {
                    return v;
                }
                v.push((i, fresh(&jobs[i])));
            }
        })).collect();
        hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
    });
    all.sort();
    all.into_iter().map(|a| a.1).collect()
}
/// A job that makes a later one different
fn culprit(b: &[u8], want: &str, before: &[&B]) -> String {
    let pairs: Vec<Vec<&[u8]>> = before.iter().map(|a| vec![&a[..], b]).collect();
    match alone(&pairs).iter().position(|g| g != want) {
        Some(k) => format!("after {}", hex(before[k])),
        None => "after many other jobs".into(),
    }
}
fn digest(h: &impl std::hash::Hash) -> u64 {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    h.hash(&mut s);
    std::hash::Hasher::finish(&s)
}

/// Jobs alike but for one setting, one character, one dot
fn twins() -> Vec<B> {
    let mut v: Vec<B> = vec![];
    for s in opt(styles()) {
        v.push(cat(&[s, t("Twin#")]));
    }
    for s in opt(settings()) {
        v.push(cat(&[s, t("a\tb"), bar_nul(4, b"TW"), qr_store(b"TWIN"), qr_print(), lf()]));
    }
    for (f, n) in [(67u8, 1u8), (67, 6), (67, 8), (69, 48), (69, 50), (65, 49)] {
        let n = if f == 65 { vec![n, 0] } else { vec![n] };
        v.push(cat(&[qr(f, &n), qr_store(b"TWIN"), qr_print()]));
    }
    for s in [esc(b'R', &[4]), esc(b't', &[3]), esc(b' ', &[5]), esc(b'3', &[90]), gs(b'L', &[40, 0]), gs(b'W', &[200, 0]), posx(30)] {
        v.push(cat(&[s, t("a b"), vec![0x84, 0x24], t("Twin words"), lf(), t("Twin#")]));
    }
    for s in ["Twin$", "Twim#", "Twin# ", "twin#"] {
        v.push(t(s));
    }
    for k in [0u8, 1, 2, 4, 5] {
        v.push(bar_nul(k, b"012345000058"));
        v.push(bar_nul(k, b"012345000065"));
    }
    for d in [&b"{BTWIN"[..], b"{ATWIN", b"{BTWIM", b"{C1234", b"{B1234"] {
        v.push(cat(&[gs(b'H', &[2]), bar_len(73, d)]));
    }
    for d in [b"TWIM", b"1234", b"1235"] {
        v.push(cat(&[qr_store(d), qr_print()]));
    }
    for seed in [1u8, 2] {
        v.push(bit(0, 6, &pattern(6, seed)));
        v.push(bit(1, 6, &pattern(6, seed)));
        v.push(bit(33, 2, &pattern(6, seed)));
        for (w, h) in [(2u16, 3u16), (3, 2), (1, 6), (6, 1)] {
            v.push(raster(0, w, h, &pattern(6, seed)));
        }
        v.push(raster(3, 2, 3, &pattern(6, seed)));
        for col in [49u8, 50] {
            v.push(cat(&[buffer(112, 1, 1, col, 16, 3, &pattern(6, seed)), buffer_print()]));
            v.push(cat(&[buffer(113, 1, 1, col, 6, 8, &pattern(6, seed)), buffer_print()]));
            v.push(cat(&[define(67, (65, 65), 16, 3, &[(col, pattern(6, seed))]), graph(69, b"AA")]));
            v.push(cat(&[define(83, (65, 65), 16, 3, &[(col, pattern(6, seed))]), graph(85, b"AA")]));
        }
    }
    for d in 0..4 {
        for a in [area(0, 0, 90, 60), area(5, 0, 90, 60), area(0, 0, 91, 60)] {
            v.push(cat(&[page(), a, dir(d), t("Twin"), vec![FF]]));
        }
    }
    v.extend([cat(&[t("Twin#"), vec![FF]]), cat(&[vec![FF], t("Twin#")]), cat(&[t("Twin#"), lf()]), cat(&[sub(b'Z', b"?"), t("Twin#")]), graph(69, b"AA"), qr_print(), buffer_print(), vec![]]);
    v
}

#[cfg(feature = "inner")]
/// The commands of each stream of one parser against those of a new one
fn reused(streams: &[B], l: &mut Local) -> Result<(), String> {
    use thermal_parser::{command_sets, parser::Parser};
    let show = |cmds: &[thermal_parser::command::Command]| -> Vec<(String, B, B, B)> {
        cmds.iter().map(|c| {
            let (op, data) = c.handler.get_command_bytes(c);
            (c.name.to_string(), op, data, c.data.clone())
        }).collect()
    };
    let mut one = Parser::new(command_sets::esc_pos::new());
    for (i, s) in streams.iter().enumerate() {
        let got = show(&one.parse_bytes(s));
        l.runs += 1;
        l.transitions += got.len() as u64;
        if i == 0 {
            continue;
        }
        let want = show(&Parser::new(command_sets::esc_pos::new()).parse_bytes(s));
        l.state(digest(&want));
        if got != want {
            return Err(format!("stream {i} is {got:?} instead of {want:?}"));
        }
    }
    Ok(())
}

pub fn c16(e: &mut Explorer) {
    let all = everything();
    let n = all.len() as u64;
    // jobs that leave something behind
    let dirty: Vec<B> = {
        let mut v: Vec<B> = all.iter().map(|a| cat(&[a.clone(), t("left")])).collect();
        v.extend([
            cat(&[page(), area(3, 3, 50, 50), dir(1), t("open page")]),
            cat(&[styles()[1].clone(), gs(b'!', &[0x33]), esc(b't', &[255]), esc(b'R', &[8]), esc(b'a', &[2]), t("no end")]),
            vec![0x1B],
            vec![0x1D, b'(', b'L'],
            vec![0x1D, b'v', b'0', 0, 9, 0, 9, 0, 1],
            vec![0x1D, b'k', 4, b'A'],
            vec![0x1C, b'x'],
            cat(&[vec![FF], vec![FF]]),
            cat(&stores()),
            cat(&settings()),
            cat(&[posx(60000), raster_n(3, 9, 9)]),
        ]);
        v
    };
    let m = dirty.len() as u64;
    let job = |k: u64| cat(&[all[k as usize].clone(), probe()]);
    // the same renderer, parser and thread
    let pair = |i: u64| (dirty[(i % m) as usize].clone(), job(i / m));
    e.cases("one job after another", m * n, |i| Some([pair(i).0, pair(i).1].concat()), |i, l| {
        let (a, b) = pair(i);
        run(&a, EV);
        let first = run(&b, EV);
        let second = run(&b, EV);
        l.runs += 3;
        l.transitions += first.docs.iter().map(|d| d.events.len() as u64).sum::<u64>();
        l.state(digest(&b));
        let want = crate::spec::machine::run(&b);
        if want.faults != first.faults {
            return Err(format!("after {}: errors {:?} instead of {:?}", hex(&a), first.faults, want.faults));
        }
        compare::events(&want.events, &first.docs.iter().flat_map(|d| d.events.iter().cloned()).collect::<Vec<_>>())
            .map_err(|e| format!("after {}: {e}", hex(&a)))?;
        if events(&first) != events(&second) || first.errors != second.errors {
            return Err("the second time it is different".into());
        }
        Ok(())
    });
    // with everything that is painted and written, against a new process
    let jobs: Vec<B> = (0..n).map(job).collect();
    let first = if e.wants("documents after another job") { alone(&jobs.iter().map(|b| vec![&b[..]]).collect::<Vec<_>>()) } else { vec![] };
    let step = e.pick(5, 1);
    e.cases("documents after another job", m * n / step, |i| Some([pair(i * step).0, pair(i * step).1].concat()), |i, l| {
        let (a, b) = pair(i * step);
        let alone = &first[((i * step) / m) as usize];
        run(&a, ALLX);
        let after = print(&run(&b, ALLX));
        l.runs += 2;
        l.transitions += 1;
        l.state(digest(&a));
        if alone != &after {
            let why = if print(&run(&b, ALLX)) == after { culprit(&b, alone, &dirty.iter().collect::<Vec<_>>()) } else { format!("after {}", hex(&a)) };
            return Err(format!("{} is different {why}: {after} instead of {alone}", hex(&b)));
        }
        Ok(())
    });
    // what was outside of the paper is an error of its own document
    let outside: Vec<B> = vec![
        vec![],
        t("x"),
        cat(&[posx(60000), raster_n(0, 1, 2)]),
        cat(&[posx(700), t("x"), lf()]),
        cat(&[posx(60000), raster_n(0, 1, 2), posx(60000), raster_n(0, 1, 3)]),
        cat(&[posx(64000), bit_n(33, 3), lf()]),
        cat(&[page(), area(0, 0, 60, 40), posx(900), t("x"), vec![FF]]),
        cat(&[page(), area(0, 0, 60, 40), posx(900), raster_n(0, 1, 2), page_print()]),
        cat(&[page(), area(0, 0, 60, 40), posy(900), raster_n(0, 1, 2), page_print(), std_mode()]),
        cat(&[page(), area(20, 20, 30, 30), dir(2), posx(900), raster_n(0, 1, 2), raster_n(0, 1, 2)]),
        bar_nul(4, b"A"),
        // a page without an area
        cat(&[page(), t("x"), vec![FF]]),
        cat(&[page(), t("xy"), raster_n(0, 1, 2), vec![FF]]),
        cat(&[page(), bar_nul(4, b"A"), page_print(), std_mode()]),
        cat(&[page(), area(0, 0, 60, 40), t("x"), area(0, 0, 0, 0), raster_n(0, 1, 2), vec![FF]]),
    ];
    let cut = cat(&[lf(), gs(b'V', &[0]), init()]);
    let o = outside.len() as u64;
    let three = |i: u64| [&outside[(i % o) as usize], &outside[(i / o % o) as usize], &outside[(i / o / o) as usize]];
    e.cases("errors of documents", o * o * o, |i| Some(three(i).map(|d| cat(&[d.clone(), cut.clone()])).concat()), |i, l| {
        let errors = |b: &[u8]| (run(b, IMG).child_errors, run(b, FULL).errors.len());
        let all = errors(&three(i).map(|d| cat(&[d.clone(), cut.clone()])).concat());
        let alone = three(i).map(|d| errors(&cat(&[d.clone(), cut.clone()])));
        l.runs += 8;
        l.transitions += 3;
        l.state(digest(&all));
        let sum = alone.iter().fold((0, 0), |a, b| (a.0 + b.0, a.1 + b.1));
        if all != sum {
            return Err(format!("{all:?} errors instead of {sum:?}, which these documents have alone"));
        }
        Ok(())
    });
    // jobs that differ in one thing only
    let twins = twins();
    let tn = twins.len() as u64;
    let twin = |i: u64| (&twins[(i % tn) as usize], &twins[(i / tn) as usize]);
    let first = if e.wants("twins") { alone(&twins.iter().map(|b| vec![&b[..]]).collect::<Vec<_>>()) } else { vec![] };
    e.cases("twins", tn * tn, |i| Some([&twin(i).0[..], twin(i).1].concat()), |i, l| {
        let (a, b) = twin(i);
        run(a, ALLX);
        let after = print(&run(b, ALLX));
        l.runs += 2;
        l.transitions += 1;
        l.state(digest(&a));
        let want = &first[(i / tn) as usize];
        if want != &after {
            return Err(format!("{} is different {}: {after} instead of {want}", hex(b), culprit(b, want, &twins.iter().collect::<Vec<_>>())));
        }
        Ok(())
    });
    // the same job again and again
    let times = e.pick(260, 2000);
    e.cases("the same job many times", n, |i| Some(job(i)), |i, l| {
        let b = job(i);
        let first = run(&b, EV);
        let whole = print(&run(&b, ALLX));
        for k in 0..times {
            let again = run(&b, EV);
            l.runs += 1;
            l.transitions += 1;
            if events(&again) != events(&first) || again.errors != first.errors {
                return Err(format!("it is different the {k}th time"));
            }
        }
        if print(&run(&b, ALLX)) != whole {
            return Err(format!("its documents are different after {times} times"));
        }
        l.state(digest(&b));
        Ok(())
    });
    // one parser object, several streams
    let mut parts: Vec<B> = vec![];
    for c in commands() {
        for k in 1..=c.len().min(20) {
            parts.push(c[..k].to_vec());
        }
    }
    parts.sort();
    parts.dedup();
    let sig: Vec<u8> = vec![0x1B, 0x1D, 0x10, b'(', b'k', b'L', b'@', b'v', b'0', 3, 0, b'A', 0x0A, 0x18];
    let q = sig.len() as u64;
    let depth = e.pick(2, 3);
    let some: u64 = (0..=depth).map(|d| q.pow(d)).sum();
    let short = |i: u64| -> B { sequence(i, q, depth).iter().map(|k| sig[*k]).collect() };
    let pn = parts.len() as u64;
    let of_parser = |i: u64| -> Vec<B> { vec![parts[(i % pn) as usize].clone(), short(i / pn)] };
    #[cfg(feature = "inner")]
    e.cases("parser used again", pn * some, |i| Some(of_parser(i).concat()), |i, l| reused(&of_parser(i), l));
    let of_short = |i: u64| -> Vec<B> { vec![short(i % some), short(i / some % some), short(i / some / some)] };
    let third = e.pick(1 + q, some);
    #[cfg(feature = "inner")]
    e.cases("parser used three times", some * some * third, |i| Some(of_short(i).concat()), |i, l| reused(&of_short(i), l));
    let of_full = |i: u64| -> Vec<B> { vec![dirty[(i % m) as usize].clone(), parts[(i / m) as usize].clone(), job(i % n)] };
    #[cfg(feature = "inner")]
    e.cases("parser used for jobs", m * pn, |i| Some(of_full(i).concat()), |i, l| reused(&of_full(i), l));
    // one renderer object, several jobs
    let jobs: Vec<B> = dirty.iter().step_by(e.pick(3, 1)).cloned().collect();
    let k = jobs.len() as u64;
    #[cfg(feature = "inner")]
    e.cases("renderer used again", k * k, |i| Some([&jobs[(i % k) as usize][..], &jobs[(i / k) as usize]].concat()), |i, l| {
        let (a, b) = (&jobs[(i % k) as usize], &jobs[(i / k) as usize]);
        let mut child: Box<dyn thermal_renderer::renderer::OutputRenderer<_>> = Box::new(HtmlRenderer::new());
        let mut r = thermal_renderer::renderer::Renderer::new(&mut child, profile(false));
        r.render(a);
        let again = r.render(b);
        let fresh = HtmlRenderer::render(b, None);
        l.runs += 3;
        l.transitions += 1;
        l.state(digest(&(a, b)));
        let show = |o: &thermal_renderer::renderer::RenderOutput<thermal_renderer::html_renderer::ReceiptHtml>| {
            (o.output.iter().map(|d| d.content.clone()).collect::<Vec<_>>(), o.errors.iter().map(|e| format!("{e:?}")).collect::<Vec<_>>())
        };
        if show(&again) != show(&fresh) {
            return Err(format!("the document of {} is different after {}", hex(b), hex(a)));
        }
        Ok(())
    });
    // all settings of the debug profile place the same text
    e.cases("debug profile", n * n, |i| Some(cat(&[all[(i / n) as usize].clone(), job(i % n)])), |i, l| {
        let b = cat(&[all[(i / n) as usize].clone(), job(i % n)]);
        let plain = run(&b, EV);
        let debug = run(&b, Level { debug: true, ..EV });
        l.runs += 2;
        l.transitions += 1;
        l.state(digest(&format!("{:?}", texts(&plain))));
        if events(&plain) != events(&debug) || plain.errors != debug.errors {
            return Err("it is different with the debug profile".into());
        }
        Ok(())
    });
    // the output formats: the same errors, documents, and what a user gets
    let of = |i: u64| if i < n { job(i) } else { dirty[(i - n) as usize].clone() };
    e.cases("formats", n + m, |i| Some(of(i)), |i, l| {
        let b = of(i);
        let both = run(&b, ALL);
        let image = run(&b, FULL);
        let page = run(&b, HTML);
        let images = ImageRenderer::render(&b, None);
        let pages = HtmlRenderer::render(&b, None);
        l.runs += 5;
        l.transitions += 4;
        l.state(i);
        if events(&both) != events(&image) || events(&both) != events(&page) {
            return Err("the output formats are given different things".into());
        }
        if both.faults != image.faults || both.faults != page.faults {
            return Err("the output formats report different errors".into());
        }
        let list = |e: &[thermal_renderer::renderer::RenderError]| e.iter().map(|e| format!("{e:?}")).collect::<Vec<_>>();
        if list(&images.errors) != image.errors || list(&pages.errors) != page.errors {
            return Err(format!("errors {:?} {:?} instead of {:?} {:?}", images.errors, pages.errors, image.errors, page.errors));
        }
        if images.output.len() != both.docs.len() || pages.output.len() != both.docs.len() {
            return Err("numbers of documents".into());
        }
        for (k, d) in both.docs.iter().enumerate() {
            let p = d.paper.as_ref().unwrap();
            let px: Vec<u8> = p.px.iter().flat_map(|c| [c[0], c[1], c[2]]).collect();
            if images.output[k].width != p.w || images.output[k].height != p.h || images.output[k].bytes != px {
                return Err(format!("image {k} is different"));
            }
            if &pages.output[k].content != d.html.as_ref().unwrap() {
                return Err(format!("html document {k} is different"));
            }
        }
        Ok(())
    });
    // threads of their own
    let per = 16u64;
    e.cases("threads", (n + m) / per, |_| None, |i, l| {
        let mine: Vec<B> = (i * per..(i + 1) * per).map(of).collect();
        let alone: Vec<_> = mine.iter().map(|b| print(&run(b, ALLX))).collect();
        let together: Vec<Result<_, String>> = std::thread::scope(|s| {
            let hs: Vec<_> = mine.iter().map(|b| s.spawn(move || guarded(|| Ok(print(&run(b, ALLX)))))).collect();
            hs.into_iter().map(|h| h.join().unwrap_or(Err("a thread panicked".into()))).collect()
        });
        l.runs += 2 * per;
        l.transitions += per;
        l.state(i);
        for ((b, a), t) in mine.iter().zip(alone).zip(together) {
            if a != t? {
                return Err(format!("{} is different on another thread", hex(b)));
            }
        }
        Ok(())
    });
    if e.thorough() {
        let total = n * n * n;
        e.cases("three jobs", total, |_| None, |i, l| {
            let (a, b, c) = (&all[(i % n) as usize], &all[(i / n % n) as usize], job(i / n / n));
            run(&cat(&[a.clone(), t("x")]), EV);
            run(&cat(&[b.clone(), t("y")]), EV);
            l.runs += 3;
            l.seen(crate::check::case(&c, EV)?);
            Ok(())
        });
    }
}
