//! C18 faulty commands, C14 HTML
use super::atoms::*;
use super::style::everything;
use crate::compare;
use crate::explore::{pick, Explorer, Local};
use crate::spec::frame::frames;
use crate::spec::machine::Fault;
use crate::sut::*;

/// commands that fail, always, whatever was before
pub fn faulty() -> Vec<B> {
    vec![
        sub(b'Z', b"?"),
        vec![0x1C],
        esc(b'~', &[]),
        vec![0x00],
        gs(0x01, &[]),
        raster(0, 2, 2, b"ab")[..8].to_vec(),
        bar_nul(2, b"12"),
        bar_len(67, b"12345678901x"),
        bar_len(73, b"{C1"),
        bar_len(200, b"xx"),
        bar_nul(5, b"1"),
        bar_nul(6, b"123"),
        bar_len(66, b"123456789012"),
    ]
}

/// The same job with and without the faulty command
fn isolated(a: &[u8], bad: &[u8], b: &[u8], l: &mut Local) -> Result<(), String> {
    // the three parts have to be commands of their own: unknown commands take
    // what follows up to the next recognised one, images take their data
    let ends = |b: &[u8]| frames(b).iter().map(|f| f.end).collect::<Vec<_>>();
    let whole = ends(&[a, bad, b].concat());
    let k = a.len() + bad.len();
    if (!a.is_empty() && !whole.contains(&a.len())) || !whole.contains(&k) || whole.iter().any(|e| *e > a.len() && *e < k) {
        return Ok(());
    }
    if !a.is_empty() && !ends(&[a, b].concat()).contains(&a.len()) {
        return Ok(());
    }
    let with = run(&[a, bad, b].concat(), EV);
    let without = run(&[a, b].concat(), EV);
    let before = run(a, EV);
    l.runs += 3;
    l.transitions += 1;
    let ev = |r: &Result_| compare::canon(&r.docs.iter().flat_map(|d| d.events.iter().cloned()).collect::<Vec<_>>());
    let (x, y) = (ev(&with), ev(&without));
    if x != y {
        let i = x.iter().zip(&y).take_while(|(a, b)| a == b).count();
        return Err(format!(
            "with the faulty command: {} instead of {}",
            x.get(i).map_or("nothing".into(), compare::show),
            y.get(i).map_or("nothing".into(), compare::show)
        ));
    }
    if with.faults.len() != without.faults.len() + 1 {
        return Err(format!("{} errors with the faulty command and {} without", with.faults.len(), without.faults.len()));
    }
    // at its place
    let n = before.faults.len();
    let mut f: Vec<Fault> = with.faults.clone();
    f.remove(n);
    if f != without.faults {
        return Err(format!("errors in a different order: {:?} and {:?}", with.faults, without.faults));
    }
    l.state(&with.faults.iter().map(|f| *f == Fault::Unknown).collect::<Vec<_>>());
    Ok(())
}
type Result_ = Job;

pub fn c18(e: &mut Explorer) {
    let all = everything();
    // faults that do not swallow what follows
    let bad: Vec<B> = faulty().into_iter().filter(|b| b.first() != Some(&0) && b.len() > 1 && b[1] != b'v' && b[1] != b'~' && b[1] != 1).collect();
    let tails: Vec<B> = vec![probe(), lf(), cat(&[vec![FF], t("n")]), cat(&[esc(b'E', &[1]), t("b")]), cat(&[raster_n(0, 1, 1), t("q")]), cat(&[page(), area(0, 0, 99, 99), t("p"), vec![FF]]), cat(&[bar_nul(4, b"A"), qr_print()])];
    // every command around every faulty one, against the model
    e.product("around", &[&all, &faulty(), &all, &[t("x"), probe()]], EV);
    e.sequences("faults in turn", &join(&[&faulty(), &[t("a"), lf(), raster_n(0, 1, 1), bar_nul(4, b"A"), qr_store(b"1"), qr_print(), vec![FF], esc(b'E', &[1]), page(), init()]]), e.pick(4, 5), &t("s"), &probe(), EV);
    // and by leaving it out
    let slots: [&[B]; 4] = [&all, &all, &bad, &tails];
    let total: u64 = slots.iter().map(|s| s.len() as u64).product();
    // undecodable things whose bytes end
    e.cases("left out", total, |i| Some(pick(&slots, i)), |i, l| {
        let m = tails.len() as u64;
        let k = bad.len() as u64;
        let a = pick(&slots[..2], i / m / k);
        isolated(&a, &bad[(i / m % k) as usize], &tails[(i % m) as usize], l)
    });
    // errors per print of something that can't be decoded
    let mut stored: Vec<B> = vec![
        define(67, (b'A', b'A'), 9, 3, &[(49, vec![1, 2])]),
        define(83, (b'A', b'A'), 9, 3, &[(49, vec![1, 2])]),
        buffer(112, 1, 1, 49, 9, 3, b"x"),
        buffer(113, 1, 1, 49, 9, 3, b"x"),
        buffer_n(112, 1, 1, 49, 9, 3),
        qr_store(&pattern(700, 1)),
        qr_store(b"ok"),
        qr(65, &[51, 0]),
        define_n(67, (b'A', b'A'), 9, 3, &[49], 1),
        init(),
        vec![FF],
    ];
    stored.extend([graph(69, b"AA"), graph(85, b"AA"), buffer_print(), qr_print(), t("a"), raster(0, 2, 2, b"abc"), bit(0, 2, b"")]);
    e.sequences("stored faults", &stored, e.pick(4, 5), &[], &cat(&[t("."), graph(69, b"AA"), qr_print(), buffer_print()]), EV);
    e.reach("reached stored faults", &stored, 30, e.pick(500_000, 5_000_000), &[], &cat(&[t("."), graph(69, b"AA"), qr_print(), buffer_print()]), EV);
    // unknown commands: every second byte, every third byte of the groups
    let mut unknown: Vec<B> = vec![];
    for n in 0..=255u8 {
        unknown.extend([vec![n], esc(n, &[]), gs(n, &[]), vec![0x1C, n], vec![0x10, n], c(&[0x1D, b'(', n], &[2, 0, 49, 48]), c(&[0x1D, b'8', n], &[2, 0, 0, 0, 49, 48]), c(&[0x1D, b'v', n], &[]), c(&[0x1B, b'c', n], &[1]), vec![0x18, n]]);
    }
    e.product("unknown commands", &[&[t("a"), vec![], lf(), esc(b'E', &[1])], &unknown, &[t("b"), lf(), esc(b'E', &[1]), vec![0x1B], vec![0x1D], sub(b'Z', b"")], &[t("c"), raster_n(0, 1, 1)]], EV);
    // function codes inside of the groups
    let mut codes: Vec<B> = vec![];
    for n in 0..=255u8 {
        codes.extend([graph(n, b""), graph(n, b"AA"), large(&[48, n, 65, 65]), sub(b'L', &[n, 112]), sub(b'k', &[49, n]), sub(b'k', &[49, n, 48, 49]), sub(b'k', &[n, 80, 48, 65]), sub(b'H', &[n, 1]), sub(b'G', &[n, 1])]);
    }
    e.product("function codes", &[&[t("a"), define_n(67, (b'A', b'A'), 9, 3, &[49], 1)], &codes, &[t("b"), cat(&[vec![0x1C], t("c"), graph(69, b"AA")])]], EV);
    e.product("many faults", &[&often(&faulty(), MANY), &[t("a"), cat(&[lf(), t("a"), vec![FF]])]], EV);
    let turn: Vec<B> = faulty().iter().flat_map(|f| [cat(&[f.clone(), t("k"), lf()]), cat(&[f.clone(), raster_n(0, 1, 1), vec![FF]])]).collect();
    e.product("many faults between", &[&often(&turn, MANY), &[t("a")]], EV);
    e.product("lots of faults", &[&often(&join(&[&faulty(), &turn]), LOTS), &[t("a")]], EV);
    // valid commands report nothing: with images painted and as html
    e.product("painted", &[&faulty(), &all, &faulty()[..4].to_vec(), &[t("z")]], IMG);
    e.product("html", &[&opt(all.clone()), &faulty(), &all, &[t("z")]], HTML);
    e.product("painted between", &[&all, &faulty().iter().step_by(e.pick(7, 1)).cloned().collect::<Vec<_>>(), &all, &[t("z")]], IMG);
    e.product("painted after", &[&all, &faulty(), &[t("z"), probe()]], IMG);
    if e.thorough() {
        e.product("around pairs", &[&all, &all, &faulty(), &all, &[probe()]], EV);
    }
}

pub fn c14(e: &mut Explorer) {
    let st = styles();
    // every character
    let n = 0x3000u64;
    e.streams("characters", n, HTML, |i| {
        let mut b = esc(b't', &[255]);
        for k in 0..8u32 {
            if let Some(ch) = char::from_u32(i as u32 * 8 + k) {
                b.extend(ch.to_string().into_bytes());
            }
        }
        b.extend(lf());
        b
    });
    let bytes: Vec<B> = (0..=255u8).map(|b| vec![b'x', b, b'y', b]).collect();
    e.product("bytes", &[&each(&[0x1B, b't'], &[0, 1, 2, 3, 4, 5, 11, 12, 13, 20]), &each(&[0x1B, b'R'], &[0, 1, 4, 15]), &bytes], HTML);
    // markup and template syntax as text
    let toks: Vec<B> = ["<", ">", "&", "\"", "'", "{{", "}}", "content", "color-1", "receipt-style", "amp;", "lt;", "/span", "p", "script", " ", "=", "{{content}}", "{{color-0}}", "</article>", "#39;", "\\", "$1", "%", "<!--", "&lt;", "\n"]
        .iter()
        .map(|s| t(s))
        .collect();
    e.sequences("markup", &toks, 3, &[], &[], HTML);
    e.sequences("markup in labels", &toks[..16], 2, &gs(b'H', &[2]), &[], HTML);
    let m = toks.len() as u64;
    e.streams("markup in barcodes", m * m * 2, HTML, |i| {
        let d = cat(&[t("{B"), toks[(i % m) as usize].clone(), toks[(i / m % m) as usize].clone()]);
        cat(&[gs(b'H', &[2 + (i / m / m) as u8]), bar_len(73, &d), t("<z>")])
    });
    // style classes
    e.product("styles", &[&st, &st, &[t("Ab"), t("c<d ")], &opt(vec![cat(&[gs(b'!', &[0x21]), t("T")])]), &[lf()]], HTML);
    e.product("style values", &[&STYLE_OPS.iter().flat_map(|o| every(o)).collect::<Vec<_>>(), &[t("Ab"), vec![]], &st[..20].to_vec(), &[t("cd")]], HTML);
    e.product("every look", &[&looks(&sizes()), &[t("A<")]], HTML);
    let mixed: Vec<B> = st.iter().map(|s| cat(&[s.clone(), t("k ")])).collect();
    e.product("mixed lines", &[&each(&[0x1B, b'a'], &[0, 1, 2]), &mixed, &mixed, &[t("e\n")]], HTML);
    // rows: everything in sequence
    let rows: Vec<B> = vec![
        t("ab\n"),
        t("cd"),
        lf(),
        esc(b'd', &[3]),
        esc(b'e', &[2]),
        esc(b'J', &[9]),
        bit_n(0, 9),
        raster_n(0, 2, 5),
        raster_n(0, 0, 5),
        cat(&[buffer_n(112, 1, 1, 50, 20, 5), buffer_n(113, 1, 1, 49, 20, 5), buffer_print()]),
        bar_nul(4, b"A&"),
        bar_nul(4, b"A1"),
        bar_len(73, b"{B<&>"),
        cat(&[qr_store(b"1"), qr_print()]),
        cat(&[page(), area(10, 10, 80, 60), t("p<g>"), vec![FF]]),
        cat(&[page(), area(10, 10, 80, 60), dir(1), t("pg"), bit_n(33, 9), page_print()]),
        cat(&[page(), area(0, 0, 0, 0), vec![FF]]),
        vec![FF],
        esc(b'a', &[1]),
        gs(b'!', &[0x12]),
        esc(b'r', &[1]),
        gs(b'H', &[3]),
        gs(b'V', &[66, 40]),
        posx(99),
        init(),
    ];
    e.sequences("rows", &rows, e.pick(3, 4), &[], &t("end"), HTML);
    e.reach("reached rows", &rows, 30, e.pick(100_000, 2_000_000), &[], &t("end"), HTML);
    e.product("many rows", &[&often(&rows, &[31, 64, 99, 100, 101, 256, 300]), &[t("end")]], HTML);
    e.product("lots of rows", &[&often(&rows, e.pick(&[3500], LOTS)), &[t("end")]], HTML);
    let all = everything();
    e.product("everything", &[&all, &all, &[t("x"), probe()]], HTML);
    e.product("rows after everything", &[&all, &all, &rows.iter().step_by(e.pick(4, 1)).cloned().collect::<Vec<_>>(), &[t("<e>\nf")]], HTML);
    e.product("rows around everything", &[&rows, &all, &rows, &[t("<e>\nf")]], HTML);
    // sizes of images and where they are
    let mut imgs: Vec<B> = vec![];
    for w in (0..=90u16).chain([255, 600, 608, 609, 610, 700]) {
        imgs.push(cat(&[buffer_n(112, 1, 1, 49, w, 3), buffer_print()]));
        imgs.push(cat(&[buffer_n(112, 1, 1, 49, 3, w), buffer_print()]));
        imgs.push(bit_n(33, w));
    }
    e.product("images", &[&each(&[0x1B, b'a'], &[0, 1, 2]), &[vec![], t("a"), posx(50)], &imgs, &[t("b")]], HTML);
    // the same job as an image has the same content
    e.product("colours", &[&(0..=255u8).flat_map(|k| [effects(48, k), effects(49, k)]).collect::<Vec<_>>(), &[vec![], gs(b'B', &[1]), esc(b'r', &[1])], &[cat(&[t("a"), bar_nul(4, b"A"), qr_store(b"1"), qr_print()])]], HTML);
}
