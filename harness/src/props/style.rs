//! C05 style, C06 initialise, C07 layout, C17 movement
use super::atoms::*;
use crate::explore::Explorer;
use crate::sut::*;

pub fn everything() -> Vec<B> {
    join(&[&styles(), &settings(), &moves(), &prints(), &stores(), &pages(), &[init()]])
}

/// the operations of a property after every two commands, and two of them with every two commands between
pub fn apart(e: &mut Explorer, own: &[B], few: &[B], tail: &B) {
    let all = everything();
    let tail = [tail.clone()];
    e.product("after everything", &[&all, &all, own, &tail], EV);
    e.product("apart", &[few, &all, &all, few, &tail], EV);
    e.product("after everything painted", &[&opt(few.to_vec()), &all, few, &tail], IMG);
    e.product("after everything in html", &[&opt(few.to_vec()), &all, few, &tail], HTML);
    let some: Vec<B> = few.iter().step_by(e.pick(4, 1)).cloned().collect();
    e.product("after two of everything painted", &[&all, &all, &some, &tail], IMG);
    e.product("after two of everything in html", &[&all, &all, &some, &tail], HTML);
    if e.thorough() {
        e.product("after three of everything", &[&all, &all, &all, few, &tail], EV);
    }
}

pub fn c05(e: &mut Explorer) {
    let texts = [t("Ab\u{82}c"), cat(&[t("x"), lf(), t("y#")]), t("")];
    // every value of every style command between two texts
    let one: Vec<B> = STYLE_OPS.iter().flat_map(|o| every(o)).collect();
    let mut effect: Vec<B> = vec![];
    for s in 0..=255 {
        for k in [48, 49, 50, 51, 0, 2, 255] {
            effect.push(effects(s, k));
            effect.push(effects(k, s));
        }
    }
    effect.extend([sub(b'N', &[]), sub(b'N', &[48]), sub(b'N', &[48, 50, 51]), sub(b'N', &[49, 51, 0, 0])]);
    let control: Vec<B> = CONTROL_OPS.iter().flat_map(|o| every(o)).collect();
    let st = styles();
    e.product("every value", &[&opt(st.clone()), &texts, &join(&[&one, &effect, &control]), &[t("Mn"), cat(&[lf(), t("o")])]], EV);
    // ESC ! and its neighbours replace exactly their own attributes
    e.product("every print mode", &[&join(&[&st, &settings()]), &[t("a")], &join(&[&every(&[0x1B, b'!']), &every(&[0x1D, b'!'])]), &[t("b")], &opt(st.clone()), &[t("c")]], EV);
    // settings in sequence, text between them
    let between: Vec<B> = st.iter().map(|s| cat(&[s.clone(), t("k")])).collect();
    e.sequences("styles in turn", &st, e.pick(3, 4), &t("a"), &t("zz"), EV);
    e.sequences("styles with text", &between, 3, &[], &lf(), EV);
    e.reach("reached styles", &st, 30, e.pick(3_000_000, 20_000_000), &t("a"), &t("zz"), EV);
    e.reach("reached styles with text", &between, 30, e.pick(1_500_000, 20_000_000), &[], &lf(), EV);
    // a setting survives everything else
    let mut others = join(&[&settings(), &moves(), &prints(), &stores(), &pages(), &[sub(b'N', b"0"), gs(b'I', &[1]), vec![0x1C], esc(b'c', b"3A")]]);
    others.push(cat(&[vec![FF]]));
    e.product("settings last", &[&st, &others, &[t("t")], &others, &[t("u")]], EV);
    let tail = opt(others.iter().step_by(e.pick(9, 1)).cloned().collect());
    e.product("settings last longer", &[&st, &others, &others, &[t("t")], &tail, &[t("u")]], EV);
    e.product("settings and justification", &[&st, &st, &each(&[0x1B, b'a'], &[0, 1, 2]), &[t("k lm"), t("k\nlm\n")], &st, &[t("end")]], EV);
    let toggles: Vec<B> = st.iter().map(|s| cat(&[s.clone(), t("i"), init(), t("j")])).chain(between.iter().cloned()).collect();
    e.product("many changes", &[&often(&toggles, MANY), &[t("end")]], EV);
    e.product("lots of changes", &[&often(&toggles, LOTS), &[t("end")]], EV);
    // all attributes at once
    let words = cat(&[t("Ab c"), lf(), t(&"overlong".repeat(10)), vec![9], t("d")]);
    let every_look = looks(&sizes());
    let some_looks = looks(e.pick(&[0x00, 0x01, 0x10, 0x32], &[0x00, 0x01, 0x10, 0x11, 0x32, 0x23, 0x77]));
    e.product("every look", &[&every_look, &[words.clone()], &opt(vec![init()]), &[t("z")]], EV);
    e.product("every look painted", &[&some_looks, &[t("Ag|_")]], IMG);
    e.product("every look in html", &[&some_looks, &[cat(&[t("Ag"), lf(), t("b")])]], HTML);
    apart(e, &[t("Ab c\nd\te")], &[esc(b'!', &[0xB9]), gs(b'!', &[0x12]), cat(&[esc(b'E', &[1]), t("b")]), cat(&[esc(b'-', &[2]), t("u"), esc(b'-', &[0])]), gs(b'B', &[1]), cat(&[esc(b'G', &[1]), t("s"), esc(b'M', &[1])]), effects(48, 49)], &t("Az k\nl"));
    // as painted
    let cells = [t("Ag#|_\u{80}"), t("M")];
    let edges: Vec<B> = vec![
        cat(&[esc(b'a', &[2]), t("Ag#|_\u{80}")]),
        cat(&[esc(b'a', &[2]), t("k Lm"), lf(), t("M")]),
        cat(&[posx(597), t("M")]),
        cat(&[posx(9), t("Ag").repeat(25), t("x")]),
        cat(&[posx(600), t("M g")]),
        cat(&[esc(b'M', &[1]), esc(b'a', &[2]), t("Ag")]),
        cat(&[page(), area(30, 20, 72, 48), t("Ag#|_kM g"), vec![FF]]),
        cat(&[page(), area(30, 20, 72, 43), dir(1), t("Ag#|_kM g"), vec![FF]]),
        cat(&[page(), area(30, 20, 72, 41), dir(2), esc(b'a', &[2]), t("Ag#|_kM g"), vec![FF]]),
        cat(&[page(), area(30, 20, 73, 48), dir(3), esc(b'a', &[1]), t("Ag#|_kM g"), vec![FF]]),
    ];
    e.product("painted at the edges", &[&st, &opt(st.iter().step_by(e.pick(3, 1)).cloned().collect()), &edges], IMG);
    e.product("painted styles", &[&st, &st, &cells, &opt(vec![cat(&[gs(b'!', &[0x11]), t("B")])])], IMG);
    if e.thorough() {
        e.product("painted triples", &[&st, &st, &st, &cells], IMG);
        e.product("html triples", &[&st, &st, &st, &cells], HTML);
        e.product("every two values", &[&one, &texts[..1].to_vec(), &one, &[t("b")]], EV);
    } else {
        e.product("html styles", &[&st, &st, &cells], HTML);
    }
}

pub fn c06(e: &mut Explorer) {
    let all = everything();
    let one: Vec<B> = STYLE_OPS.iter().chain(CONTROL_OPS).flat_map(|o| every(o)).collect();
    let p = [probe()];
    let i = [init()];
    // what a job does after the initialise
    let after: Vec<B> = vec![
        vec![],
        cat(&[page(), area(10, 20, 200, 100), t("pg"), posx(20), posy(10), t("r"), vec![FF]]),
        cat(&[esc(b'D', &[3, 2]), t("\t\t\t1"), gs(b'P', &[80, 90]), posx(90), t("2"), lf()]),
        cat(&[gs(b'!', &[0x10]), t("big"), esc(b'G', &[0]), t("s"), qr_store(b"77"), qr_print(), gs(b'H', &[2]), bar_nul(2, b"123456789012")]),
    ];
    e.product("every value", &[&one, &i, &after, &p], EV);
    e.product("pairs", &[&all, &all, &i, &after, &p], EV);
    e.product("twice", &[&all, &i, &all, &i, &after, &p], EV);
    let deep = join(&[&settings(), &stores(), &pages()]);
    e.product("triples", &[&deep, &deep, &deep, &i, &p], EV);
    // each tab stop, shown by itself
    let mut stops: Vec<B> = vec![];
    for k in 0..32u8 {
        let others: B = (0..32u8).filter(|j| *j != k).flat_map(|j| esc(b'D', &[1, j])).collect();
        for n in [0u8, 3, 60, 255] {
            stops.push(cat(&[esc(b'D', &[n, k]), vec![9], t("a"), init(), others.clone(), vec![9; 40], t("x")]));
        }
    }
    e.product("each tab stop", &[&opt(pages()), &stops, &p], EV);
    // every key, every pair of values of settings of two bytes
    let mut two: Vec<B> = vec![];
    for n in 0..=255u8 {
        for m in [0u8, 1, 49, 100, 255] {
            two.extend([gs(b'P', &[n, m]), gs(b'P', &[m, n]), graph(49, &[n, m]), effects(n, m), effects(m, n), esc(b'D', &[n, m])]);
            two.push(cat(&[define_n(67, (n, m), 8, 2, &[49], n), init(), graph(69, &[n, m])]));
            two.push(cat(&[define_n(84, (m, n), 2, 8, &[50], n), init(), graph(85, &[m, n])]));
            two.push(cat(&[qr(67, &[n]), qr(69, &[m]), qr(65, &[m, 0])]));
        }
    }
    e.product("two values", &[&opt(vec![page(), t("a")]), &two, &i, &after, &p], EV);
    // the output before it is not altered
    e.product("output", &[&prints(), &all, &i, &prints(), &p], EV);
    e.product("painted", &[&all, &opt(prints()), &i, &after[..2].to_vec(), &p], IMG);
    e.product("painted pairs", &[&all, &all, &i, &p], IMG);
    e.product("html", &[&all, &opt(all.clone()), &i, &after, &p], HTML);
    // the same without the model: nothing of the past but the position is left
    let n = all.len() as u64;
    let tails: Vec<B> = after.iter().map(|a| cat(&[a.clone(), probe()])).collect();
    let describe = |k: u64| {
        let s = crate::explore::sequence(k / tails.len() as u64, n, 2);
        let mut b: B = s.iter().flat_map(|i| all[*i].clone()).collect();
        b.extend(init());
        b.extend(&tails[k as usize % tails.len()]);
        b
    };
    let total = (1 + n + n * n) * tails.len() as u64;
    e.cases("no past", total, |k| Some(describe(k)), |k, l| {
        let b = describe(k);
        let cut = b.len() - tails[k as usize % tails.len()].len();
        forgets(&b[..cut], &b[cut..], l)
    });
    e.product("all triples", &[&all, &all, &all, &i, &p], EV);
    e.product("lots", &[&often(&all, &[257, 1025, 4097]), &i, &p], EV);
    e.product("lots of initialises", &[&opt(pages()), &often(&all.iter().map(|a| cat(&[a.clone(), init()])).collect::<Vec<_>>(), &[257, 1025]), &p], EV);
    // more than one initialise, and pages of a past
    e.product("three times", &[&deep, &i, &deep, &i, &deep, &i, &p], EV);
    if e.thorough() {
        e.product("settings four times", &[&deep, &deep, &deep, &deep, &i, &p], EV);
    }
}

/// Events of `past` + `rest`, where past ends with ESC @, against those of ESC @ + `rest`
fn forgets(past: &[u8], rest: &[u8], l: &mut crate::explore::Local) -> Result<(), String> {
    use crate::compare::Canon;
    let ev = |b: &[u8]| -> Vec<Canon> {
        let r = run(b, EV);
        crate::compare::canon(&r.docs.iter().flat_map(|d| d.events.iter().cloned()).collect::<Vec<_>>())
    };
    // an image that misses its bytes takes the initialise as data
    let fr = crate::spec::frame::frames(past);
    if fr.last().map(|f| f.op) != Some(crate::spec::frame::Op::Init) {
        return Ok(());
    }
    let before = ev(past);
    let whole = ev(&[past, rest].concat());
    let fresh = ev(&[&init()[..], rest].concat());
    l.runs += 3;
    l.transitions += whole.len() as u64;
    // up to its end, the output before is the same
    let k = before.len() - 1;
    if before[..k] != whole[..k] {
        return Err("the output before the initialise is altered".into());
    }
    let Canon::End(y) = &before[k] else { return Err("no end of the document".into()) };
    let Some(Canon::Begin(first)) = fresh.first() else { return Err("no begin of the document".into()) };
    let shift = *y as i64 - *first as i64;
    let moved = |c: &Canon, on: bool| -> Canon {
        let f = |y: u32| if on { (y as i64 + shift) as u32 } else { y };
        match c.clone() {
            Canon::Line { mut cells, looks, max_height, just, page } => {
                cells.iter_mut().for_each(|c| c.2 = if page { c.2 } else { f(c.2) });
                Canon::Line { cells, looks, max_height, just, page }
            }
            Canon::Rects { color, mut rects, page } => {
                rects.iter_mut().for_each(|r| r.1 = if page { r.1 } else { f(r.1) });
                Canon::Rects { color, rects, page }
            }
            Canon::Image { mut pic, page } => {
                pic.y = if page { pic.y } else { f(pic.y) };
                Canon::Image { pic, page }
            }
            Canon::PrintPage(x, y) => Canon::PrintPage(x, f(y)),
            Canon::End(y) => Canon::End(f(y)),
            c => c,
        }
    };
    let got = &whole[k..];
    let want = &fresh[1..];
    l.state(want.len());
    // only the document that is open moves
    let mut open = true;
    if got.len() != want.len() {
        return Err(format!("{} print events after the initialise instead of {}", got.len(), want.len()));
    }
    for (g, w) in got.iter().zip(want) {
        if *g != moved(w, open) {
            return Err(format!(
                "after the initialise: {} instead of {} (moved by {shift})",
                crate::compare::show(g),
                crate::compare::show(w)
            ));
        }
        if matches!(w, Canon::End(_)) {
            open = false;
        }
    }
    Ok(())
}

pub fn c07(e: &mut Explorer) {
    let word = |n: usize| -> B { (0..n).map(|i| b'a' + (i % 26) as u8).collect() };
    let sizes = [
        vec![],
        gs(b'!', &[0x10]),
        gs(b'!', &[0x01]),
        gs(b'!', &[0x32]),
        gs(b'!', &[0x77]),
        esc(b'M', &[1]),
        cat(&[esc(b'M', &[1]), gs(b'!', &[0x21])]),
    ];
    let justs = each(&[0x1B, b'a'], &[0, 1, 2]);
    // one word of every length after one of every length
    let lens: Vec<B> = (0..=110).map(word).collect();
    let spaced: Vec<B> = (0..=60).map(|n| cat(&[word(n), t(" ")])).collect();
    e.product("two words", &[&justs, &sizes, &spaced, &lens, &[t(" z"), lf()]], EV);
    // positions and words of all lengths
    let xs: Vec<B> = (0..=24).map(posx).chain((3..=60).map(|k| posx(k * 10 + 3 * (k % 3)))).chain([589, 597, 600, 606].map(posx)).chain([posx(608), posx(609), posx(610), posx(700), posx(65535)]).collect();
    e.product("words at positions", &[&justs, &sizes, &xs, &lens, &[t("\tq r")]], EV);
    // sequences of everything that shapes a line
    let shape: Vec<B> = vec![
        t("a"),
        t("bc "),
        t(" "),
        word(30),
        word(51),
        t("wrapping words of a line "),
        lf(),
        vec![9],
        vec![13],
        gs(b'!', &[0x11]),
        gs(b'!', &[0x00]),
        gs(b'!', &[0x30]),
        esc(b'M', &[1]),
        esc(b'E', &[1]),
        esc(b'a', &[1]),
        esc(b'a', &[2]),
        esc(b'3', &[5]),
        esc(b'3', &[50]),
        posx(290),
    ];
    e.sequences("line shapes", &shape, e.pick(4, 5), &[], &t("."), EV);
    e.reach("reached shapes", &shape, 30, e.pick(2_000_000, 20_000_000), &[], &t("."), EV);
    let mut long: Vec<B> = [100usize, 255, 256, 257, 1000, 5000, 70000].iter().map(|n| word(*n)).collect();
    long.extend([255usize, 256, 257, 3000].iter().flat_map(|n| [t("ab ").repeat(*n), vec![9; *n], vec![LF; *n], t(" ").repeat(*n), t("a\t").repeat(*n), cat(&[word(30), lf()]).repeat(*n)]));
    let upto = e.pick(4200usize, 20_000);
    let k = sizes.len() as u64;
    e.streams("words of every length", (upto as u64 + 1 + 3 * 80) * k, EV, |i| {
        let n = (i / k) as usize;
        let n = if n <= upto { n } else { [8150, 16_350, 65_500][(n - upto - 1) / 80] + (n - upto - 1) % 80 };
        cat(&[sizes[(i % k) as usize].clone(), word(n), t(" z y")])
    });
    e.product("long texts", &[&justs, &sizes, &long, &[t("."), cat(&[lf(), t("x y")])]], EV);
    e.product("many", &[&justs, &often(&shape, MANY), &[t(". e")]], EV);
    e.product("lots", &[&justs, &often(&shape, LOTS), &[t(". e")]], EV);
    apart(e, &shape, &[cat(&[word(51), t(" x")]), t("\tq\t"), t("l\nm"), cat(&[gs(b'!', &[0x11]), t("B")]), cat(&[esc(b'a', &[2]), t("r")]), cat(&[posx(290), t("p")]), cat(&[esc(b'D', &[2, 1]), t("\t\tk")])], &t(". wrapping words of a line, up to the end \tof it\ne"));
    // tab stops
    let tabs: Vec<B> = [0u8, 1, 3, 8, 17, 60, 255].iter().flat_map(|l| [0u8, 1, 2, 31, 32, 255].iter().map(move |a| esc(b'D', &[*l, *a]))).collect();
    let runs: Vec<B> = (0..=9).map(|n| cat(&[word(n), vec![9], t("x"), vec![9, 9], t("yy"), vec![9], word(40), vec![9], t("z")])).collect();
    e.product("tab stops", &[&justs, &sizes, &opt(tabs.clone()), &tabs, &runs], EV);
    e.product("tabs at positions", &[&justs, &sizes, &xs, &opt(tabs[..12].to_vec()), &[t("\tA\tB C\tD"), t("\t\t\t\t\t\t\t\t\tA")]], EV);
    // each one and two of the stops with nothing between the others
    let flat: B = (0..32u8).flat_map(|k| esc(b'D', &[0, k])).collect();
    let lone: Vec<B> = (0..=33u8).chain([63, 64, 127, 128, 255]).flat_map(|k| [1u8, 3, 20, 50, 51, 255].map(|n| cat(&[flat.clone(), esc(b'D', &[n, k])]))).collect();
    let lines = [t("\tx\ty"), t("a\tx"), t("abcd\tx\ty\tz"), vec![9; 3], cat(&[vec![9; 33], t("x")])];
    e.product("each stop", &[&opt(pages()), &sizes, &lone, &lines, &[t("\n.\t.")]], EV);
    let pair: Vec<B> = (0..32u8).flat_map(|j| (0..32u8).map(move |k| (j, k))).flat_map(|(j, k)| {
        let flat = &flat;
        [(1u8, 1u8), (3, 2), (20, 7)].map(|(m, n)| cat(&[flat.clone(), esc(b'D', &[m, j]), esc(b'D', &[n, k])]))
    }).collect();
    e.product("pairs of stops", &[&pair, &lines, &[t("\n.\t.\t.")]], EV);
    // line spacing against the tallest character
    let spacing: Vec<B> = join(&[&every(&[0x1B, b'3']), &[esc(b'2', &[])]]);
    e.product("line heights", &[&spacing, &sizes, &[t("a\n"), t("a"), t("a\n\n")], &sizes, &[t("b\nc\n\nd")]], EV);
    // in a page
    let areas = [area(0, 0, 100, 100), area(30, 10, 12, 200), area(5, 5, 11, 50), area(100, 0, 600, 40), area(0, 0, 0, 0), area(600, 0, 100, 50)];
    let dirs = each(&[0x1B, b'T'], &[0, 1, 2, 3]);
    let few: Vec<B> = [0, 1, 5, 8, 9, 40].iter().map(|n| word(*n)).collect();
    e.product("page lines", &[&[page()], &areas, &dirs, &justs, &sizes, &few, &[t(" "), t("\t"), lf()], &few, &[cat(&[t(" e"), vec![FF]])]], EV);
    e.product("page positions", &[&[page()], &areas, &dirs, &sizes, &[posx(0), posx(7), posx(50), posx(90), posx(99), posx(100), posx(500)], &[posy(0), posy(13), posy(90), posy(300)], &few, &[cat(&[t("\tx yy"), lf(), vec![FF]])]], EV);
    // lines that are filled to the last dot
    let exact = [area(0, 0, 108, 200), area(0, 0, 120, 200), area(17, 3, 96, 90), area(0, 0, 12, 200), area(501, 0, 108, 72), area(0, 0, 121, 120)];
    let upto: Vec<B> = (0..=22).map(word).collect();
    let upto_spaced: Vec<B> = (0..=22).map(|n| cat(&[word(n), t(" ")])).collect();
    e.product("full lines", &[&[page()], &exact, &dirs[..e.pick(2, 4)].to_vec(), &justs, &sizes, &upto_spaced, &upto, &[cat(&[t(" zz y"), vec![FF]])]], EV);
    e.product("full lines at positions", &[&[page()], &exact, &dirs[..1].to_vec(), &sizes, &[0u16, 1, 11, 12, 24, 60, 84, 96, 107, 108, 109].map(posx), &upto, &[t(" "), t("\t")], &upto[..14].to_vec(), &[vec![FF]]], EV);
    // other characters than ASCII, white space of other scripts
    let wide = [
        t("äöü ß€"),
        t("a\u{A0}b\u{2003}c\u{3000}d"),
        t("\u{85}x\u{2028}y"),
        cat(&[t("日本語テキスト"), t(" "), t("ну и")]),
        vec![0xFF, 0xC3, b'a', 0xE2, 0x82],
        [t("é"); 1].concat().repeat(60),
    ];
    e.product("utf-8 lines", &[&[esc(b't', &[255])], &justs, &sizes, &spaced, &wide, &[t("z"), lf()]], EV);
    // every byte as text
    let bytes: Vec<B> = (0..=255u8).map(|b| vec![b'p', b, b'q']).collect();
    e.product("every byte", &[&each(&[0x1B, b't'], &[0, 1, 2, 3, 4, 5, 11, 12, 13, 255]), &sizes[..3].to_vec(), &bytes, &few], EV);
    // barcode text
    let hri: Vec<B> = each(&[0x1D, b'H'], &[1, 2, 3]);
    let labels = [bar_nul(4, b"LONG LABEL WITH WORDS THAT DO NOT FIT INTO THE LINE AT ALL"), bar_nul(4, b"A"), bar_len(73, b"{Ba b\tc"), bar_len(73, b"{Bx\ny z")];
    e.product("label lines", &[&justs, &sizes, &hri, &labels, &[t("k")]], EV);
    // painted
    e.product("painted lines", &[&justs, &sizes, &[t("Ab "), t("abc\tdef ")], &sizes, &[word(20), t("y z\nq")]], IMG);
    e.product("html lines", &[&justs, &sizes, &[t("Ab "), t("abc\tdef ")], &sizes, &[word(20), t("y z\nq")]], HTML);
    e.sequences("painted shapes", &shape, 3, &[], &t("."), IMG);
    e.sequences("html shapes", &shape, e.pick(3, 4), &[], &t("."), HTML);
    e.product("painted positions", &[&justs, &sizes, &xs, &[t("ab"), word(33), t("a bc\td\n e")]], IMG);
    e.product("html positions", &[&justs, &sizes, &xs, &few, &[t("\tq r")]], HTML);
    e.product("painted heights", &[&spacing.iter().step_by(e.pick(5, 1)).cloned().collect::<Vec<_>>(), &sizes, &sizes, &[t("b\nc\n\nd")]], IMG);
    e.product("html heights", &[&spacing, &sizes, &[t("a\n"), t("a\n\n")], &sizes, &[t("b\nc\n\nd")]], HTML);
    e.product("painted page lines", &[&[page()], &areas, &dirs, &justs, &sizes, &few, &[t(" b"), lf()], &[cat(&[t(" e"), vec![FF]])]], IMG);
    if e.thorough() {
        e.product("three words", &[&justs, &sizes, &spaced, &spaced, &lens], EV);
    }
}

pub fn c17(e: &mut Explorer) {
    let justs = each(&[0x1B, b'a'], &[0, 1, 2]);
    // every value of the movements
    let mut one: Vec<B> = [[0x1B, b'd'], [0x1B, b'J'], [0x1B, b'e'], [0x1D, b'V'], [0x1B, b'3']].iter().flat_map(|o| every(o)).collect();
    for n in 0..=255u8 {
        for m in [0, 1, 65, 66, 97, 98, 103, 104, 67, 255] {
            one.push(gs(b'V', &[m, n]));
        }
        one.push(gs(b'V', &[n, 9]));
    }
    let lead = [vec![], t("a"), cat(&[t("a"), lf(), t("bc")]), cat(&[esc(b'd', &[5]), gs(b'!', &[0x11]), t("T")])];
    let tail = [t("end"), cat(&[lf(), t("e"), vec![FF], t("next")])];
    e.product("every value", &[&lead, &opt(vec![esc(b'3', &[7]), esc(b'3', &[80]), gs(b'P', &[20, 30])]), &one, &tail], EV);
    // sixteen bit positions
    let step = e.pick(97, 1);
    let all16: Vec<u16> = (0..=65535u32).step_by(step).map(|n| n as u16).chain([1, 2, 3, 255, 256, 257, 511, 512, 607, 608, 609, 610, 32767, 32768, 32769, 65534, 65535]).collect();
    let mut at: Vec<B> = all16.iter().map(|n| posx(*n)).collect();
    at.extend(all16.iter().map(|n| rely(*n as i16)));
    at.extend(all16.iter().map(|n| posy(*n)));
    e.product("positions", &[&[t("a"), vec![]], &opt(vec![gs(b'P', &[101, 67])]), &at, &[t("end")]], EV);
    let ptail = [cat(&[t("q"), lf(), t("r"), vec![FF], t("s")])];
    let dirs = each(&[0x1B, b'T'], &[0, 1, 2, 3]);
    let some: Vec<B> = at.iter().step_by(e.pick(5, 9)).cloned().collect();
    e.product("page positions", &[&[cat(&[page(), area(30, 20, 300, 200)])], &dirs, &[vec![], t("a"), esc(b'J', &[77])], &opt(vec![gs(b'P', &[101, 67])]), &some, &ptail], EV);
    // motion units of every density
    let units: Vec<B> = (0..=255).flat_map(|n| [gs(b'P', &[n, 100]), gs(b'P', &[100, n]), gs(b'P', &[n, n])]).collect();
    let dens = [vec![], graph(49, &[50, 50]), graph(49, &[51, 51]), graph(1, &[51, 51]), graph(49, &[50, 51])];
    e.product("motion units", &[&dens, &opt(units.iter().step_by(29).cloned().collect()), &units, &[posx(400), posx(33)], &[t("x")]], EV);
    e.product("motion units in a page", &[&dens, &units, &[cat(&[page(), area(200, 120, 900, 600)]), cat(&[page(), area(20, 30, 500, 400), dir(1)])], &[cat(&[posx(100), posy(50), t("x"), rely(-40), t("y"), vec![FF]])]], EV);
    // sequences
    let mv = vec![
        t("ab"),
        lf(),
        vec![13],
        esc(b'd', &[0]),
        esc(b'd', &[3]),
        esc(b'J', &[40]),
        esc(b'e', &[1]),
        esc(b'e', &[50]),
        esc(b'3', &[30]),
        esc(b'2', &[]),
        posx(120),
        gs(b'P', &[100, 50]),
        gs(b'V', &[1]),
        gs(b'V', &[65, 30]),
        vec![FF],
        bit_n(0, 4),
        raster_n(0, 2, 5),
        gs(b'!', &[0x12]),
        init(),
        graph(49, &[51, 51]),
    ];
    e.sequences("movements", &mv, e.pick(4, 5), &[], &t("z"), EV);
    e.reach("reached places", &mv, 30, e.pick(3_000_000, 20_000_000), &[], &t("z"), EV);
    apart(e, &mv, &[lf(), vec![13], esc(b'd', &[3]), esc(b'J', &[40]), cat(&[t("k"), esc(b'e', &[1])]), cat(&[esc(b'3', &[30]), t("l\n")]), posx(120), gs(b'V', &[65, 30])], &cat(&[t("z\ny"), vec![FF], t("n")]));
    e.product("many", &[&often(&mv, MANY), &[t("z"), cat(&[vec![FF], t("z"), lf()])]], EV);
    e.product("lots", &[&often(&mv, LOTS), &[t("z"), cat(&[vec![FF], t("z"), lf()])]], EV);
    // further than a number of two bytes
    let far: Vec<B> = vec![esc(b'd', &[255]), esc(b'J', &[255]), esc(b'e', &[255]), lf(), cat(&[t("k"), lf()]), cat(&[t("w"), posx(65535), t("v")]), gs(b'V', &[66, 255]), bit_n(33, 9)];
    e.product("far down", &[&opt(vec![esc(b'3', &[255]), esc(b'3', &[0]), gs(b'P', &[1, 1])]), &often(&far, &[1, 2, 85, 86, 128, 129, 255, 256, 257, 258, 1000]), &[t("m"), esc(b'e', &[255]).repeat(3), lf()], &far, &[cat(&[t("z"), lf(), t("y"), vec![FF], t("n")])]], EV);
    e.product("many documents", &[&often(&prints().iter().map(|p| cat(&[p.clone(), vec![FF]])).collect::<Vec<_>>(), MANY), &[t("z")]], EV);
    e.product("lots of documents", &[&often(&prints().iter().map(|p| cat(&[p.clone(), vec![FF]])).collect::<Vec<_>>(), LOTS), &[t("z")]], EV);
    // documents: everything belongs to exactly one of them
    let all = everything();
    e.product("documents", &[&all, &[vec![FF]], &all, &[cat(&[t("m"), vec![FF], t("n")])]], EV);
    e.sequences("documents painted", &[vec![FF], t("ab\n"), raster_n(0, 2, 9), cat(&[page(), area(0, 0, 60, 50), t("pg")]), bar_nul(4, b"A"), gs(b'V', &[66, 3]), esc(b'e', &[2]), esc(b'd', &[2])], 3, &[], &[], FULL);
    e.product("movements in html", &[&justs, &mv, &mv, &mv, &[t("z\n")]], HTML);
    e.sequences("movements painted", &mv, 3, &[], &t("z"), IMG);
    e.product("documents of everything", &[&all, &[vec![FF]], &all, &[cat(&[t("m"), vec![FF], t("n")])]], FULL);
    e.product("movements in a page", &[&[cat(&[page(), area(15, 25, 200, 150)])], &dirs, &mv, &mv, &mv, &[t("z")]], EV);
}
