//! C02 framing, C03 round trip and C04 reading of thermal files
use super::atoms::*;
use super::style::everything;
use crate::explore::{hex, pick, sequence, Explorer, Local};
use crate::spec::frame::{frames, Op, ROWS};
use crate::spec::thermal;
use thermal_parser::command::{Command, CommandType};

fn parts(c: &Command) -> (Vec<u8>, Vec<u8>) {
    // the opcode of unknown commands is part of their data
    if c.kind == CommandType::Unknown {
        return (vec![], c.data.clone());
    }
    c.handler.get_command_bytes(c)
}

/// The commands of `b` against the reference framing
fn framed(b: &[u8], l: &mut Local) -> Result<(), String> {
    let cmds = thermal_parser::parse_esc_pos(&b.to_vec());
    let want = frames(b);
    l.runs += 1;
    l.transitions += b.len() as u64;
    if cmds.len() < 2 {
        return Err(format!("{} commands", cmds.len()));
    }
    for (i, what) in [(0, "first"), (cmds.len() - 1, "last")] {
        let (op, data) = parts(&cmds[i]);
        if !op.is_empty() || !data.is_empty() || cmds[i].kind != CommandType::Control {
            return Err(format!("the {what} command has bytes: {}", hex(&[op, data].concat())));
        }
    }
    let got = &cmds[1..cmds.len() - 1];
    let mut at = 0;
    for (i, c) in got.iter().enumerate() {
        let (op, data) = parts(c);
        let all = [op.clone(), data].concat();
        let Some(f) = want.get(i) else {
            return Err(format!("command {i} at {at} ({}) is one too many", hex(&all)));
        };
        if f.start != at || b[f.start..f.end] != all[..] {
            return Err(format!("command {i} is {} instead of {} ({})", hex(&all), hex(&b[f.start..f.end]), f.name));
        }
        at += all.len();
        let kind = match f.op {
            Op::Unknown => c.kind == CommandType::Unknown,
            Op::Text => c.kind == CommandType::Text && op.is_empty(),
            _ => c.kind != CommandType::Unknown && !op.is_empty() && op.starts_with(&b[f.start..f.body]),
        };
        if !kind {
            return Err(format!("command {i} ({}) is not a {}: {}", hex(&all), f.name, c.name));
        }
    }
    if got.len() != want.len() {
        return Err(format!("{} commands instead of {}, {} of {} bytes", got.len(), want.len(), at, b.len()));
    }
    l.state(want.iter().map(|f| (f.name, f.complete, f.unsupported, (f.end - f.start).min(9))).collect::<Vec<_>>());
    Ok(())
}

fn back(b: &[u8], l: &mut Local) -> Result<(), String> {
    let cmds = thermal_parser::parse_esc_pos(&b.to_vec());
    let text = thermal_parser::thermal_file::cmds_to_thermal(&cmds);
    let again = thermal_parser::thermal_file::parse_str(&text);
    l.runs += 1;
    l.transitions += cmds.len() as u64;
    l.state(cmds.iter().map(|c| (c.name.to_string(), c.data.len().min(12))).collect::<Vec<_>>());
    if again != b {
        return Err(format!("{} became {} through {text:?}", hex(b), hex(&again)));
    }
    // the text is also what it says
    let read = thermal::read(&text);
    if read != b {
        return Err(format!("{} is written as {text:?}, which means {}", hex(b), hex(&read)));
    }
    Ok(())
}

type Case = fn(&[u8], &mut Local) -> Result<(), String>;

fn strings(e: &mut Explorer, name: &str, alphabet: &[u8], depth: u32, f: Case) {
    let n = alphabet.len() as u64;
    let total = (0..=depth).map(|d| n.pow(d)).sum();
    let make = |i| -> B { sequence(i, n, depth).iter().map(|k| alphabet[*k]).collect() };
    e.cases(name, total, |i| Some(make(i)), |i, l| f(&make(i), l));
}

fn items(e: &mut Explorer, name: &str, items: &[B], depth: u32, f: Case) {
    let n = items.len() as u64;
    let total = (0..=depth).map(|d| n.pow(d)).sum();
    let make = |i| -> B { sequence(i, n, depth).iter().flat_map(|k| items[*k].iter().copied()).collect() };
    e.cases(name, total, |i| Some(make(i)), |i, l| f(&make(i), l));
}

fn product(e: &mut Explorer, name: &str, slots: &[&[B]], f: Case) {
    let total = slots.iter().map(|s| s.len() as u64).product();
    e.cases(name, total, |i| Some(pick(slots, i)), |i, l| f(&pick(slots, i), l));
}

/// bytes of all opcodes and of parameters that matter
pub fn structural() -> Vec<u8> {
    let mut v: Vec<u8> = ROWS.iter().flat_map(|r| r.opcode.iter().copied()).collect();
    v.extend([0, 1, 2, 3, 4, 5, 6, 7, 0x10, 0x1C, 0x20, 0x22, 0x27, 0x2F, 0x30, 0x31, 0x41, 0x42, 0x43, 0x44, 0x5C, 0x70, 0x80, 0x85, 0xC3, 0xA9, 0xE2, 0xFF]);
    v.sort();
    v.dedup();
    v
}

/// every command with parameters of many kinds
pub fn commands() -> Vec<B> {
    let mut v = everything();
    for r in ROWS {
        for fill in [0u8, 1, 2, 3, 0x1B, 0x1D, 0x30, 0x40, 0x41, 0xFF] {
            let mut b = r.opcode.to_vec();
            b.extend([fill; 12]);
            v.push(b);
        }
        let mut b = r.opcode.to_vec();
        b.extend([3, 0, 48, 69, 65, 65, 1, 0]);
        v.push(b);
    }
    v.extend([
        gs(b'k', &[4, b'A', 0x1B, b'@', 0]),
        gs(b'k', &[73, 3, 0x1B, b'@', 0]),
        gs(b'k', &[73, 0]),
        gs(b'k', &[4, 0]),
        gs(b'k', &[4]),
        gs(b'k', &[64, 5]),
        gs(b'k', &[80, 5]),
        gs(b'k', &[7, 0]),
        bit(0, 3, &[0x1B, 0x40, 0x1D]),
        bit(33, 2, &[0x1B, 0x40, 0x1D, 0x1B, 0x1D, 0x0A]),
        bit(0, 0, &[]),
        raster(0, 0, 3, &[]),
        raster(0, 3, 0, &[]),
        raster(0, 2, 2, &[0x1B, 0x40, 0x1D, 0x56]),
        sub(b'L', &[]),
        sub(b'L', &[48]),
        sub(b'L', &[48, 112]),
        sub(b'k', &[49]),
        sub(b'k', &[49, 80, 48, 0x1B, 0x40]),
        sub(b'k', &[55, 80, 48]),
        sub(b'N', &[]),
        sub(b'N', &[48]),
        sub(b'N', &[48, 49, 50]),
        sub(b'H', &[]),
        sub(b'H', &[48, 49, 0x1B, 0x40]),
        sub(b'G', &[1, 2]),
        large(&[]),
        large(&[48]),
        large(&[48, 112]),
        large(&[48, 112, 48, 1, 1, 49, 8, 0, 1, 0, 0x1B]),
        c(&[0x1D, b'8', b'L'], &[2, 0, 1, 0]),
        gs(b'V', &[0, 0x1B]),
        gs(b'V', &[65]),
        vec![0x1C, 1],
        vec![0x10, 4, 1],
        vec![0x1B],
        vec![0x1B, b'c'],
        vec![0x1D, b'('],
        vec![0x1D, b'v'],
        vec![0x18],
    ]);
    v
}

fn spaces(e: &mut Explorer, f: Case) {
    let every: Vec<u8> = (0..=255).collect();
    let s = structural();
    strings(e, "byte strings", &every, e.pick(2, 3), f);
    strings(e, "structural bytes", &s, 3, f);
    let few: Vec<u8> = vec![0x1B, 0x1D, 0x18, 0x10, 0x1C, b'(', b'k', b'L', b'8', b'v', b'0', b'c', b'3', b'@', b'*', b'V', b'N', b'H', 0, 1, 2, 65, b'a', 0x0A, 9, 0xC3, 0xA9];
    strings(e, "opcodes and parameters", &few, 4, f);
    let less: Vec<u8> = vec![0x1B, 0x1D, 0x18, b'(', b'k', b'L', b'*', b'@', 0, 1, 3, b'A', 0x0A];
    strings(e, "few bytes", &less, e.pick(5, 6), f);
    // after the start of a command of variable length
    let starts: Vec<B> = [
        &[0x1Du8, b'k'][..],
        &[0x1D, b'k', 4],
        &[0x1D, b'k', 73],
        &[0x1B, b'*'],
        &[0x1B, b'*', 33],
        &[0x1D, b'v', b'0'],
        &[0x1D, b'v', b'0', 0, 1, 0],
        &[0x1D, b'(', b'L'],
        &[0x1D, b'(', b'k'],
        &[0x1D, b'(', b'N'],
        &[0x1D, b'(', b'H'],
        &[0x1D, b'8', b'L'],
        &[0x1D, b'8', b'L', 4, 0, 0, 0],
        &[0x1D, b'(', b'L', 4, 0],
        &[0x1D, b'(', b'k', 4, 0],
        &[0x1D, b'V'],
        &[0x1B, b'W'],
        &[0x1B, b'D'],
    ]
    .iter()
    .map(|b| b.to_vec())
    .collect();
    let n = starts.len() as u64;
    let tail: Vec<u8> = vec![0, 1, 2, 3, 6, 48, 49, 65, 80, 112, 0x1B, 0x1D, b'@', 0xFF];
    let depth = e.pick(4, 5);
    let each = (0..=depth).map(|d| (tail.len() as u64).pow(d)).sum::<u64>();
    let make = |i: u64| -> B {
        let mut b = starts[(i % n) as usize].clone();
        b.extend(sequence(i / n, tail.len() as u64, depth).iter().map(|k| tail[*k]));
        b
    };
    e.cases("variable lengths", each * n, |i| Some(make(i)), |i, l| f(&make(i), l));
    // commands, cut off anywhere, with something after them
    let cmds = commands();
    let mut cut: Vec<B> = vec![];
    for c in &cmds {
        for k in 1..=c.len().min(40) {
            cut.push(c[..k].to_vec());
        }
    }
    cut.sort();
    cut.dedup();
    let after: Vec<B> = vec![vec![], t("x"), vec![0x1B], esc(b'@', &[]), vec![0x1D, b'V', 0], vec![0x1C, b'q'], lf(), vec![0xFF, 0], bar_nul(4, b"A")];
    product(e, "cut off commands", &[&[vec![], t("ab"), vec![0x1C], vec![0x1B, b'~'], esc(b'E', &[1])], &cut, &after], f);
    items(e, "commands in sequence", &cmds, 2, f);
    // lots of each, and of what is no command
    let repeated = join(&[&cmds, &[t("word "), t("a"), vec![0xFF], vec![0xC3, 0xA9], vec![0x1C], vec![0x1B], vec![0x1D], vec![0], vec![0x1B, b'~'], t("\""), t("\\"), t("'// "), cat(&[t("a"), vec![0x1C, b'b']])]]);
    let mut lots = often(&repeated, &[255, 256, 257, 1025, 4097, 20_000]);
    lots.retain(|b| b.len() < 42_000);
    product(e, "lots", &[&lots, &[t("x"), esc(b'@', &[])]], f);
    let long: Vec<B> = [255usize, 256, 257, 1000, 4095, 4096, 4097, 32767, 32768, 65535].iter().flat_map(|n| {
        let p = pattern(*n, 5);
        let mut v = vec![qr_store(&p[..p.len().min(65000)]), sub(b'L', &p[..p.len().min(65000)]), sub(b'Z', &p[..p.len().min(65000)]), large(&p), bit(0, *n as u16, &p), bar_nul(4, &vec![b'A'; *n]), raster(0, 1, *n as u16, &p)];
        v.extend([raster(0, *n as u16, 3, &p.repeat(3)), c(&[0x1D, b'8', b'Z'], &[&(*n as u32).to_le_bytes()[..], &p].concat())]);
        v
    }).collect();
    product(e, "long", &[&[vec![], t("a"), esc(b'@', &[])], &long, &[t("x"), esc(b'@', &[])]], f);
    if e.thorough() {
        product(e, "cut off twice", &[&cut, &cut], f);
        items(e, "everything in sequence", &everything(), 3, f);
    }
    // every declared length
    let mut long: Vec<B> = vec![];
    let sizes: Vec<usize> = (0..=70).chain([100, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 65535]).collect();
    for n in sizes {
        for fill in [b'A', 0x1B, 0] {
            for short in [0usize, 1] {
                let d = |k: usize| vec![fill; k.saturating_sub(short)];
                if n < 256 {
                    long.push(gs(b'k', &[&[73, n as u8], &d(n)[..]].concat()));
                }
                long.push(gs(b'k', &[&[4], &vec![b'A'; n][..], &[0; 1][short..]].concat()));
                long.push(c(&[0x1B, b'*', 0], &[&w2(n as u16)[..], &d(n)].concat()));
                long.push(c(&[0x1B, b'*', 33], &[&w2(n as u16)[..], &d(3 * n)].concat()));
                long.push(c(&[0x1D, b'v', b'0', 0], &[&w2(n as u16)[..], &[2, 0], &d(2 * n)].concat()));
                long.push(c(&[0x1D, b'v', b'0', 0, 2, 0], &[&w2(n as u16)[..], &d(2 * n)].concat()));
                for k in [&[b'(', b'L'][..], &[b'(', b'k'], &[b'(', b'N'], &[b'(', b'H']] {
                    long.push(c(&[0x1D], &[k, &w2(n as u16)[..], &[49, 80][..2.min(n)], &d(n.saturating_sub(2))].concat()));
                }
                long.push(c(&[0x1D, b'8', b'L'], &[&(n as u32).to_le_bytes()[..], &[48, 112][..2.min(n)], &d(n.saturating_sub(2))].concat()));
                long.push(vec![fill; n]);
            }
        }
    }
    long.push(c(&[0x1D, b'8', b'L'], &[&70000u32.to_le_bytes()[..], &[48, 112], &[b'A'; 69998]].concat()));
    long.push(c(&[0x1D, b'8', b'L'], &[&(1u32 << 24).to_le_bytes()[..], &[48, 112], &[b'A'; 70000]].concat()));
    long.push(c(&[0x1D, b'8', b'L'], &[&u32::MAX.to_le_bytes()[..], &[48, 112], &[b'A'; 300]].concat()));
    product(e, "declared lengths", &[&[vec![], t("x")], &long, &[vec![], vec![0x0A], esc(b'@', &[]), t("tail"), vec![0]]], f);
    // lengths far beyond what is there: each bit counts
    let mut far: Vec<B> = vec![];
    for n in [0u32, 2, 4, 12] {
        for bits in (0..17).map(|b| 0x8000u32 << b).chain((0..256).map(|b| b << 24)).chain([0x00FF_0000, 0x0101_0000, 0x8080_0000]) {
            for id in [[48, 112], [48, 68], [48, 50], [0, 0]] {
                far.push(c(&[0x1D, b'8', b'L'], &[&bits.wrapping_add(n).to_le_bytes()[..], &id].concat()));
            }
        }
    }
    let ends = [0u16, 1, 2, 4, 127, 128, 255, 256, 257, 511, 512, 4096, 8191, 8192, 8193, 0x7FFF, 0x8000, 0x8001, 0xFF00, 0xFFFF];
    for (x, y) in ends.iter().flat_map(|x| ends.map(|y| (*x, y))) {
        far.push(c(&[0x1D, b'v', b'0', 0], &[w2(x), w2(y)].concat()));
    }
    for n in ends.into_iter().chain((0..256).map(|h| h << 8 | 3)) {
        for m in [0u8, 1, 32, 33] {
            far.push(c(&[0x1B, b'*', m], &w2(n)));
        }
        for k in [b'L', b'k', b'N'] {
            far.push(c(&[0x1D, b'(', k], &[&w2(n)[..], &[49, 80]].concat()));
        }
    }
    let rest: Vec<B> = [0usize, 1, 2, 9, 10, 40, 300].iter().map(|n| vec![b'A'; *n]).collect();
    product(e, "far lengths", &[&far, &rest, &[vec![], [&esc(b'@', &[])[..], b"ab\n", &esc(b'E', &[1])].concat()]], f);
    // all kinds of barcodes, all functions of groups
    let mut kinds: Vec<B> = vec![];
    for k in 0..=255u8 {
        for tail in [&[][..], &[0], &[1], &[2, b'A'], &[b'A', 0], &[b'A', b'B', 0], &[5, b'A', b'B', 0, 1, 2, 3]] {
            kinds.push(gs(b'k', &[&[k], tail].concat()));
            kinds.push(gs(b'V', &[&[k], tail].concat()));
            kinds.push(c(&[0x1B, b'*', k], &[&[2, 0], tail].concat()));
        }
        for m in 0..=255u8 {
            kinds.push(sub(b'k', &[m, k]));
            if m == k || m < 60 {
                kinds.push(sub(b'L', &[m, k, 1]));
                kinds.push(large(&[m, k, 1]));
                kinds.push(vec![0x1D, m, k]);
                kinds.push(vec![0x1B, m, k]);
            }
        }
    }
    product(e, "kinds and functions", &[&kinds, &[vec![], t("z"), lf(), esc(b'@', &[])]], f);
    // pairs of bytes after each prefix
    let pre: Vec<B> = [&[0x1B][..], &[0x1D], &[0x1C], &[0x10], &[0x18], &[0x1D, b'('], &[0x1D, b'8'], &[0x1B, b'c'], &[0x1D, b'v'], b"a\x1B", b"a\x1C"].iter().map(|b| b.to_vec()).collect();
    let one: Vec<B> = every.iter().map(|b| vec![*b]).collect();
    product(e, "after prefixes", &[&pre, &one, &one], f);
}

pub fn c02(e: &mut Explorer) {
    spaces(e, framed);
    // the same parser again: a stream does not see the one before it
    let cmds = commands();
    let ends: Vec<B> = vec![vec![], vec![0x1B], vec![0x1D, b'('], vec![0x1C], t("a"), vec![0x1D, b'k', 4, b'A'], vec![0x1D, b'v', b'0', 0, 9, 0, 9, 0], vec![0x18]];
    let (n, m) = (cmds.len() as u64, ends.len() as u64);
    #[cfg(feature = "inner")]
    e.cases("parser used again", n * m * n, |_| None, |i, l| {
        let first = [&cmds[(i % n) as usize][..], &ends[(i / n % m) as usize]].concat();
        let second = &cmds[(i / n / m) as usize];
        l.runs += 2;
        let mut p = thermal_parser::parser::Parser::new(thermal_parser::command_sets::esc_pos::new());
        p.parse_bytes(&first);
        let again: Vec<_> = p.parse_bytes(second).iter().map(parts).collect();
        let fresh: Vec<_> = thermal_parser::parse_esc_pos(second).iter().map(parts).collect();
        if again != fresh {
            return Err(format!("{} after {} is parsed differently", hex(second), hex(&first)));
        }
        Ok(())
    });
}

pub fn c03(e: &mut Explorer) {
    spaces(e, back);
    // text that looks like the format itself
    let words: Vec<B> = ["NUL", "ESC", "LF", "'//", "0x41", "65", "\"", "\\", "\\\"", "\\\\", " ", "\t", "\r", "\r\n", "\n", "a", "é", "日", "\u{85}", "\u{A0}", "\u{2028}", "\u{0}", "\u{1}", "\u{7F}", "0x", "0xGG", "+1", "-"]
        .iter()
        .map(|s| t(s))
        .chain([vec![0xFF], vec![0xC3], vec![0xE2, 0x82], vec![0x80]])
        .collect();
    items(e, "text like the format", &words, e.pick(4, 5), back);
    items(e, "unknown like the format", &{
        let mut v = words.clone();
        v.extend([vec![0x1C], vec![0x1B, b'~'], vec![0x10]]);
        v
    }, 3, |b, l| {
        back(&[&[0x1C], b].concat(), l)?;
        back(&[&[0x1B], b].concat(), l)
    });
    // every character as text
    e.cases("characters", 0x110000, |i| char::from_u32(i as u32).map(|c| c.to_string().into_bytes()), |i, l| {
        match char::from_u32(i as u32) {
            Some(ch) => {
                back(ch.to_string().as_bytes(), l)?;
                back(format!("a{ch}\"{ch}").as_bytes(), l)
            }
            None => Ok(()),
        }
    });
    // amounts of data around the widths of lines
    let mut amounts: Vec<B> = vec![];
    for n in 0..=140usize {
        for seed in [0u8, 7, 90] {
            amounts.push(graph(112, &[&[48, 1, 1, 49, 8, 0, n as u8, 0], &pattern(n, seed)[..]].concat()));
            amounts.push(bit(0, n as u16, &pattern(n, seed)));
            amounts.push(qr_store(&pattern(n, seed)));
            amounts.push(bar_len(73, &pattern(n, seed)));
            amounts.push(sub(b'Z', &pattern(n, seed)));
            amounts.push(pattern(n, seed));
        }
    }
    product(e, "amounts", &[&[vec![], t("x")], &amounts, &[vec![], t("\\\"'// x"), lf()]], back);
}

pub fn c04(e: &mut Explorer) {
    fn reads(text: &str, l: &mut Local) -> Result<(), String> {
        let got = thermal_parser::thermal_file::parse_str(text);
        let want = thermal::read(text);
        l.runs += 1;
        l.transitions += text.chars().count() as u64;
        l.state(&want);
        if got != want {
            return Err(format!("{text:?} is read as {} instead of {}", hex(&got), hex(&want)));
        }
        Ok(())
    }
    fn texts(e: &mut Explorer, name: &str, parts: &[&str], depth: u32) {
        let n = parts.len() as u64;
        let total = (0..=depth).map(|d| n.pow(d)).sum();
        let make = |i| -> String { sequence(i, n, depth).iter().map(|k| parts[*k]).collect() };
        e.cases(name, total, |i| Some(make(i).into_bytes()), |i, l| reads(&make(i), l));
    }
    let chars = ["\"", "\\", " ", "\t", "\n", "\r", "0", "x", "1", "F", "+", "'", "/", "N", "é", "\u{A0}", "a"];
    texts(e, "characters", &chars, e.pick(6, 7));
    texts(e, "quotes", &["\"", "\\", " ", "a", "\n", "é"], e.pick(9, 10));
    let tokens = [
        "NUL", "ESC", "HT", "LF", "FF", "CR", "GS", "FS", "DLE", "CAN", "nul", "0x00", "0xff", "0xFF", "0x1", "0x100", "0xG", "0x", "0X41", "0", "65", "255", "256", "007", "-1", "+1", "1.5", "word", "'//", "'", "//", "\"q s\"",
        "\"\\\"\"", "\"\\\\\"", "\"\"", "\"'// x\"", "\"ESC\"", "\"open", "\"é日\"", "naïve", "\u{3000}", "\u{B}", "\u{C}", "\u{85}", "\u{2028}",
    ];
    let mut spaced: Vec<&str> = tokens.to_vec();
    spaced.extend([" ", "\t", "\n", "\r\n", "\r", "\n\n", "  ", "\n '// c", "\n'// c \" \n"]);
    texts(e, "tokens", &spaced, e.pick(4, 5));
    texts(e, "tokens of a line", &["NUL", "0x41", "65", "w", "\"s\"", "\"", "'//", " ", "\n", "\t", "\\", "0xZ"], e.pick(7, 8));
    // lots of each, and long ones
    let piece: Vec<String> = spaced.iter().flat_map(|s| [s.to_string(), format!("{s} "), format!("{s}\n"), format!("\"{s}\""), format!("'// {s}\n")]).collect();
    let amount = [63u64, 255, 256, 257, 1025, 4097, 20_000, 70_000];
    let make = |i: u64| {
        let s = piece[(i / 3) as usize / amount.len()].repeat(amount[(i / 3) as usize % amount.len()] as usize);
        [format!("{s} 65 \"e\""), format!("\"{s}\" 65 \"e\""), format!("NUL '// {s}\n 65 \"e\"")][(i % 3) as usize].clone()
    };
    e.cases("lots", (piece.len() * amount.len()) as u64 * 3, |_| None, |i, l| reads(&make(i), l).map_err(|m| format!("{} times {:?}: {}", amount[(i / 3) as usize % amount.len()], piece[(i / 3) as usize / amount.len()], m.chars().take(200).collect::<String>())));
    // every number in every notation
    e.cases("numbers", 70000, |i| Some(i.to_string().into_bytes()), |i, l| {
        for s in [format!("{i}"), format!("0x{i:x}"), format!("0x{i:X}"), format!("0x{i:04X}"), format!("{i:05}"), format!("a {i} b"), format!("\"{i}\" 0x{i:02X}\"x\"{i}")] {
            reads(&s, l)?;
        }
        Ok(())
    });
    // every character as a word, in quotes, around words
    e.cases("every character", 0x110000, |i| char::from_u32(i as u32).map(|c| c.to_string().into_bytes()), |i, l| {
        let Some(ch) = char::from_u32(i as u32) else { return Ok(()) };
        reads(&format!("{ch}"), l)?;
        reads(&format!("1{ch}2"), l)?;
        reads(&format!("\"{ch}\"{ch}\"\\{ch}\\\"{ch}"), l)?;
        reads(&format!("GS {ch}ESC"), l)
    });
    // the constants around everything
    let consts = ["NUL", "ESC", "HT", "LF", "FF", "CR", "GS", "FS", "DLE", "CAN"];
    let around = ["", " ", "\"", "\\", "'", "0", "x", "\t", "\n", "é", "a", "\r"];
    let n = (consts.len() * around.len() * around.len() * around.len() * around.len()) as u64;
    let make = |i: u64| -> String {
        let k = |n: u64| around[(i / 10 / (around.len() as u64).pow(n as u32)) as usize % around.len()];
        format!("{}{}{}{}{}", k(0), k(1), consts[(i % 10) as usize], k(2), k(3))
    };
    e.cases("constants", n, |i| Some(make(i).into_bytes()), |i, l| reads(&make(i), l));
}
