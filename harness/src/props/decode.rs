//! C15 characters
use super::atoms::*;
use crate::explore::{hex, sequence, Explorer};
use crate::spec::tables;
use crate::sut::*;

pub fn c15(e: &mut Explorer) {
    // printable bytes: the others are commands or start unknown ones
    let text: Vec<u8> = (0..=255u8).filter(|b| ![9, 10, 12, 13, 0x10, 0x18, 0x1B, 0x1C, 0x1D].contains(b)).collect();
    // every table with every character set
    #[cfg(feature = "inner")]
    e.cases("tables and sets", 65536, |i| Some(vec![i as u8, (i >> 8) as u8]), |i, l| {
        let (table, set) = (i as u8, (i >> 8) as u8);
        let page = thermal_parser::decoder::get_codepage(table, set);
        l.runs += 1;
        if table == 255 {
            return Ok(());
        }
        for b in 0..=255u8 {
            let got = page.decode_utf8(&[b]);
            let want = tables::one(table, set, b);
            l.transitions += 1;
            if got != want {
                return Err(format!("byte {b:02x} of table {table} set {set} is {got:?} instead of {want:?}"));
            }
        }
        l.state(&page.decode_utf8(&text));
        Ok(())
    });
    let line = |table: u8, set: u8, bytes: &[u8]| cat(&[esc(b't', &[table]), esc(b'R', &[set]), bytes.to_vec(), lf()]);
    e.streams("lines of all bytes", 65536, EV, |i| {
        let mut b = vec![];
        for k in text.chunks(40) {
            b.extend(line(i as u8, (i >> 8) as u8, k));
        }
        b
    });
    // neighbours
    let known = [0u8, 1, 2, 3, 4, 5, 11, 12, 13, 6, 16, 254, 255];
    let sets = [0u8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 82, 18, 65, 255];
    let n = text.len() as u64;
    let pair = |i: u64| vec![text[(i % n) as usize], text[(i / n % n) as usize]];
    e.streams("pairs of bytes", n * n * known.len() as u64, EV, |i| line(known[(i / n / n) as usize], 0, &pair(i)));
    e.streams("pairs of bytes of a set", n * n * e.pick(4, sets.len() as u64), EV, |i| line(0, sets[(i / n / n) as usize], &pair(i)));
    // what was selected before
    let select: Vec<B> = known
        .iter()
        .map(|k| esc(b't', &[*k]))
        .chain(sets.iter().map(|s| esc(b'R', &[*s])))
        .chain([init(), t("#$@[]"), vec![0x80, 0x9B, 0xFF], esc(b'!', &[0]), lf(), vec![0xC3, 0xA9]])
        .collect();
    e.sequences("selected before", &select, e.pick(3, 4), &[], &[b'#', b'$', b'\\', b'~', 0x9B, 0xD5, 0xA0, 0xE2, 0x82, 0xAC], EV);
    e.reach("reached selections", &select, 30, e.pick(2_000_000, 10_000_000), &[], &[b'#', b'$', b'\\', b'~', 0x9B, 0xD5, 0xA0, 0xE2, 0x82, 0xAC], EV);
    super::style::apart(e, &select, &[esc(b't', &[2]), esc(b't', &[255]), esc(b't', &[13]), esc(b'R', &[3]), esc(b'R', &[16]), cat(&[esc(b't', &[5]), vec![0x9B, 0xE1]]), esc(b't', &[0]), cat(&[esc(b'R', &[1]), t("#")])], &cat(&[t("#$[~"), vec![0x9B, 0xD5, 0xE2, 0x82, 0xAC]]));
    // lots of them, in words and in one
    let piece: Vec<B> = [&b"#"[..], b"[ ", &[0x80], &[0x9B, b' '], &[0xE2, 0x82, 0xAC], &[0xC3, 0xA9, b' '], &[0xC3], &[0xFF, b'a'], &[0xF0, 0x9F, 0x98, 0x80]].iter().map(|s| s.to_vec()).collect();
    e.product("lots", &[&each(&[0x1B, b't'], &known), &opt(each(&[0x1B, b'R'], &[3, 16])), &often(&piece, &[255, 256, 257, 1025, 4096, 20_000]), &[cat(&[t("#"), vec![0x9B]])]], EV);
    e.product("selected often", &[&often(&select, LOTS), &[cat(&[t("#["), vec![0x9B, 0xC3, 0xA9]])]], EV);
    // UTF-8: every character
    e.streams("characters", 0x110000 / 16, EV, |i| {
        let mut b = esc(b't', &[255]);
        for k in 0..16 {
            if let Some(c) = char::from_u32(i as u32 * 16 + k) {
                b.extend(c.to_string().into_bytes());
            }
        }
        b
    });
    // and everything that is none
    let parts = [0x41u8, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xED, 0xEF, 0xF0, 0xF4, 0xF5, 0xFF];
    let depth = e.pick(4, 5);
    let m = parts.len() as u64;
    e.streams("byte sequences as UTF-8", (0..=depth).map(|d| m.pow(d)).sum(), EV, |i| {
        let mut b = esc(b't', &[255]);
        b.extend(sequence(i, m, depth).iter().map(|k| parts[*k]));
        b
    });
    e.streams("cut into pieces", m.pow(3) * 6, EV, |i| {
        let s: Vec<u8> = (0..3).map(|k| parts[(i / 6 / m.pow(k) % m) as usize]).collect();
        let cut: [B; 6] = [vec![], lf(), esc(b'E', &[1]), esc(b't', &[255]), esc(b't', &[0]), vec![9]];
        let c = &cut[(i % 6) as usize];
        [&[0x1B, b't', 255][..], &s[..1], c, &s[1..2], c, &s[2..]].concat()
    });
    // a character is shown as its glyph
    e.streams("painted", 256 * 13, IMG, |i| line(known[(i / 256) as usize], 0, &[b'A', i as u8, b'B']));
    e.streams("html", 256 * 13, HTML, |i| line(known[(i / 256) as usize], 0, &[b'A', i as u8, b'B']));
    // readable text of barcodes is not decoded with a table
    e.streams("labels", 256 * 13, EV, |i| cat(&[esc(b't', &[known[(i / 256) as usize]]), esc(b'R', &[3]), gs(b'H', &[2]), bar_len(73, &[b'{', b'B', b'#', i as u8]), t("#")]));
    let _ = hex;
    if e.thorough() {
        e.streams("every table and set in turn", 256 * 256 * 32, EV, |i| {
            let (a, b, s) = (i as u8, (i >> 8) as u8, sets[(i >> 16) as usize]);
            cat(&[line(a, s, &[b'#', 0x9C]), esc(b't', &[b]), vec![b'[', 0xE1, 0xD5], lf()])
        });
    }
}
