#!/usr/bin/env python3
"""Writes harness/src/spec/tables.rs: the reference code tables.

Tables 437, 850, 857, 860, 863 and 865 come from Python's codecs, with the
deviations listed here. Tables without a codec (katakana, 851, 853) are frozen
in tools/frozen_tables.json, as read from the reviewed source tree."""
import json, os, re
here = os.path.dirname(os.path.abspath(__file__))
frozen = json.load(open(os.path.join(here, 'frozen_tables.json')))
def codec(n, dev={}):
    t = []
    for b in range(128, 256):
        try: s = bytes([b]).decode('cp%d' % n)
        except UnicodeDecodeError: s = ''
        t.append(dev.get(b, s))
    return t
def dev(n): return {int(k): v for k, v in frozen['dev'][str(n)].items()}
tables = {0: codec(437, dev(437)), 1: frozen['1'], 2: codec(850, dev(850)), 3: codec(860, dev(860)), 4: codec(863, dev(863)),
          5: codec(865, dev(865)), 11: frozen['11'], 12: frozen['12'], 13: codec(857, dev(857))}
cols = [0x23, 0x24, 0x40, 0x5B, 0x5C, 0x5D, 0x5E, 0x60, 0x7B, 0x7C, 0x7D, 0x7E]
rows = {1: '#$à°ç§^`éùè¨', 2: '#$§ÄÖÜ^`äöüß', 3: '£$@[\\]^`{|}~', 4: '#$@ÆØÅ^`æøå~', 5: '#¤ÉÄÖÅÜéäöåü',
        6: '#$@°\\é^ùàòèì', 7: '₧$@¡Ñ¿^`¨ñ}~', 9: '#¤ÉÆØÅÜéæøåü', 10: '#$ÉÆØÅÜéæøåü', 11: '#$á¡Ñ¿é`íñóú',
        12: '#$á¡Ñ¿éüíñóú', 14: '#$ŽŠĐĆČžšđćč'}
sets = {n: {c: ch for c, ch in zip(cols, r)} for n, r in rows.items()}
sets[8] = {0x5C: '¥'}; sets[13] = {0x5C: '₩'}; sets[15] = {0x24: '¥'}
sets[16] = {0x23: 'đ'}; sets[17] = {0x2A: '٭'}
for n, zero in {66: 0x966, 67: 0x9E6, 68: 0xBE6, 69: 0xC66, 70: 0x9E6, 71: 0xB66, 72: 0xCE6, 73: 0xD66, 74: 0xAE6, 75: 0xA66, 82: 0x966}.items():
    sets[n] = {0x30 + i: chr(zero + i) for i in range(10)}
def lit(s): return '"' + ''.join('\\u{%X}' % ord(c) for c in s) + '"'
out = ['//! Written by tools/gen_tables.py', '', '/// Upper halves of the code tables', 'pub fn upper(table: u8) -> &\'static [&\'static str; 128] {', '    match table {']
for n in tables:
    if n: out.append('        %d => &T%d,' % (n, n))
out += ['        _ => &T0,', '    }', '}', '']
for n, t in tables.items():
    assert len(t) == 128
    out.append('static T%d: [&str; 128] = [' % n)
    for i in range(0, 128, 8): out.append('    ' + ' '.join(lit(s) + ',' for s in t[i:i+8]))
    out.append('];')
out += ['', '/// Characters a national set puts in the place of ASCII ones', 'pub fn national(set: u8, byte: u8) -> Option<char> {', '    let c = match (set, byte) {']
for n in sorted(sets):
    for c, ch in sorted(sets[n].items()):
        if ch != chr(c): out.append("        (%d, 0x%02X) => '\\u{%X}'," % (n, c, ord(ch)))
out += ['        _ => return None,', '    };', '    Some(c)', '}', '''
pub fn one(table: u8, set: u8, byte: u8) -> String {
    if let Some(c) = national(set, byte) {
        c.to_string()
    } else if byte < 128 {
        (byte as char).to_string()
    } else {
        upper(table)[byte as usize - 128].to_string()
    }
}

/// Code table 255 is UTF-8, all others have one byte per character
pub fn decode(table: u8, set: u8, bytes: &[u8]) -> String {
    if table == 255 {
        return utf8(bytes);
    }
    bytes.iter().map(|b| one(table, set, *b)).collect()
}

/// Every maximal invalid part becomes one replacement character
fn utf8(mut b: &[u8]) -> String {
    let mut out = String::new();
    while !b.is_empty() {
        match std::str::from_utf8(b) {
            Ok(s) => {
                out.push_str(s);
                break;
            }
            Err(e) => {
                out.push_str(std::str::from_utf8(&b[..e.valid_up_to()]).unwrap());
                out.push('\\u{FFFD}');
                match e.error_len() {
                    Some(n) => b = &b[e.valid_up_to() + n..],
                    None => break,
                }
            }
        }
    }
    out
}
''']
open(os.path.join(here, '../harness/src/spec/tables.rs'), 'w').write('\n'.join(out))
