//! Reference encodings of barcodes and QR symbols. UPC-E, Codabar and
//! Code 93 are written out; the other symbologies are those of the
//! `barcoders` and `qr_code` crates. What they encode is read again by the
//! scanner of `scan.rs`, which shares nothing with them.
use super::scan;
use barcoders::sym::{code128, code39, ean13, ean8, tf};
use qr_code::bits::Bits;
use qr_code::{EcLevel, QrCode, Version};

fn bars(v: Vec<u8>) -> Vec<bool> {
    v.into_iter().map(|b| b != 0).collect()
}

/// Bars (one entry per module) and the human readable text
pub fn encode(kind: u8, data: &[u8]) -> Option<(Vec<bool>, String)> {
    let text = std::str::from_utf8(data).ok()?;
    if text.is_empty() || text.len() > 255 {
        return None;
    }
    let n = text.len();
    let digits = text.bytes().all(|c| c.is_ascii_digit());
    let label = text.to_string();
    match kind {
        0 | 65 => {
            if !digits || !(n == 11 || n == 12) {
                return None;
            }
            let b = ean13::EAN13::new(format!("0{}", &text[..11])).ok()?.encode();
            Some((bars(b), label))
        }
        1 | 66 => {
            if !digits || !matches!(n, 6 | 7 | 8 | 11 | 12) {
                return None;
            }
            let d: Vec<u8> = text.bytes().map(|c| c - b'0').collect();
            Some((upce(&d)?, label))
        }
        2 | 67 => {
            if !digits || !(n == 12 || n == 13) {
                return None;
            }
            Some((bars(ean13::EAN13::new(&text[..12]).ok()?.encode()), label))
        }
        3 | 68 => {
            if !digits || !(n == 7 || n == 8) {
                return None;
            }
            Some((bars(ean8::EAN8::new(text).ok()?.encode()), label))
        }
        4 | 69 => {
            let inner = text.trim_start_matches('*').trim_end_matches('*');
            Some((bars(code39::Code39::new(inner).ok()?.encode()), label))
        }
        5 | 70 => {
            if n < 3 {
                return None;
            }
            // pairs of digits: a check digit completes an odd number of them
            let mut t = label.clone();
            if n % 2 == 1 {
                if !digits {
                    return None;
                }
                let d: Vec<u8> = text.bytes().map(|c| c - b'0').collect();
                t.push((b'0' + upc_check(&d)) as char);
            }
            Some((bars(tf::TF::interleaved(t).ok()?.encode()), label))
        }
        6 | 71 => {
            let is_guard = |c: u8| (b'A'..=b'D').contains(&c);
            if n < 3 || !is_guard(data[0]) || !is_guard(data[n - 1]) || data[1..n - 1].iter().any(|c| is_guard(*c)) {
                return None;
            }
            Some((scan::draw_codabar(data)?, label))
        }
        72 => Some((scan::draw_code93(data)?, label)),
        73 => {
            if n < 2 || !text.is_ascii() {
                return None;
            }
            // {A {B {C select a code set, everything else is data
            let (mut sets, mut shown) = (String::new(), String::new());
            let c: Vec<char> = text.chars().collect();
            let mut i = 0;
            while i < c.len() {
                let set = match (c[i], c.get(i + 1)) {
                    ('{', Some('A')) => 'À',
                    ('{', Some('B')) => 'Ɓ',
                    ('{', Some('C')) => 'Ć',
                    _ => {
                        sets.push(c[i]);
                        shown.push(c[i]);
                        i += 1;
                        continue;
                    }
                };
                sets.push(set);
                i += 2;
            }
            Some((bars(code128::Code128::new(sets).ok()?.encode()), shown))
        }
        _ => None,
    }
}

fn upc_check(d: &[u8]) -> u8 {
    let sum: u32 = d.iter().enumerate().map(|(i, v)| *v as u32 * if i % 2 == 0 { 3 } else { 1 }).sum();
    ((10 - sum % 10) % 10) as u8
}

/// the eleven digits a short code stands for
fn expand(system: u8, s: &[u8; 6]) -> [u8; 11] {
    let mut a = [0; 11];
    a[0] = system;
    a[1] = s[0];
    a[2] = s[1];
    match s[5] {
        0..=2 => {
            a[3] = s[5];
            a[8] = s[2];
            a[9] = s[3];
            a[10] = s[4];
        }
        3 => {
            a[3] = s[2];
            a[9] = s[3];
            a[10] = s[4];
        }
        4 => {
            a[3] = s[2];
            a[4] = s[3];
            a[10] = s[4];
        }
        _ => {
            a[3] = s[2];
            a[4] = s[3];
            a[5] = s[4];
            a[10] = s[5];
        }
    }
    a
}

/// the short code of eleven digits, if there is one
fn compress(a: &[u8; 11]) -> Option<[u8; 6]> {
    let candidates = [
        [a[1], a[2], a[8], a[9], a[10], a[3]],
        [a[1], a[2], a[3], a[9], a[10], 3],
        [a[1], a[2], a[3], a[4], a[10], 4],
        [a[1], a[2], a[3], a[4], a[5], a[10]],
    ];
    let class = |last: u8| match last {
        0..=2 => 0,
        3 => 1,
        4 => 2,
        _ => 3,
    };
    candidates
        .into_iter()
        .enumerate()
        .find(|(i, s)| class(s[5]) == *i && expand(a[0], s) == *a)
        .map(|(_, s)| s)
}

fn upce(d: &[u8]) -> Option<Vec<bool>> {
    let (a, check) = match d.len() {
        6 => (expand(0, d.try_into().unwrap()), None),
        7 => (expand(d[0], d[1..].try_into().unwrap()), None),
        8 => (expand(d[0], d[1..7].try_into().unwrap()), Some(d[7])),
        11 => (d.try_into().unwrap(), None),
        12 => (d[..11].try_into().unwrap(), Some(d[11])),
        _ => return None,
    };
    if a[0] > 1 || check.is_some_and(|c| c != upc_check(&a)) {
        return None;
    }
    let s = compress(&a)?;
    const ODD: [u8; 10] = [0x0D, 0x19, 0x13, 0x3D, 0x23, 0x31, 0x2F, 0x3B, 0x37, 0x0B];
    // which digits have even parity in number system 0, by check digit
    const EVEN: [&str; 10] =
        ["111000", "110100", "110010", "110001", "101100", "100110", "100011", "101010", "101001", "100101"];
    let mut out = vec![true, false, true];
    for (i, digit) in s.iter().enumerate() {
        let even = (EVEN[upc_check(&a) as usize].as_bytes()[i] == b'1') != (a[0] == 1);
        let odd = ODD[*digit as usize];
        for b in 0..7 {
            // even codes are the mirrored complement of the odd ones
            out.push(if even { odd >> b & 1 == 0 } else { odd >> (6 - b) & 1 == 1 });
        }
    }
    out.extend([false, true, false, true, false, true]);
    Some(out)
}

/// byte capacity of the versions with the lowest error correction
const CAPACITY: [usize; 40] = [
    17, 32, 53, 78, 106, 134, 154, 192, 230, 271, 321, 367, 425, 458, 520, 586, 644, 718, 792, 858, 929, 1003, 1091,
    1171, 1273, 1367, 1465, 1528, 1628, 1732, 1840, 1952, 2068, 2188, 2303, 2431, 2563, 2699, 2809, 2953,
];

pub fn qr(model: u8, level: u8, data: &[u8]) -> Option<(u32, Vec<bool>)> {
    let level = match level {
        1 => EcLevel::M,
        2 => EcLevel::Q,
        3 => EcLevel::H,
        _ => EcLevel::L,
    };
    let last: i16 = match model {
        1 => 14,
        2 => 40,
        _ => 4,
    };
    let first = if model == 3 {
        1
    } else {
        CAPACITY[..last as usize].iter().position(|c| *c >= data.len()).map_or(last, |p| p as i16 + 1)
    };
    (first..=last).find_map(|v| {
        let version = if model == 3 { Version::Micro(v) } else { Version::Normal(v) };
        if model == 3 && (half(data, v, level)? || (v == 3 && level == EcLevel::L)) {
            return None;
        }
        let code = QrCode::with_version(data, version, level).ok()?;
        Some((code.width() as u32, code.to_vec()))
    })
}

/// M1 and M3 end with a codeword of four bits, which has no padding. The
/// crate draws M3-L as if it had eight
fn half(data: &[u8], version: i16, level: EcLevel) -> Option<bool> {
    if version % 2 == 0 {
        return Some(false);
    }
    let mut bits = Bits::new(Version::Micro(version));
    bits.push_optimal_data(data).ok()?;
    let room = bits.max_len(level).ok()?;
    let end = bits.len() + 2 * version as usize + 1;
    Some(end < room && end > room - 4)
}
