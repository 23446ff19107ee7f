//! Reference reader of thermal files, one character after another.

enum At {
    /// between tokens
    Gap,
    Word(String),
    Quoted(String),
    /// after a backslash in quotes
    Escape(String),
}

const NAMES: [(&str, u8); 10] = [
    ("NUL", 0),
    ("HT", 9),
    ("LF", 10),
    ("FF", 12),
    ("CR", 13),
    ("DLE", 16),
    ("CAN", 24),
    ("ESC", 27),
    ("FS", 28),
    ("GS", 29),
];

fn word(w: &str, out: &mut Vec<u8>) {
    if let Some((_, b)) = NAMES.iter().find(|(n, _)| *n == w) {
        out.push(*b);
        return;
    }
    let value = |digits: &str, base: u32| -> Option<u8> {
        let mut v = 0u32;
        for c in digits.chars() {
            v = v.saturating_mul(base).saturating_add(c.to_digit(base)?);
        }
        (!digits.is_empty() && v < 256).then_some(v as u8)
    };
    let number = match w.strip_prefix("0x") {
        Some(h) => value(h, 16),
        None => value(w, 10),
    };
    match number {
        Some(b) => out.push(b),
        None => out.extend(w.bytes()),
    }
}

pub fn read(text: &str) -> Vec<u8> {
    let mut out = vec![];
    // a line ends with LF, a CR right before it belongs to the end
    let lines = text.split('\n').count();
    for (i, line) in text.split('\n').enumerate() {
        let line = if i + 1 < lines { line.strip_suffix('\r').unwrap_or(line) } else { line };
        if line.starts_with("'//") || line.chars().all(char::is_whitespace) {
            continue;
        }
        let mut at = At::Gap;
        for c in line.chars() {
            at = match at {
                At::Gap | At::Word(_) if c == '"' => {
                    if let At::Word(w) = at {
                        word(&w, &mut out);
                    }
                    At::Quoted(String::new())
                }
                At::Gap if matches!(c, ' ' | '\t' | '\r' | '\u{C}') => At::Gap,
                At::Gap => At::Word(c.to_string()),
                At::Word(w) if matches!(c, ' ' | '\t' | '\r' | '\u{C}') => {
                    word(&w, &mut out);
                    At::Gap
                }
                At::Word(mut w) => {
                    w.push(c);
                    At::Word(w)
                }
                At::Quoted(s) if c == '"' => {
                    out.extend(s.bytes());
                    At::Gap
                }
                At::Quoted(s) if c == '\\' => At::Escape(s),
                At::Quoted(mut s) => {
                    s.push(c);
                    At::Quoted(s)
                }
                // only quotes and backslashes are escaped
                At::Escape(mut s) => {
                    if !matches!(c, '"' | '\\') {
                        s.push('\\');
                    }
                    s.push(c);
                    At::Quoted(s)
                }
            };
        }
        match at {
            At::Gap => {}
            At::Word(w) => word(&w, &mut out),
            At::Quoted(s) => out.extend(s.bytes()),
            At::Escape(s) => {
                out.extend(s.bytes());
                out.push(b'\\');
            }
        }
    }
    out
}
