//! Reference framing: how a stream is cut into commands. Positional
//! (whole-slice) description, no incremental matcher.

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Op {
    Text,
    Unknown,
    BitImage,
    Cancel,
    CarriageReturn,
    Code2D,
    DefaultLineSpacing,
    Cut,
    FormFeed,
    Graphics,
    Tab,
    Init,
    LargeGraphics,
    LineFeed,
    FeedLines,
    Feed,
    ReverseFeedLines,
    Raster,
    Request,
    PosX,
    AltColor,
    BarHeight,
    BarWidth,
    Invert,
    CharSize,
    CodeTable,
    DoubleStrike,
    Bold,
    Font,
    MotionUnits,
    BarFont,
    BarHri,
    Charset,
    Italic,
    Justify,
    LineSpacing,
    PrintMode,
    RelY,
    Smoothing,
    TabLen,
    Underline,
    UpsideDown,
    PageMode,
    PosY,
    PageArea,
    PageDir,
    PagePrint,
    StdMode,
    CharEffects,
    GsG,
    Barcode,
    /// recognised, no effect on what is printed
    Inert,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Data {
    Fixed(usize),
    Cut,
    Barcode,
    BitImage,
    Raster,
    Sub { large: bool },
    Effects,
}

pub struct Row {
    pub opcode: &'static [u8],
    pub op: Op,
    pub data: Data,
    pub name: &'static str,
}

const fn r(name: &'static str, opcode: &'static [u8], op: Op, data: Data) -> Row {
    Row { opcode, op, data, name }
}

use Data::*;
pub static ROWS: &[Row] = &[
    r("GS k", &[0x1D, b'k'], Op::Barcode, Barcode),
    r("ESC *", &[0x1B, b'*'], Op::BitImage, BitImage),
    r("CAN @", &[0x18, b'@'], Op::Cancel, Fixed(0)),
    r("CR", &[0x0D], Op::CarriageReturn, Fixed(0)),
    r("GS ( k", &[0x1D, b'(', b'k'], Op::Code2D, Sub { large: false }),
    r("ESC 2", &[0x1B, b'2'], Op::DefaultLineSpacing, Fixed(0)),
    r("GS V", &[0x1D, b'V'], Op::Cut, Cut),
    r("FF", &[0x0C], Op::FormFeed, Fixed(0)),
    r("GS ( L", &[0x1D, b'(', b'L'], Op::Graphics, Sub { large: false }),
    r("HT", &[0x09], Op::Tab, Fixed(0)),
    r("ESC @", &[0x1B, b'@'], Op::Init, Fixed(0)),
    r("GS 8 L", &[0x1D, b'8', b'L'], Op::LargeGraphics, Sub { large: true }),
    r("LF", &[0x0A], Op::LineFeed, Fixed(0)),
    r("ESC c 3", &[0x1B, b'c', b'3'], Op::Inert, Fixed(1)),
    r("ESC c 4", &[0x1B, b'c', b'4'], Op::Inert, Fixed(1)),
    r("ESC c 5", &[0x1B, b'c', b'5'], Op::Inert, Fixed(1)),
    r("ESC d", &[0x1B, b'd'], Op::FeedLines, Fixed(1)),
    r("ESC J", &[0x1B, b'J'], Op::Feed, Fixed(1)),
    r("ESC e", &[0x1B, b'e'], Op::ReverseFeedLines, Fixed(1)),
    r("ESC p", &[0x1B, b'p'], Op::Inert, Fixed(3)),
    r("GS v 0", &[0x1D, b'v', b'0'], Op::Raster, Raster),
    r("GS ( H", &[0x1D, b'(', b'H'], Op::Request, Sub { large: false }),
    r("ESC $", &[0x1B, b'$'], Op::PosX, Fixed(2)),
    r("ESC r", &[0x1B, b'r'], Op::AltColor, Fixed(1)),
    r("GS h", &[0x1D, b'h'], Op::BarHeight, Fixed(1)),
    r("GS w", &[0x1D, b'w'], Op::BarWidth, Fixed(1)),
    r("GS B", &[0x1D, b'B'], Op::Invert, Fixed(1)),
    r("GS !", &[0x1D, b'!'], Op::CharSize, Fixed(1)),
    r("ESC t", &[0x1B, b't'], Op::CodeTable, Fixed(1)),
    r("ESC G", &[0x1B, b'G'], Op::DoubleStrike, Fixed(1)),
    r("ESC E", &[0x1B, b'E'], Op::Bold, Fixed(1)),
    r("ESC M", &[0x1B, b'M'], Op::Font, Fixed(1)),
    r("GS P", &[0x1D, b'P'], Op::MotionUnits, Fixed(2)),
    r("GS f", &[0x1D, b'f'], Op::BarFont, Fixed(1)),
    r("GS H", &[0x1D, b'H'], Op::BarHri, Fixed(1)),
    r("ESC R", &[0x1B, b'R'], Op::Charset, Fixed(1)),
    r("ESC 4", &[0x1B, b'4'], Op::Italic, Fixed(1)),
    r("ESC a", &[0x1B, b'a'], Op::Justify, Fixed(1)),
    r("ESC 3", &[0x1B, b'3'], Op::LineSpacing, Fixed(1)),
    r("ESC =", &[0x1B, b'='], Op::Inert, Fixed(1)),
    r("ESC !", &[0x1B, b'!'], Op::PrintMode, Fixed(1)),
    r("GS \\", &[0x1D, b'\\'], Op::RelY, Fixed(2)),
    r("GS b", &[0x1D, b'b'], Op::Smoothing, Fixed(1)),
    r("ESC D", &[0x1B, b'D'], Op::TabLen, Fixed(2)),
    r("ESC -", &[0x1B, b'-'], Op::Underline, Fixed(1)),
    r("ESC {", &[0x1B, b'{'], Op::UpsideDown, Fixed(1)),
    r("GS I", &[0x1D, b'I'], Op::Inert, Fixed(1)),
    r("ESC L", &[0x1B, b'L'], Op::PageMode, Fixed(0)),
    r("GS $", &[0x1D, b'$'], Op::PosY, Fixed(2)),
    r("ESC W", &[0x1B, b'W'], Op::PageArea, Fixed(8)),
    r("ESC T", &[0x1B, b'T'], Op::PageDir, Fixed(1)),
    r("ESC FF", &[0x1B, 0x0C], Op::PagePrint, Fixed(0)),
    r("ESC S", &[0x1B, b'S'], Op::StdMode, Fixed(0)),
    r("GS ( N", &[0x1D, b'(', b'N'], Op::CharEffects, Effects),
    r("GS ( G", &[0x1D, b'(', b'G'], Op::GsG, Fixed(4)),
];

#[derive(Clone, Debug, PartialEq)]
pub struct Frame {
    pub op: Op,
    pub start: usize,
    /// end of the opcode
    pub body: usize,
    pub end: usize,
    /// the command has all the bytes its format asks for
    pub complete: bool,
    /// unsupported two level command: reported as unknown
    pub unsupported: bool,
    pub name: &'static str,
}

fn u16le(b: &[u8]) -> usize {
    b.first().copied().unwrap_or(0) as usize + 256 * b.get(1).copied().unwrap_or(0) as usize
}

/// Number of bytes the data of a command takes from `b` (all that follows the
/// opcode), and whether all of it was there
fn data_len(kind: Data, b: &[u8]) -> (usize, bool) {
    let want = match kind {
        Fixed(n) => n,
        Cut => match b.first() {
            None => 1,
            Some(0 | 1 | 48 | 49) => 1,
            Some(_) => 2,
        },
        Barcode => match b.first() {
            None => 1,
            Some(0..=6) => match b[1..].iter().position(|c| *c == 0) {
                Some(n) => 1 + n + 1,
                None => return (b.len(), false),
            },
            Some(65..=79) => match b.get(1) {
                None => 2,
                Some(n) => 2 + *n as usize,
            },
            Some(_) => 1,
        },
        BitImage => {
            if b.len() < 3 {
                3
            } else {
                let column_bytes = if b[0] == 32 || b[0] == 33 { 3 } else { 1 };
                3 + u16le(&b[1..]) * column_bytes
            }
        }
        Raster => {
            if b.len() < 5 {
                5
            } else {
                5 + u16le(&b[1..]) * u16le(&b[3..])
            }
        }
        Sub { large } => {
            let head = if large { 6 } else { 4 };
            if b.len() < head {
                head
            } else {
                let declared = if large {
                    u16le(b) + 65536 * u16le(&b[2..])
                } else {
                    u16le(b)
                };
                head + declared.saturating_sub(2)
            }
        }
        Effects => {
            if b.len() < 3 {
                3
            } else {
                (2 + u16le(b)).max(3)
            }
        }
    };
    (want.min(b.len()), want <= b.len())
}

/// Second level functions that exist: (m, functions) of GS ( k
const CODE2D: &[(u8, &[u8])] = &[
    (48, &[65, 66, 67, 69, 70, 80, 81, 82]),
    (49, &[65, 67, 69, 80, 81, 82]),
    (50, &[65, 80, 81, 82]),
    (51, &[67, 71, 80, 81, 82]),
    (52, &[67, 71, 72, 80, 81, 82]),
    (53, &[66, 67, 69, 80, 81, 82]),
    (54, &[66, 67, 80, 81, 82]),
];
/// functions of GS ( L and GS 8 L
const GRAPHICS: &[u8] = &[
    0, 48, 1, 49, 2, 50, 4, 52, 64, 65, 66, 67, 68, 69, 80, 81, 82, 83, 84, 85, 112, 113,
];

fn sub_known(op: Op, m: u8, f: u8) -> bool {
    match op {
        Op::Code2D => CODE2D.iter().any(|(cm, fs)| *cm == m && fs.contains(&f)),
        Op::Graphics | Op::LargeGraphics => GRAPHICS.contains(&f),
        _ => true,
    }
}

const UNKNOWN_START: [u8; 4] = [0x10, 0x1B, 0x1C, 0x1D];

pub fn frames(b: &[u8]) -> Vec<Frame> {
    let mut out: Vec<Frame> = vec![];
    // The last command collects stray bytes (text or unknown)
    let mut open = false;
    let mut i = 0;
    'next: while i < b.len() {
        let rest = &b[i..];
        for row in ROWS {
            if rest.starts_with(row.opcode) {
                let body = i + row.opcode.len();
                let (n, complete) = data_len(row.data, &b[body..]);
                let mut unsupported = false;
                if let Sub { large } = row.data {
                    let head = if large { 6 } else { 4 };
                    if row.op != Op::Request {
                        unsupported =
                            n < head || !sub_known(row.op, b[body + head - 2], b[body + head - 1]);
                    }
                }
                out.push(Frame {
                    op: if unsupported { Op::Unknown } else { row.op },
                    start: i,
                    body,
                    end: body + n,
                    complete,
                    unsupported,
                    name: row.name,
                });
                open = false;
                i = body + n;
                continue 'next;
            }
        }
        // Nothing starts here: the bytes up to and including the one at which
        // every command stops matching stay together
        let mut n = 0;
        while i + n < b.len()
            && ROWS.iter().any(|row| {
                row.opcode.len() > n + 1 && row.opcode.starts_with(&rest[..n + 1])
            })
        {
            n += 1;
        }
        let end = (i + n + 1).min(b.len());
        if UNKNOWN_START.contains(&b[i]) {
            out.push(Frame { op: Op::Unknown, start: i, body: i, end, complete: true, unsupported: false, name: "unknown" });
        } else if open {
            out.last_mut().unwrap().end = end;
        } else {
            out.push(Frame { op: Op::Text, start: i, body: i, end, complete: true, unsupported: false, name: "text" });
        }
        open = true;
        i = end;
    }
    out
}
