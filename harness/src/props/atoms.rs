//! Commands the explored streams are made of.
pub type B = Vec<u8>;

pub fn c(op: &[u8], args: &[u8]) -> B {
    [op, args].concat()
}
pub fn esc(k: u8, args: &[u8]) -> B {
    c(&[0x1B, k], args)
}
pub fn gs(k: u8, args: &[u8]) -> B {
    c(&[0x1D, k], args)
}
pub fn cat(parts: &[B]) -> B {
    parts.concat()
}
pub fn t(s: &str) -> B {
    s.as_bytes().to_vec()
}
/// GS ( x with its length
pub fn sub(x: u8, data: &[u8]) -> B {
    let n = data.len();
    c(&[0x1D, b'(', x, n as u8, (n >> 8) as u8], data)
}
/// GS 8 L with its length
pub fn large(data: &[u8]) -> B {
    let n = data.len() as u32;
    c(&[0x1D, b'8', b'L'], &[&n.to_le_bytes()[..], data].concat())
}
pub fn graph(f: u8, data: &[u8]) -> B {
    sub(b'L', &[&[48, f], data].concat())
}
pub fn w2(n: u16) -> [u8; 2] {
    n.to_le_bytes()
}
pub fn posx(n: u16) -> B {
    esc(b'$', &w2(n))
}
pub fn posy(n: u16) -> B {
    gs(b'$', &w2(n))
}
pub fn rely(n: i16) -> B {
    gs(b'\\', &n.to_le_bytes())
}
pub fn area(x: u16, y: u16, w: u16, h: u16) -> B {
    esc(b'W', &[w2(x), w2(y), w2(w), w2(h)].concat())
}
/// column image
pub fn bit(m: u8, w: u16, data: &[u8]) -> B {
    c(&[0x1B, b'*', m], &[&w2(w)[..], data].concat())
}
pub fn bit_n(m: u8, w: u16) -> B {
    let k = if matches!(m, 32 | 33) { 3 } else { 1 };
    let data: B = (0..w as usize * k).map(|i| [0xA5, 0x0F, 0x81, 0x3C, 0xFF][i % 5]).collect();
    bit(m, w, &data)
}
pub fn raster(m: u8, w: u16, h: u16, data: &[u8]) -> B {
    c(&[0x1D, b'v', b'0', m], &[&w2(w)[..], &w2(h)[..], data].concat())
}
pub fn raster_n(m: u8, w: u16, h: u16) -> B {
    let data: B = (0..w as usize * h as usize).map(|i| [0xC1, 0x7E, 0x18, 0xFF, 0x01][i % 5]).collect();
    raster(m, w, h, &data)
}
pub fn pattern(n: usize, seed: u8) -> B {
    (0..n).map(|i| (i as u8).wrapping_mul(37).wrapping_add(seed) ^ 0x5A).collect()
}
pub fn bar_nul(kind: u8, data: &[u8]) -> B {
    gs(b'k', &[&[kind], data, &[0]].concat())
}
pub fn bar_len(kind: u8, data: &[u8]) -> B {
    gs(b'k', &[&[kind, data.len() as u8], data].concat())
}
/// GS ( k for QR
pub fn qr(f: u8, data: &[u8]) -> B {
    sub(b'k', &[&[49, f], data].concat())
}
pub fn qr_store(data: &[u8]) -> B {
    qr(80, &[&[48], data].concat())
}
pub fn qr_print() -> B {
    qr(81, &[48])
}
/// stored raster graphic: memory 67 NV or 83 download
pub fn define(f: u8, key: (u8, u8), w: u16, h: u16, layers: &[(u8, B)]) -> B {
    let mut d = vec![48, key.0, key.1, layers.len() as u8];
    d.extend(w2(w));
    d.extend(w2(h));
    for (color, data) in layers {
        d.push(*color);
        d.extend(data);
    }
    graph(f, &d)
}
pub fn define_n(f: u8, key: (u8, u8), w: u16, h: u16, colors: &[u8], seed: u8) -> B {
    let n = if f == 68 || f == 84 { (h as usize + 7) / 8 * w as usize } else { (w as usize + 7) / 8 * h as usize };
    let layers: Vec<(u8, B)> = colors.iter().enumerate().map(|(i, c)| (*c, pattern(n, seed.wrapping_add(i as u8)))).collect();
    define(f, key, w, h, &layers)
}
/// graphics for the print buffer
pub fn buffer(f: u8, sx: u8, sy: u8, color: u8, w: u16, h: u16, data: &[u8]) -> B {
    graph(f, &[&[48, sx, sy, color][..], &w2(w), &w2(h), data].concat())
}
pub fn buffer_n(f: u8, sx: u8, sy: u8, color: u8, w: u16, h: u16) -> B {
    let n = if f == 113 { (h as usize + 7) / 8 * w as usize } else { (w as usize + 7) / 8 * h as usize };
    buffer(f, sx, sy, color, w, h, &pattern(n, f))
}
pub fn buffer_print() -> B {
    graph(50, &[])
}
pub fn effects(sel: u8, color: u8) -> B {
    sub(b'N', &[sel, color])
}

/// Every combination of all attributes of characters, with these sizes
pub fn looks(sizes: &[u8]) -> Vec<B> {
    let mut v: Vec<B> = vec![vec![]];
    let mut add = |choices: Vec<B>| {
        v = v.iter().flat_map(|l| choices.iter().map(|c| cat(&[l.clone(), c.clone()])).collect::<Vec<_>>()).collect();
    };
    add(each(&[0x1B, b'M'], &[0, 1, 2]));
    add(each(&[0x1D, b'!'], sizes));
    add(each(&[0x1B, b'E'], &[0, 1]));
    add(each(&[0x1B, b'4'], &[0, 1]));
    add(each(&[0x1B, b'-'], &[0, 1, 2]));
    add(vec![vec![], esc(b'G', &[1]), cat(&[esc(b'G', &[1]), esc(b'G', &[0])])]);
    add(each(&[0x1B, b'{'], &[0, 1]));
    add(each(&[0x1D, b'B'], &[0, 1]));
    add(vec![vec![], effects(48, 0), effects(48, 50), effects(48, 51)]);
    add(vec![vec![], effects(49, 49), effects(49, 50), effects(49, 51)]);
    v
}
pub fn sizes() -> Vec<u8> {
    (0..8u8).flat_map(|w| (0..8u8).map(move |h| w * 16 + h)).collect()
}

pub const LF: u8 = 0x0A;
pub const FF: u8 = 0x0C;
pub fn lf() -> B {
    vec![LF]
}
pub fn init() -> B {
    esc(b'@', &[])
}
pub fn page() -> B {
    esc(b'L', &[])
}
pub fn std_mode() -> B {
    esc(b'S', &[])
}
pub fn page_print() -> B {
    vec![0x1B, FF]
}
pub fn dir(n: u8) -> B {
    esc(b'T', &[n])
}

/// each item as often as given
pub fn often(items: &[B], times: &[usize]) -> Vec<B> {
    items.iter().flat_map(|b| times.iter().map(move |n| b.repeat(*n))).collect()
}
/// around the ends of counters, and beyond
pub const MANY: &[usize] = &[15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300];
/// more than any small store or counter holds
pub const LOTS: &[usize] = &[513, 1025, 2049, 4097, 10_000];
/// every value of a one byte setting
pub fn every(op: &[u8]) -> Vec<B> {
    (0..=255).map(|n| c(op, &[n])).collect()
}
pub fn each(op: &[u8], ns: &[u8]) -> Vec<B> {
    ns.iter().map(|n| c(op, &[*n])).collect()
}
pub fn opt(v: Vec<B>) -> Vec<B> {
    let mut o = vec![vec![]];
    o.extend(v);
    o
}
pub fn join(v: &[&[B]]) -> Vec<B> {
    v.iter().flat_map(|v| v.iter().cloned()).collect()
}
pub fn pairs(a: &[B], b: &[B]) -> Vec<B> {
    a.iter().flat_map(|x| b.iter().map(move |y| cat(&[x.clone(), y.clone()]))).collect()
}

/// text style settings, one byte commands
pub const STYLE_OPS: &[[u8; 2]] = &[
    [0x1B, b'r'],
    [0x1D, b'B'],
    [0x1D, b'!'],
    [0x1B, b't'],
    [0x1B, b'G'],
    [0x1B, b'E'],
    [0x1B, b'M'],
    [0x1B, b'R'],
    [0x1B, b'4'],
    [0x1B, b'!'],
    [0x1D, b'b'],
    [0x1B, b'-'],
    [0x1B, b'{'],
];
/// settings outside of the text style
pub const CONTROL_OPS: &[[u8; 2]] = &[
    [0x1B, b'a'],
    [0x1B, b'3'],
    [0x1D, b'h'],
    [0x1D, b'w'],
    [0x1D, b'f'],
    [0x1D, b'H'],
    [0x1B, b'J'],
    [0x1B, b'd'],
    [0x1B, b'e'],
    [0x1D, b'V'],
    [0x1B, b'T'],
    [0x1B, b'='],
    [0x1D, b'I'],
];

/// a few values of every text style
pub fn styles() -> Vec<B> {
    let mut v = vec![];
    for (op, ns) in [
        ([0x1B, b'r'], &[0, 1, 48, 49, 2][..]),
        ([0x1D, b'B'], &[0, 1, 2]),
        ([0x1D, b'!'], &[0, 0x01, 0x10, 0x11, 0x32, 0x77]),
        ([0x1B, b't'], &[0, 2, 255]),
        ([0x1B, b'G'], &[0, 1, 2]),
        ([0x1B, b'E'], &[0, 1]),
        ([0x1B, b'M'], &[0, 1, 2, 50, 97]),
        ([0x1B, b'R'], &[0, 1, 8]),
        ([0x1B, b'4'], &[0, 1]),
        ([0x1B, b'!'], &[0, 1, 8, 16, 32, 128, 0xB9]),
        ([0x1B, b'-'], &[0, 1, 2, 50]),
        ([0x1B, b'{'], &[0, 1]),
    ] {
        v.extend(each(&op, ns));
    }
    for col in [49, 50, 51, 0] {
        v.push(effects(48, col));
        v.push(effects(49, col));
    }
    v
}

/// settings of layout, symbols and pages
pub fn settings() -> Vec<B> {
    let mut v = vec![];
    for (op, ns) in [
        ([0x1B, b'a'], &[0, 1, 2, 50][..]),
        ([0x1B, b'3'], &[0, 10, 60]),
        ([0x1D, b'h'], &[1, 20]),
        ([0x1D, b'w'], &[2, 4, 9]),
        ([0x1D, b'f'], &[0, 1]),
        ([0x1D, b'H'], &[0, 1, 2, 3]),
    ] {
        v.extend(each(&op, ns));
    }
    v.push(esc(b'2', &[]));
    v.push(esc(b'D', &[4, 0]));
    v.push(esc(b'D', &[20, 1]));
    v.push(gs(b'P', &[101, 50]));
    v.push(gs(b'P', &[0, 100]));
    v.push(graph(49, &[51, 51]));
    v.push(graph(1, &[50, 50]));
    v.push(qr(67, &[5]));
    v.push(qr(69, &[51]));
    v.push(qr(65, &[50, 0]));
    v.push(qr_store(b"HELLO 123"));
    v
}

/// movements
pub fn moves() -> Vec<B> {
    vec![
        lf(),
        vec![9],
        vec![13],
        esc(b'd', &[2]),
        esc(b'J', &[7]),
        esc(b'e', &[1]),
        esc(b'e', &[9]),
        posx(0),
        posx(100),
        posx(600),
        posy(30),
        rely(10),
        rely(-15),
        gs(b'V', &[0]),
        gs(b'V', &[66, 20]),
    ]
}

/// things that print
pub fn prints() -> Vec<B> {
    vec![
        t("Ab c"),
        t("wide words that wrap around the end of the line somewhere here"),
        bit_n(0, 5),
        bit_n(33, 9),
        raster_n(0, 2, 3),
        raster_n(3, 1, 2),
        bar_nul(4, b"A1"),
        bar_len(73, b"{BNo"),
        bar_len(67, b"12"),
        qr_print(),
        graph(69, b"AA"),
        graph(85, b"AA"),
        buffer_print(),
        raster(0, 2, 2, b"abc"),
        sub(b'Z', b"?"),
    ]
}

/// things that store
pub fn stores() -> Vec<B> {
    vec![
        define_n(67, (b'A', b'A'), 9, 4, &[49], 1),
        define_n(83, (b'A', b'A'), 5, 9, &[49, 50], 2),
        buffer_n(112, 1, 2, 49, 10, 3),
        buffer_n(113, 2, 1, 50, 5, 10),
        graph(65, b"CLR"),
        graph(81, b"CLR"),
        graph(66, b"AA"),
        graph(82, b"AA"),
    ]
}

/// page mode
pub fn pages() -> Vec<B> {
    vec![
        page(),
        std_mode(),
        page_print(),
        vec![FF],
        area(0, 0, 300, 120),
        area(40, 60, 150, 300),
        dir(0),
        dir(1),
        dir(2),
        dir(3),
        vec![0x18],
        vec![0x18, b'@'],
    ]
}

/// shows the state of everything
pub fn probe() -> B {
    cat(&[
        t("Az\u{81}#\tx yz"),
        lf(),
        bit_n(1, 3),
        t("q"),
        raster_n(0, 1, 2),
        bar_nul(4, b"K"),
        qr_print(),
        graph(69, b"AA"),
        graph(85, b"AA"),
        buffer_print(),
        posx(30),
        posy(20),
        rely(-4),
        t("p$[\u{9C}"),
        esc(b'd', &[1]),
        t("end"),
    ])
}
