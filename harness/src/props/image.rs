//! C08 images, C09 stored graphics, C10 QR, C11 barcodes, C12 pages
use super::atoms::*;
use super::style::everything;
use crate::explore::Explorer;
use crate::spec::machine::Ev;
use crate::spec::scan;
use crate::sut::*;

fn justs() -> Vec<B> {
    each(&[0x1B, b'a'], &[0, 1, 2])
}

pub fn c08(e: &mut Explorer) {
    // every mode, width and each single dot
    let modes = [0u8, 1, 32, 33, 2, 34, 255];
    let mut dots: Vec<B> = vec![];
    for m in modes {
        let k = if matches!(m, 32 | 33) { 3 } else { 1 };
        for w in 1..=9u16 {
            for bit_no in 0..w as usize * k * 8 {
                let mut d = vec![0u8; w as usize * k];
                d[bit_no / 8] = 0x80 >> (bit_no % 8);
                dots.push(bit(m, w, &d));
                if w == 3 {
                    d.iter_mut().for_each(|b| *b = !*b);
                    dots.push(bit(m, w, &d));
                }
            }
        }
    }
    for m in [0u8, 1, 2, 3, 48, 49, 50, 51, 4, 52, 255] {
        for (w, h) in [(1u16, 1u16), (1, 3), (2, 2), (3, 5)] {
            for bit_no in 0..w as usize * h as usize * 8 {
                let mut d = vec![0u8; w as usize * h as usize];
                d[bit_no / 8] = 0x80 >> (bit_no % 8);
                dots.push(raster(m, w, h, &d));
            }
        }
    }
    e.product("single dots", &[&[t("a"), vec![]], &dots, &[t("b")]], IMG);
    // every byte value
    let mut bytes: Vec<B> = vec![];
    for b in 0..=255u8 {
        bytes.push(bit(0, 1, &[b]));
        bytes.push(bit(33, 1, &[b, !b, b ^ 0x3C]));
        bytes.push(raster(0, 1, 2, &[b, !b]));
        bytes.push(raster(3, 2, 1, &[b, b.rotate_left(3)]));
        bytes.push(cat(&[buffer(112, 1, 2, 49, 8, 1, &[b]), buffer_print()]));
        bytes.push(cat(&[buffer(113, 2, 1, 51, 1, 8, &[b]), buffer_print()]));
        bytes.push(cat(&[define(67, (b, b'k'), 8, 1, &[(49, vec![b])]), graph(69, &[b, b'k'])]));
        bytes.push(cat(&[define(84, (b'k', b), 1, 8, &[(50, vec![b])]), graph(85, &[b'k', b])]));
    }
    e.product("every byte", &[&justs(), &bytes, &[t("b")]], ALLX);
    // every value of the parameters
    let mut params: Vec<B> = vec![];
    for n in 0..=255u8 {
        for w in [0u16, 1, 2, 7, 8, 9, 255, 256, 300] {
            params.push(bit_n(n, w));
        }
        for (w, h) in [(0u16, 0u16), (0, 3), (3, 0), (1, 1), (2, 9), (40, 2), (1, 260)] {
            params.push(raster_n(n, w, h));
        }
        for (w, h) in [(0u16, 5u16), (9, 0), (9, 7), (17, 17)] {
            params.push(cat(&[buffer_n(112, n, 1, 49, w, h), buffer_print()]));
            params.push(cat(&[buffer_n(112, 1, n, 49, w, h), buffer_print()]));
            params.push(cat(&[buffer_n(113, n, 2, 49, w, h), buffer_print()]));
            params.push(cat(&[buffer_n(112, 1, 1, n, w, h), buffer_print()]));
            params.push(cat(&[buffer_n(113, 1, 1, n, w, h), buffer_print()]));
            params.push(cat(&[define_n(67, (1, 2), w, h, &[n], n), graph(69, &[1, 2])]));
            params.push(cat(&[define_n(68, (1, 2), w, h, &[n, 49], n), graph(69, &[1, 2])]));
        }
    }
    e.product("parameters", &[&[t("a"), esc(b'a', &[1])], &params, &[t("b\n")]], EV);
    // sizes
    let mut sizes: Vec<B> = vec![];
    for w in 0..=40u16 {
        for h in 0..=20u16 {
            sizes.push(cat(&[buffer_n(112, 1, 1, 49, w, h), buffer_print()]));
            sizes.push(cat(&[buffer_n(113, 1, 1, 50, w, h), buffer_print()]));
            sizes.push(cat(&[define_n(83, (7, 7), w, h, &[49, 50, 51], 3), graph(85, &[7, 7])]));
            sizes.push(cat(&[define_n(84, (7, 7), w, h, &[51, 49], 3), graph(85, &[7, 7])]));
        }
    }
    e.product("sizes", &[&justs(), &sizes, &[t("b")]], EV);
    let mut wide: Vec<B> = vec![];
    for w in (0..=700u16).step_by(e.pick(7, 1)).chain([608, 609, 610]) {
        wide.push(bit_n(0, w / 2));
        wide.push(bit_n(1, w));
        wide.push(bit_n(33, w));
        wide.push(cat(&[buffer_n(112, 1, 1, 49, w, 2), buffer_print()]));
        if w % 8 == 0 {
            wide.push(raster_n(0, w / 8, 2));
            wide.push(raster_n(1, w / 16, 2));
        }
    }
    let lead = [vec![], t("lead"), posx(100), posx(605), posx(700), cat(&[t("q "), bit_n(1, 30)]), esc(b'3', &[60]), cat(&[t("a"), lf(), t("b")])];
    e.product("widths", &[&justs(), &lead, &wide, &[t("end"), cat(&[bit_n(0, 3), t("y")])]], EV);
    e.product("painted widths", &[&justs(), &lead[..6].to_vec(), &wide.iter().step_by(e.pick(9, 2)).cloned().collect::<Vec<_>>(), &[t("end")]], IMG);
    // whose sizes, and numbers of bytes and dots, do not fit into a byte or two
    let mut big: Vec<B> = vec![];
    for (w, h) in [(1u16, 255u16), (1, 256), (1, 257), (1, 2304), (1, 32768), (1, 65535), (2, 32768), (31, 2), (32, 300), (75, 3), (76, 3), (77, 3), (76, 900), (255, 2), (256, 2), (257, 300), (8191, 1), (8192, 1), (8193, 2), (65535, 1), (300, 300)] {
        for m in [0, 1, 2, 3] {
            big.push(raster_n(m, w, h));
        }
    }
    for w in [255u16, 256, 257, 609, 610, 8191, 8192, 21845, 21846, 32767, 32768, 65535] {
        big.extend([0, 1, 32, 33].map(|m| bit_n(m, w)));
    }
    for (w, h) in [(8u16, 255u16), (255, 8), (256, 256), (257, 257), (608, 832), (609, 700), (2048, 200), (700, 700), (9, 30000), (30000, 9), (4000, 120), (1, 65000), (65000, 8)] {
        for (sx, sy) in [(1, 1), (2, 2), (2, 1), (1, 2)] {
            big.push(cat(&[buffer_n(112, sx, sy, 49, w, h), buffer_print()]));
            big.push(cat(&[buffer_n(113, sx, sy, 50, w, h), buffer_print()]));
        }
        big.push(cat(&[define_n(67, (1, 2), w, h, &[49], 1), graph(69, &[1, 2, 1, 1])]));
        big.push(cat(&[define_n(84, (1, 2), w, h, &[50], 2), graph(85, &[1, 2, 2, 2])]));
    }
    for (w, h) in [(1000u16, 1000u16), (608, 2000), (8, 65535), (65535, 16), (800, 656)] {
        let n = (w as usize).div_ceil(8) * h as usize;
        let k = w as usize * (h as usize).div_ceil(8);
        for (bytes, f, g) in [(n, 67u8, 112u8), (k, 68, 113)] {
            let wh = [w2(w), w2(h)].concat();
            big.push(cat(&[large(&[&[48, g, 48, 1, 1, 49][..], &wh, &pattern(bytes, 3)].concat()), buffer_print()]));
            big.push(cat(&[large(&[&[48, f, 48, 1, 2, 1][..], &wh, &[49], &pattern(bytes, 3)].concat()), graph(69, &[1, 2, 1, 1])]));
            big.push(cat(&[large(&[&[48, f + 16, 48, 1, 2, 2][..], &wh, &[49], &pattern(bytes, 3), &[51], &pattern(bytes, 4)].concat()), large(&[48, 85, 1, 2, 1, 1])]));
        }
    }
    e.product("large images", &[&justs(), &[vec![], posx(300), cat(&[t("a"), lf(), t("b")])], &big, &[t("end")]], EV);
    let shown: Vec<B> = big.iter().filter(|b| b.len() < 40_000).cloned().collect();
    e.product("large images painted", &[&[vec![], posx(300)], &shown, &[t("end")]], IMG);
    e.product("large images in html", &[&[vec![], posx(300)], &shown, &[t("end")]], HTML);
    // truncated or short data: every prefix of an image command at the end of the job
    let imgs = [
        bit_n(0, 5),
        bit_n(33, 4),
        raster_n(0, 2, 3),
        raster_n(3, 1, 4),
        buffer_n(112, 1, 1, 49, 9, 3),
        buffer_n(113, 1, 1, 49, 9, 3),
        define_n(67, (1, 1), 9, 3, &[49, 50], 1),
        define_n(68, (1, 1), 9, 3, &[49], 1),
        large(&cat(&[vec![48, 67, 48, 1, 1, 1, 9, 0, 3, 0, 49], pattern(6, 1)])),
        large(&cat(&[vec![48, 112, 48, 1, 1, 49, 9, 0, 3, 0], pattern(6, 1)])),
    ];
    let mut cut: Vec<B> = vec![];
    for i in &imgs {
        for n in 1..=i.len() {
            cut.push(i[..n].to_vec());
        }
    }
    e.product("cut off", &[&[t("a"), cat(&[define_n(67, (1, 1), 3, 3, &[49], 1), buffer_n(112, 1, 1, 49, 4, 4)])], &cut], EV);
    // stated sizes that are not those of the data
    let mut lies: Vec<B> = vec![];
    for w in [0u16, 1, 7, 8, 9, 16, 17, 24, 300, 65535] {
        for h in [0u16, 1, 2, 3, 8, 9, 16, 300, 65535] {
            for n in [0usize, 1, 2, 3, 4, 6, 8, 9, 18] {
                lies.push(cat(&[buffer(112, 1, 1, 49, w, h, &pattern(n, 5)), buffer_print()]));
                lies.push(cat(&[buffer(113, 1, 1, 49, w, h, &pattern(n, 5)), buffer_print()]));
                lies.push(cat(&[define(67, (1, 1), w, h, &[(49, pattern(n, 5))]), graph(69, &[1, 1]), t("k"), graph(69, &[1, 1])]));
                lies.push(cat(&[define(84, (1, 1), w, h, &[(49, pattern(n, 5)), (50, pattern(n / 2, 5))]), graph(85, &[1, 1])]));
            }
        }
    }
    e.product("other sizes", &[&[t("a"), cat(&[esc(b'a', &[1]), t("b")])], &lies, &[t("z")]], EV);
    // number of layers against the data
    let mut layers: Vec<B> = vec![];
    for n in 0..=6u8 {
        for k in 0..=5usize {
            for f in [67u8, 68, 83, 84] {
                let mut d = vec![48, f, 48, 3, 4, n];
                d.extend(w2(9));
                d.extend(w2(2));
                for i in 0..k {
                    d.push(49 + i as u8 % 3);
                    d.extend(pattern(if f % 16 == 4 { 9 } else { 4 }, i as u8));
                }
                layers.push(cat(&[sub(b'L', &d), graph(if f < 80 { 69 } else { 85 }, &[3, 4])]));
            }
        }
    }
    e.product("layers", &[&justs(), &layers, &[t("z")]], ALLX);
    // sequences of images, text and settings
    let seq = vec![
        t("ab"),
        lf(),
        bit_n(0, 20),
        bit_n(33, 150),
        bit_n(1, 0),
        raster_n(0, 3, 4),
        raster_n(2, 70, 2),
        raster(0, 2, 2, b"abc"),
        cat(&[buffer_n(112, 2, 2, 49, 20, 5), buffer_print()]),
        cat(&[buffer_n(112, 1, 1, 49, 20, 5), buffer_n(113, 1, 1, 50, 20, 5), buffer_print()]),
        esc(b'a', &[1]),
        esc(b'a', &[2]),
        esc(b'3', &[8]),
        posx(200),
        esc(b'{', &[1]),
        gs(b'B', &[1]),
        init(),
    ];
    super::style::apart(e, &seq, &[bit_n(0, 20), bit_n(33, 150), raster_n(0, 3, 4), raster_n(3, 70, 2), cat(&[buffer_n(112, 2, 1, 49, 20, 5), buffer_print()]), buffer_n(113, 1, 2, 50, 5, 12), bit_n(1, 9)], &cat(&[buffer_print(), t(".")]));
    e.product("many images", &[&often(&seq, MANY), &[t(".")]], EV);
    e.product("lots of images", &[&often(&seq, LOTS), &[t(".")]], EV);
    e.sequences("sequences", &seq, e.pick(4, 5), &[], &t("."), EV);
    e.reach("reached", &seq, 30, e.pick(2_000_000, 20_000_000), &[], &t("."), EV);
    e.sequences("painted sequences", &seq, 3, &[], &t("."), IMG);
    e.sequences("html sequences", &seq, e.pick(3, 4), &[], &t("."), HTML);
    e.product("html parameters", &[&[t("a"), esc(b'a', &[1])], &params, &[t("b\n")]], HTML);
    e.product("html sizes", &[&justs(), &sizes, &[t("b")]], HTML);
    e.product("html widths", &[&justs(), &lead, &wide, &[t("end")]], HTML);
    let dirs = each(&[0x1B, b'T'], &[0, 1, 2, 3]);
    e.product("on a page", &[&[cat(&[page(), area(20, 30, 200, 90)]), cat(&[page(), area(0, 0, 30, 20)])], &dirs, &opt(seq.clone()), &seq[2..10].to_vec(), &seq, &[cat(&[t("."), vec![FF], t("x")])]], EV);
    e.product("painted on a page", &[&[cat(&[page(), area(20, 30, 200, 90)]), cat(&[page(), area(0, 0, 30, 20)])], &dirs, &seq[2..10].to_vec(), &seq[..10].to_vec(), &[cat(&[t("."), vec![FF], t("x")])]], IMG);
}

pub fn c09(e: &mut Explorer) {
    let keys = [(b'A', b'A'), (b'A', b'B')];
    let mut ops: Vec<B> = vec![];
    for (f, show) in [(67u8, 69u8), (83, 85)] {
        for k in keys {
            ops.push(define_n(f, k, 9, 3, &[49], k.1 + f));
            ops.push(graph(f - 1, &[k.0, k.1]));
            ops.push(graph(show, &[k.0, k.1, 1, 1]));
        }
        ops.push(define_n(f + 1, keys[0], 4, 10, &[50, 49], f));
        ops.push(graph(f - 2, b"CLR"));
    }
    ops.push(buffer_n(112, 1, 1, 49, 9, 3));
    ops.push(buffer_n(113, 1, 1, 50, 9, 3));
    ops.push(buffer_n(112, 2, 1, 51, 5, 3));
    ops.push(buffer_print());
    let show_all: B = cat(&[
        t("|"),
        graph(69, b"AA"),
        graph(69, b"AB"),
        graph(85, b"AA"),
        graph(85, b"AB"),
        buffer_print(),
        buffer_print(),
    ]);
    e.sequences("histories", &ops, e.pick(4, 5), &[], &show_all, EV);
    e.reach("reached stores", &ops, 30, e.pick(2_000_000, 20_000_000), &[], &show_all, EV);
    super::style::apart(e, &ops, &[ops[0].clone(), ops[2].clone(), ops[6].clone(), define_n(84, keys[1], 5, 9, &[50], 4), ops[7].clone(), buffer_n(112, 1, 1, 49, 9, 3), buffer_n(113, 1, 2, 50, 9, 3), buffer_print()], &show_all);
    // the same through GS 8 L and between other commands
    let mut big: Vec<B> = vec![];
    for (f, show) in [(67u8, 69u8), (84, 85)] {
        let d = define_n(f, (b'A', b'A'), 9, 3, &[49], 9 + f);
        big.push(large(&d[5..]));
        big.push(large(&[48, show, b'A', b'A', 1, 1]));
        big.push(large(&[48, if f == 67 { 66 } else { 82 }, b'A', b'A']));
        big.push(large(&[48, if f == 67 { 65 } else { 81 }, b'C', b'L', b'R']));
    }
    big.push(large(&buffer_n(112, 1, 1, 49, 9, 3)[5..]));
    big.push(large(&buffer_n(113, 1, 1, 50, 12, 3)[5..]));
    big.push(large(&[48, 50]));
    let mixed = join(&[&ops, &big]);
    e.sequences("large and small", &mixed, 3, &[], &show_all, EV);
    // keys: every pair of bytes differs from the neighbours
    let ks: Vec<(u8, u8)> = (0..=255u8).flat_map(|a| [(a, a), (a, 0), (0, a), (a, !a), (32, a)]).collect();
    let two: Vec<B> = ks.iter().map(|k| define_n(67, *k, 8, 2, &[49], k.0 ^ k.1)).collect();
    let near: Vec<B> = vec![define_n(67, (32, 32), 8, 2, &[50], 77), define_n(83, (32, 0), 8, 2, &[50], 78), define_n(67, (0, 0), 8, 2, &[50], 79)];
    let n = ks.len() as u64;
    e.streams("keys", n * 3 * 4, EV, |i| {
        let k = ks[(i % n) as usize];
        let (a, b) = ((i / n % 3) as usize, i / n / 3);
        let mut s = cat(&[near[a].clone(), two[(i % n) as usize].clone()]);
        s.extend(match b {
            0 => vec![],
            1 => graph(66, &[k.0, k.1]),
            2 => graph(66, &[k.1, k.0]),
            _ => graph(82, &[k.0, k.1]),
        });
        for f in [69u8, 85] {
            for q in [k, (k.1, k.0), (32, 32), (32, 0), (0, 0)] {
                s.extend(graph(f, &[q.0, q.1]));
            }
        }
        s
    });
    // redefinition, short defines, undecodable content
    let defs: Vec<B> = [67u8, 68, 83, 84]
        .iter()
        .flat_map(|f| {
            vec![
                define_n(*f, (1, 1), 9, 3, &[49], 1),
                define_n(*f, (1, 1), 9, 9, &[49, 50, 51], 1),
                define_n(*f, (1, 1), 0, 3, &[49], 1),
                define(*f, (1, 1), 9, 3, &[(49, vec![1, 2, 3])]),
                define(*f, (1, 1), 9, 3, &[]),
                graph(*f, &[48, 1, 1, 1, 9, 0, 3]),
                graph(*f, &[48, 1]),
                define_n(*f, (1, 2), 8, 8, &[50], 9),
            ]
        })
        .collect();
    let shows = cat(&[graph(69, &[1, 1]), graph(85, &[1, 1]), t("k"), graph(69, &[1, 2]), graph(85, &[1, 2]), graph(69, &[1]), graph(85, &[])]);
    let clears = vec![vec![], graph(65, b"CLR"), graph(81, b"CLR"), graph(66, &[1, 1]), graph(82, &[1, 1]), graph(66, &[1]), graph(65, &[]), graph(81, b"X"), graph(40, &[]), graph(51, &[]), graph(64, b"xx"), init()];
    e.product("redefinition", &[&defs, &clears, &defs, &clears, &[cat(&[t("a"), shows.clone()])]], EV);
    // as many layers as a byte can tell, and one less than stated
    e.streams("number of layers", 256 * 8, EV, |i| {
        let (n, f) = (i as u8, [67u8, 68, 83, 84][(i / 256 % 4) as usize]);
        let layers: Vec<(u8, B)> = (0..n)
            .map(|k| {
                let mut dot = vec![0; 32];
                dot[k as usize / 8] = 128 >> (k % 8);
                (49 + k % 3, dot)
            })
            .collect();
        let mut d = define(f, (5, 6), 32, 8, &layers);
        if i / 1024 == 1 {
            d[10] = n.wrapping_add(1);
        }
        cat(&[t("a"), d, graph(if f < 80 { 69 } else { 85 }, &[5, 6]), t("z")])
    });
    // the print buffer: layers and order
    let mut bufs: Vec<B> = vec![buffer_print(), graph(2, &[]), t("t"), vec![0x18], page(), vec![FF], init()];
    for f in [112u8, 113] {
        for col in [49u8, 50] {
            for (w, h) in [(9u16, 3u16), (5, 9)] {
                bufs.push(buffer_n(f, 1, 1, col, w, h));
            }
        }
        bufs.push(buffer_n(f, 2, 2, 51, 4, 4));
        bufs.push(buffer(f, 1, 1, 49, 9, 3, b"1"));
        bufs.push(graph(f, &[48, 1, 1]));
    }
    e.reach("reached print buffers", &bufs, 30, e.pick(1_000_000, 10_000_000), &[], &cat(&[buffer_print(), t("."), buffer_print()]), EV);
    e.sequences("print buffer", &bufs, e.pick(4, 5), &[], &cat(&[buffer_print(), t("."), buffer_print()]), EV);
    // a print buffer of any number of graphics
    let full: Vec<usize> = (0..=40).chain(MANY.iter().copied()).chain([513, 1025, 1279]).collect();
    e.streams("full print buffer", full.len() as u64 * 4, EV, |i| {
        let mut s: B = vec![];
        for k in 0..full[(i / 4) as usize] {
            let f = [112u8, 113, if k % 2 == 0 { 112 } else { 113 }, 112][(i % 4) as usize];
            // a dot of its own for each
            let mut d = vec![0; 160];
            d[k / 8] = 128 >> (k % 8);
            s.extend(buffer(f, 1, 1 + (k / 2 % 2 * (i as usize % 2)) as u8, 49 + (k % 3) as u8, 160, 8, &d));
            if i % 4 == 3 && k % 50 == 7 {
                s.extend(cat(&[t("t"), lf()]));
            }
        }
        cat(&[s, buffer_print(), t("."), buffer_print()])
    });
    // every key at once
    e.streams("all keys at once", 4 * 3, EV, |i| {
        let (f, show) = [(67u8, 69u8), (84, 85), (68, 69), (83, 85)][(i % 4) as usize];
        let keys = || (0..=65535u32).map(|k| ((k >> 8) as u8, k as u8));
        let mut s: B = vec![];
        for k in keys() {
            s.extend(define(f, k, if f % 16 == 3 { 32 } else { 4 }, if f % 16 == 3 { 1 } else { 8 }, &[(49, vec![k.0, k.1, !k.0, 1])]));
        }
        match i / 4 {
            0 => {}
            1 => s.extend(graph(f - 1 - (f - 67) % 16 % 2, &[77, 13])),
            _ => (0..=255).for_each(|k| s.extend(define_n(f, (k, 255 - k), 7, 3, &[50], k))),
        }
        for k in keys() {
            s.extend(graph(show, &[k.0, k.1]));
        }
        s
    });
    // many at once: every one of them is kept, some are redefined or cleared
    let count = e.pick(600u64, 3000);
    e.streams("many keys", 8 * 4, EV, |i| {
        let key = |k: u64| (32 + (k % 90) as u8, 32 + (k / 90) as u8);
        let n = [1, 15, 16, 17, 100, 255, 257, count][(i % 8) as usize];
        let mut s: B = vec![];
        for k in 0..n {
            s.extend(define_n([67, 68, 67, 84, 83][(k % 5) as usize], key(k), 8, 1 + (k % 3) as u16, &[49], k as u8));
        }
        for k in (0..n).step_by(7) {
            match i / 8 {
                0 => {}
                1 => s.extend(define_n([67, 68][(k % 2) as usize], key(k), 9, 2, &[50], k as u8 ^ 0x55)),
                2 => s.extend(graph(66, &[key(k).0, key(k).1])),
                _ => s.extend(graph(82, &[key(k).0, key(k).1])),
            }
        }
        for k in 0..n {
            s.extend(graph(69, &[key(k).0, key(k).1]));
            s.extend(graph(85, &[key(k).0, key(k).1]));
        }
        s
    });
    // stored graphics survive everything but ESC @
    let all = everything();
    let setup = cat(&[define_n(67, (b'A', b'A'), 9, 4, &[49], 1), define_n(84, (b'A', b'A'), 5, 9, &[50], 2), buffer_n(112, 1, 2, 49, 10, 3)]);
    e.product("lasting", &[&[setup.clone()], &all, &all, &[show_all.clone()]], EV);
    // placed
    let places = join(&[&justs(), &moves(), &[t("abc"), cat(&[page(), area(10, 10, 100, 50)]), cat(&[page(), area(10, 10, 100, 50), dir(1)])]]);
    e.product("placed", &[&[setup], &places, &places, &[show_all.clone()], &[t("x"), vec![FF]]], EV);
    e.sequences("painted histories", &ops, 3, &[], &show_all, IMG);
    e.sequences("html histories", &ops, e.pick(3, 4), &[], &show_all, HTML);
    e.product("html redefinition", &[&defs, &clears, &defs, &[cat(&[t("a"), shows.clone()])]], HTML);
    e.sequences("html print buffer", &bufs, 3, &[], &cat(&[buffer_print(), t("."), buffer_print()]), HTML);
    e.sequences("painted print buffer", &bufs, 3, &[], &cat(&[buffer_print(), t("."), buffer_print()]), IMG);
}

pub fn c10(e: &mut Explorer) {
    let models: Vec<B> = [49u8, 50, 51, 48, 0, 255].iter().map(|m| qr(65, &[*m, 0])).collect();
    let levels: Vec<B> = [48u8, 49, 50, 51, 0, 1, 2, 3, 52, 255].iter().map(|m| qr(69, &[*m])).collect();
    let sizes: Vec<B> = [0u8, 1, 2, 3, 4, 8, 16, 30, 255].iter().map(|m| qr(67, &[*m])).collect();
    let data: Vec<B> = vec![
        qr_store(b""),
        qr_store(b"1"),
        qr_store(b"0123456789"),
        qr_store(b"HELLO WORLD"),
        qr_store(b"https://a.bc/d?e=1"),
        qr_store(&[0, 255, 128]),
        qr_store("äß".as_bytes()),
        qr_store(&pattern(60, 1)),
        qr(80, &[]),
        sub(b'k', &[49, 80]),
    ];
    e.product("settings", &[&opt(models.clone()), &opt(levels.clone()), &opt(sizes.clone()), &data, &[qr_print()]], EV);
    // every value of the settings
    let mut one: Vec<B> = vec![];
    for n in 0..=255u8 {
        one.extend([qr(65, &[n, 0]), qr(67, &[n]), qr(69, &[n]), qr(n, &[49]), sub(b'k', &[n, 67, 5]), sub(b'k', &[n, 80, 48, b'x']), sub(b'k', &[n, 81, 48])]);
    }
    e.product("every value", &[&[qr_store(b"first")], &one, &[vec![], qr_store(b"second 2")], &[cat(&[t("a"), qr_print(), t("b")])]], EV);
    // settings apply to symbols stored after them
    let ops = join(&[&models[..3].to_vec(), &levels[..4].to_vec(), &sizes[1..4].to_vec(), &[qr_store(b"A1"), qr_store(&pattern(20, 3)), qr_store(&pattern(400, 3)), qr_print(), t("x"), esc(b'a', &[1]), init()]]);
    e.reach("reached settings", &ops, 30, e.pick(100_000, 3_000_000), &[], &cat(&[qr_print(), t("e"), qr_print()]), EV);
    e.sequences("histories", &ops, e.pick(3, 4), &[], &cat(&[qr_print(), t("e"), qr_print()]), EV);
    super::style::apart(e, &[qr_store(b"A1"), qr(67, &[7]), cat(&[qr_store(&pattern(20, 3)), qr_print()]), esc(b'a', &[1]), t("x")], &[qr(67, &[5]), qr(69, &[51]), qr_store(b"A1"), qr_print()], &cat(&[qr_print(), t("e")]));
    let again: Vec<B> = ops.iter().filter(|o| o.len() < 300).map(|o| cat(&[o.clone(), qr_print()])).chain([cat(&[qr_store(b"7"), qr_print()]), cat(&[qr(67, &[9]), qr_store(b"8"), qr(67, &[2])])]).collect();
    e.product("lots", &[&[qr_store(b"1")], &often(&again, &[257, 513, 1025, 4097]), &[cat(&[t("e"), qr_store(b"23"), qr_print()])]], EV);
    // positions
    let places = join(&[&justs(), &moves(), &[cat(&[page(), area(10, 10, 100, 50)]), cat(&[page(), area(60, 20, 200, 150), dir(2)]), t("abc"), esc(b'r', &[1])]]);
    e.product("places", &[&sizes, &[qr_store(b"42")], &places, &places, &[cat(&[t("q"), qr_print(), t("z"), qr_print(), vec![FF]])]], EV);
    // every length
    let lens: Vec<u16> = if e.thorough() { (0..=2960).collect() } else { (0..=120).chain((121..=2960).step_by(43)).chain([2953, 2954, 458, 459, 362, 363]).collect() };
    let kinds: [fn(usize) -> u8; 3] = [|i| b'0' + (i % 10) as u8, |i| b"ABC $%1"[i % 7], |i| (i as u8).wrapping_mul(91)];
    let n = lens.len() as u64;
    let (ms, ls) = (&models[..3], &levels[..4]);
    let make = |i: u64| {
        let len = lens[(i % n) as usize] as usize;
        let r = i / n;
        let d: B = (0..len).map(kinds[(r % 3) as usize]).collect();
        cat(&[ms[(r / 3 % 3) as usize].clone(), ls[(r / 9 % 4) as usize].clone(), qr(67, &[3]), qr_store(&d), qr_print(), t(".")])
    };
    e.streams("lengths", n * 36, EV, make);
    scan_qr(e, "scanned", n * 36, |i| {
        let r = i / n;
        let len = lens[(i % n) as usize] as usize;
        ((r / 3 % 3) as u8 + 1, (r / 9 % 4) as u8, (0..len).map(kinds[(r % 3) as usize]).collect())
    });
    // as much as fits a version, one less and one more
    let filled = |i: u64| {
        let (mode, level, around, model) = ((i % 3) as usize, (i / 3 % 4) as u8, (i / 12 % 3) as usize, (i / 36 % 2) as u8 + 1);
        let len = scan::capacity((i / 72) as usize + 1, level as usize, [1, 2, 4][mode]) + around - 1;
        (model, level, (0..len).map([|i| b'0' + (i * 7 % 10) as u8, |i| b"BQ $%/Z"[i % 7], kinds[2]][mode]).collect::<B>())
    };
    e.streams("filled", 40 * 72, EV, |i| {
        let (m, v, d) = filled(i);
        cat(&[qr(65, &[48 + m, 0]), qr(69, &[48 + v]), qr(67, &[1]), qr_store(&d), qr_print(), t(".")])
    });
    scan_qr(e, "filled and scanned", 40 * 72, filled);
    // digits, letters, bytes and double bytes one after the other
    let parts: [&[u8]; 8] = [b"7", b"4092817", b"AZ:", b"HELLO WORLD", b"xy", &[0x93, 0x5F], &[0xE4, 0xAA, 0x81, 0x40], &[0, 0xFF]];
    let depth = e.pick(3, 5);
    scan_qr(e, "mixed data scanned", 12 * (0..=depth).map(|k| 8u64.pow(k)).sum::<u64>(), |i| {
        let d: B = crate::explore::sequence(i / 12, 8, depth).iter().flat_map(|k| parts[*k].to_vec()).collect();
        ((i % 3) as u8 + 1, (i / 3 % 4) as u8, d)
    });
    e.product("other symbols", &[&[qr_store(b"old"), vec![]], &(48..=55u8).flat_map(|m| [65u8, 66, 67, 68, 69, 70, 80, 81, 82].map(|f| sub(b'k', &[m, f, 48, 50, 51, 52, 53]))).collect::<Vec<_>>(), &(48..=55u8).flat_map(|m| [65u8, 67, 69, 80, 81].map(|f| sub(b'k', &[m, f, 48, 65]))).collect::<Vec<_>>(), &[cat(&[qr_print(), t("z")])]], EV);
    e.product("painted", &[&sizes, &data, &justs(), &places, &[cat(&[qr_print(), t(".")])]], IMG);
    e.product("html", &[&sizes, &data, &opt(places.clone()), &places, &[cat(&[t("a"), qr_print(), t(".")])]], HTML);
    e.streams("html lengths", n * 36, HTML, make);
    e.sequences("painted histories", &ops, 2, &[], &cat(&[qr_print(), t("e"), qr_print()]), IMG);
    e.sequences("html histories", &ops, 3, &[], &cat(&[qr_print(), t("e"), qr_print()]), HTML);
}

/// What was printed at one dot per module and scanned
fn printed(b: &[u8], l: &mut crate::explore::Local) -> Option<Vec<(u32, u32, u32, u32)>> {
    let job = run(b, EV);
    l.runs += 1;
    let rects = job.docs.into_iter().flat_map(|d| d.events).find_map(|e| match e {
        Ev::Rects { rects, .. } => Some(rects),
        _ => None,
    })?;
    l.transitions += 1;
    l.state(&rects);
    Some(rects)
}

fn scan_bars(e: &mut Explorer, name: &str, total: u64, data: impl Fn(u64) -> (u8, B) + Sync) {
    let make = |kind: u8, d: &[u8]| cat(&[gs(b'w', &[2]), if kind < 7 { bar_nul(kind, d) } else { bar_len(kind, d) }]);
    e.cases(name, total, |i| { let (k, d) = data(i); Some(make(k, &d)) }, |i, l| {
        let (kind, d) = data(i);
        let Some(rects) = printed(&make(kind, &d), l) else { return Ok(()) };
        // bars that don't fit the paper are not printed
        if crate::spec::barcode::encode(kind, &d).is_none_or(|b| b.0.len() > 304) {
            return Ok(());
        }
        let m = scan::modules(&rects, 2)?;
        let got = scan::bars(kind, &m).map_err(|e| format!("{e} {:?}", String::from_utf8_lossy(&d)))?;
        // a given asterisk of code 39 is the start and stop
        let d: B = match kind {
            4 | 69 => String::from_utf8_lossy(&d).trim_matches('*').as_bytes().to_vec(),
            _ => d,
        };
        if Some(&got) != scan::meant(kind, &d).as_ref() {
            return Err(format!("{:?} of kind {kind} is read as {:?}", String::from_utf8_lossy(&d), String::from_utf8_lossy(&got)));
        }
        Ok(())
    });
}

fn scan_qr(e: &mut Explorer, name: &str, total: u64, data: impl Fn(u64) -> (u8, u8, B) + Sync) {
    let make = |m: u8, v: u8, d: &[u8]| cat(&[qr(65, &[48 + m, 0]), qr(69, &[48 + v]), qr(67, &[1]), qr_store(d), qr_print()]);
    e.cases(name, total, |i| { let (m, v, d) = data(i); Some(make(m, v, &d)) }, |i, l| {
        let (model, level, d) = data(i);
        let Some(rects) = printed(&make(model, level, &d), l) else { return Ok(()) };
        let got = scan::Dots::new(&rects).and_then(|d| scan::qr(&d)).map_err(|e| format!("{e}: {d:?}"))?;
        let want = scan::Read { micro: model == 3, version: got.version, level: ['L', 'M', 'Q', 'H'][level as usize], data: d };
        if got != want || (model == 1 && got.version > 14) {
            return Err(format!("{want:?} is read as {got:?}"));
        }
        Ok(())
    });
}

pub fn c11(e: &mut Explorer) {
    // every kind of symbol and all kinds of data
    let mut data: Vec<B> = vec![
        b"".to_vec(), b"1".to_vec(), b"12".to_vec(), b"123".to_vec(), b"1234".to_vec(), b"A1B".to_vec(), b"A123B".to_vec(), b"D$-:/.+C".to_vec(), b"A1C2B".to_vec(),
        b"a1b".to_vec(), b"AB".to_vec(), b"*A*".to_vec(), b"**".to_vec(), b"*".to_vec(), b"A*B".to_vec(), b"abc".to_vec(), b"A B-C.$/+%".to_vec(), b"{A".to_vec(), b"{B".to_vec(),
        b"{B1".to_vec(), b"{C12".to_vec(), b"{C123".to_vec(), b"{C1234{Bab".to_vec(), b"{Aa".to_vec(), b"{Babc{A\x01".to_vec(), b"No{B".to_vec(), b"{B{{".to_vec(), b"{D1".to_vec(), b"{B{".to_vec(), b"{A{B{C11".to_vec(),
        "ä".as_bytes().to_vec(), "1ä3".as_bytes().to_vec(), vec![0xFF, 0x31, 0x32], "{BÀ1".as_bytes().to_vec(), "12345678901ä".as_bytes().to_vec(), "ä2345678901".as_bytes().to_vec(), b"-123".to_vec(), b"+12345678901".to_vec(),
    ];
    for n in 5..=16 {
        data.push((0..n).map(|i| b'0' + (i * 7 % 10) as u8).collect());
        data.push(vec![b'0'; n]);
    }
    for n in [100, 126, 127, 128, 254, 255] {
        data.push(vec![b'4'; n]);
    }
    let n = data.len() as u64;
    let hri = [vec![], gs(b'H', &[1]), gs(b'H', &[2]), gs(b'H', &[3])];
    e.streams("kinds", 256 * n * 2 * 4, EV, |i| {
        let d = &data[(i % n) as usize];
        let (k, len, h) = ((i / n % 256) as u8, i / n / 256 % 2 == 1, (i / n / 512) as usize);
        cat(&[t("a"), hri[h].clone(), if len { bar_len(k, d) } else { bar_nul(k, d) }, t("z")])
    });
    // each digit at each place of the fixed length codes
    let mut digits: Vec<B> = vec![];
    for (kind, lens) in [(65u8, vec![11usize, 12]), (67, vec![12, 13]), (68, vec![7, 8]), (66, vec![6, 7, 8, 11, 12])] {
        for len in lens {
            for base in [0u8, 1, 5] {
                for p in 0..len {
                    for v in 0..=10u8 {
                        let mut d: B = (0..len).map(|i| b'0' + (base * (i as u8 + 1)) % 10).collect();
                        d[p] = b'0' + v;
                        digits.push(bar_len(kind, &d));
                        // the last digit is the check digit or not
                        for c in 0..10u8 {
                            let mut x = d.clone();
                            x[len - 1] = b'0' + c;
                            digits.push(bar_nul(kind - 65, &x));
                        }
                    }
                }
            }
        }
    }
    e.product("digits", &[&digits, &[t("z")]], EV);
    // all short codes of UPC-E
    let step = e.pick(11u64, 1);
    e.streams("short codes", 2 * 1_000_000 / step, EV, |i| {
        let n = i * step;
        let d = format!("{}{:06}", n / 1_000_000, n % 1_000_000);
        bar_nul(1, d.as_bytes())
    });
    let (l12, l8) = (e.pick(20_000u64, 500_000), e.pick(20_000u64, 500_000));
    e.streams("codes that are shortened", l12, EV, |i| {
        // codes with many zeros
        let m = [0u64, 100, 12000, 34500, 67890, 12300, 90000, 10100, 20200, 45000][i as usize % 10];
        let p = i / 10 % 1000 * [1u64, 1, 10, 0, 0, 1, 1, 1, 1, 1][i as usize % 10];
        let d = format!("{}{m:05}{p:05}", i / 10_000 % 2);
        bar_len(66, d.as_bytes())
    });
    // all that decides which rule shortens a number, or none
    let last = b"01235";
    let product = b"0159";
    e.streams("rules of shortening", 3 * 125 * 1024 * 3, EV, |i| {
        let mut k = i;
        let mut next = |of: &[u8]| {
            let d = of[(k % of.len() as u64) as usize];
            k /= of.len() as u64;
            d
        };
        let mut d = vec![next(b"013"), b'4', b'7'];
        (0..3).for_each(|_| d.push(next(last)));
        (0..5).for_each(|_| d.push(next(product)));
        let odd: u32 = d.iter().step_by(2).map(|c| (c - b'0') as u32).sum();
        let even: u32 = d.iter().skip(1).step_by(2).map(|c| (c - b'0') as u32).sum();
        let check = b'0' + ((10 - (odd * 3 + even) % 10) % 10) as u8;
        match next(b"012") {
            b'0' => {}
            b'1' => d.push(check),
            _ => d.push(if check == b'9' { b'0' } else { check + 1 }),
        }
        bar_nul(1, &d)
    });
    e.streams("check digits", l8, EV, |i| {
        let n = i.wrapping_mul(2_654_435_761) % 10_000_000;
        let d = format!("0{:07}", n);
        bar_len(66, d.as_bytes())
    });
    // all characters and pairs of the text codes
    let chars: Vec<u8> = (0..=255u8).collect();
    e.streams("characters", 256 * 6 * 3, EV, |i| {
        let ch = chars[(i % 256) as usize];
        let d: B = match i / 256 % 3 {
            0 => vec![ch],
            1 => vec![b'A', ch, b'B'],
            _ => vec![b'{', b'B', b'x', ch, b'3', b'4'],
        };
        match i / 256 / 3 {
            0 => bar_len(69, &d),
            1 => bar_len(72, &d),
            2 => bar_len(73, &d),
            3 => bar_len(71, &d),
            4 => bar_nul(4, &d),
            _ => bar_nul(6, &d),
        }
    });
    let toks: Vec<B> = ["{A", "{B", "{C", "12", "3", "ab", "AB", "{", "\x05", "C"].iter().map(|s| s.as_bytes().to_vec()).collect();
    let depth = e.pick(4, 5);
    let total: u64 = (0..=depth).map(|d| (toks.len() as u64).pow(d)).sum();
    e.streams("code sets", total, EV, |i| {
        let d: B = crate::explore::sequence(i, toks.len() as u64, depth).iter().flat_map(|k| toks[*k].clone()).collect();
        cat(&[gs(b'H', &[2]), bar_len(73, &d), t("z")])
    });
    // lengths
    e.streams("lengths", 256 * 11, EV, |i| {
        let (n, k) = ((i % 256) as usize, 65 + (i / 256) as u8);
        let d: B = match k {
            73 => [b"{B".to_vec(), vec![b'q'; n.saturating_sub(2)]].concat(),
            71 => [vec![b'A'], vec![b'7'; n.saturating_sub(2)], vec![b'D']].concat(),
            _ => vec![b'7'; n],
        };
        cat(&[t("a"), bar_len(k, &d[..d.len().min(255)]), t("z")])
    });
    // a declared length that is not that of the data
    let mut lies: Vec<B> = vec![];
    for k in [65u8, 67, 69, 72, 73, 74, 79, 80, 255, 6, 4, 0, 7] {
        for n in [0u8, 1, 5, 12, 20, 255] {
            for body in [&b""[..], b"A1", b"123456789012", b"{Bxyz\n\0ab"] {
                lies.push(gs(b'k', &[&[k, n], body].concat()));
            }
        }
    }
    e.product("other lengths", &[&[t("a")], &lies, &[vec![], t("z"), lf()]], EV);
    // what a scanner reads
    let n = data.len() as u64;
    scan_bars(e, "scanned", n * 80, |i| ((i / n) as u8, data[(i % n) as usize].clone()));
    let step = e.pick(37u64, 1);
    scan_bars(e, "digits scanned", 4_000_000 / step, |i| {
        let i = i * step;
        let (kind, n) = [(1u8, 7), (65u8, 11), (67, 12), (68, 7)][(i / 1_000_000) as usize];
        let v = if kind == 1 { i % 1_000_000 } else { (i % 1_000_000).wrapping_mul(0x9E37_79B9_7F4A_7C15) % 10u64.pow(n) };
        (kind, format!("{v:0w$}", w = n as usize).into_bytes())
    });
    scan_bars(e, "pairs scanned", 128 * 128 * 5, |i| {
        let (a, b) = ((i % 128) as u8, (i / 128 % 128) as u8);
        match i / 128 / 128 {
            0 => (69, vec![a, b]),
            1 => (72, vec![b'K', a, b, b'-']),
            2 => (73, vec![b'{', b'B', a, b]),
            3 => (73, vec![b'{', b'A', a, b]),
            _ => (71, vec![b'A', a, b, b'C']),
        }
    });
    scan_bars(e, "code sets scanned", total, |i| (73, crate::explore::sequence(i, toks.len() as u64, depth).iter().flat_map(|k| toks[*k].clone()).collect()));
    scan_bars(e, "lengths scanned", 64 * 12, |i| {
        let n = (i % 64) as usize;
        let text = |f: fn(usize) -> u8| (0..n).map(f).collect::<B>();
        match i / 64 {
            0 => (5, text(|k| b'0' + (k * 7 % 10) as u8)),
            1 => (69, text(|k| b"Q-7Z +"[k % 6])),
            2 => (72, text(|k| b"0$Y9/%KA"[k % 8])),
            3 => (73, cat(&[b"{B".to_vec(), text(|k| b"aZ~ 4"[k % 5])])),
            4 => (73, cat(&[b"{C".to_vec(), text(|k| b'0' + (k * 3 % 10) as u8)])),
            5 => (73, cat(&[b"{A".to_vec(), text(|k| b"\x1F\x01_ "[k % 4])])),
            6 => (71, cat(&[b"B".to_vec(), text(|k| b"9:-+$/.0"[k % 8]), b"D".to_vec()])),
            7 => (70, text(|_| b'9')),
            8 => (72, text(|_| b'%')),
            9 => (73, cat(&[b"{A".to_vec(), text(|_| b'_')])),
            10 => (73, cat(&[b"{B12{C".to_vec(), text(|_| b'9')])),
            _ => (6, cat(&[b"C".to_vec(), text(|_| b'8'), b"A".to_vec()])),
        }
    });
    // sizes, positions, colours
    let good = [bar_nul(4, b"AB1"), bar_len(67, b"123456789012"), bar_len(73, b"{BLonger data 123456"), bar_nul(5, b"123456"), bar_len(67, b"1x"), bar_len(69, b"WWWWWWWWWWWWWWWWWWWWWWWWWWWW")];
    let ws = join(&[&each(&[0x1D, b'w'], &[0, 1, 2, 3, 4, 5, 6, 7, 255]), &[vec![]]]);
    let hs = each(&[0x1D, b'h'], &[0, 1, 20, 162, 255]);
    let fonts = each(&[0x1D, b'f'], &[0, 1, 2, 48, 49, 97, 255]);
    let places = join(&[&justs(), &moves(), &[cat(&[page(), area(10, 10, 200, 90)]), cat(&[page(), area(60, 20, 300, 150), dir(3)]), esc(b'r', &[1]), gs(b'!', &[0x11]), esc(b'E', &[1])]]);
    e.product("sizes", &[&ws, &hs, &hri, &opt(fonts.clone()), &justs(), &good, &[t("z")]], EV);
    e.product("places", &[&opt(places.clone()), &places, &hri, &good, &[t("z"), vec![FF]]], EV);
    super::style::apart(e, &good, &[gs(b'w', &[4]), gs(b'h', &[20]), gs(b'H', &[2]), gs(b'f', &[1]), good[0].clone(), cat(&[gs(b'H', &[3]), good[1].clone()]), good[4].clone()], &cat(&[good[0].clone(), t("z")]));
    let every_size: Vec<B> = join(&[&every(&[0x1D, b'w']), &every(&[0x1D, b'h']), &every(&[0x1D, b'H']), &every(&[0x1D, b'f'])]);
    e.product("every setting", &[&opt(settings()), &every_size, &good, &[t("z")]], EV);
    let seq = join(&[&ws[..4].to_vec(), &hs[1..3].to_vec(), &hri[1..].to_vec(), &good[..2].to_vec(), &[good[4].clone(), t("tx"), lf(), esc(b'a', &[1]), gs(b'f', &[1]), init()]]);
    e.reach("reached settings", &seq, 30, e.pick(2_000_000, 20_000_000), &[], &cat(&[good[0].clone(), t("z")]), EV);
    e.sequences("histories", &seq, e.pick(4, 5), &[], &cat(&[good[0].clone(), t("z")]), EV);
    e.product("painted", &[&places, &hri, &ws[..3].to_vec(), &good, &[t("z")]], IMG);
    e.product("html", &[&opt(places.clone()), &places, &hri, &opt(ws[..3].to_vec()), &good, &[t("z")]], HTML);
    e.sequences("painted histories", &seq, 3, &[], &cat(&[good[0].clone(), t("z")]), IMG);
    e.sequences("html histories", &seq, e.pick(3, 4), &[], &cat(&[good[0].clone(), t("z")]), HTML);
    e.product("lots", &[&often(&seq, LOTS), &[cat(&[good[0].clone(), t("z")])]], EV);
    e.product("html sizes", &[&ws, &hs, &hri, &opt(fonts.clone()), &justs(), &good, &[t("z")]], HTML);
}

pub fn c12(e: &mut Explorer) {
    let areas = [area(0, 0, 200, 100), area(40, 30, 120, 180), area(300, 0, 609, 60), area(0, 0, 0, 0), area(10, 200, 90, 40)];
    let dirs = [dir(0), dir(1), dir(2), dir(3)];
    let content = [t("Ab\ncd"), bit_n(33, 12), bar_nul(4, b"A"), raster_n(0, 2, 3)];
    let ends = [vec![FF], page_print(), cat(&[page_print(), vec![FF]]), cat(&[std_mode(), t("s")]), cat(&[page_print(), std_mode()])];
    // page operations in every order
    let ops = join(&[&areas[..3].to_vec(), &dirs, &content[..2].to_vec(), &[page(), page_print(), vec![FF], std_mode(), posx(30), posy(25), lf()]]);
    e.sequences("histories", &ops, e.pick(4, 5), &page(), &cat(&[t("x"), vec![FF], t("after"), lf()]), EV);
    e.reach("reached pages", &ops, 30, e.pick(4_000_000, 30_000_000), &[], &cat(&[t("x"), vec![FF], t("after"), lf()]), EV);
    let small = [area(0, 0, 60, 40), area(20, 10, 40, 50), dir(0), dir(1), dir(2), dir(3), t("x"), raster_n(0, 1, 2), page_print(), vec![FF], page(), std_mode()];
    e.reach("reached pages painted", &small, 30, e.pick(300_000, 3_000_000), &page(), &cat(&[t("y"), vec![FF], t("z")]), IMG);
    e.reach("reached pages written", &small, 30, e.pick(300_000, 3_000_000), &page(), &cat(&[t("y"), vec![FF], t("z")]), HTML);
    e.sequences("histories from standard mode", &ops, e.pick(3, 4), &t("std"), &cat(&[t("x"), vec![FF], t("after"), lf()]), EV);
    e.sequences("painted histories", &ops, e.pick(3, 4), &cat(&[page(), area(0, 0, 150, 80)]), &cat(&[t("x"), page_print(), t("y"), vec![FF], t("after")]), IMG);
    // everything on a page
    let all = everything();
    e.product("everything on a page", &[&[page()], &areas, &dirs, &all, &all, &[cat(&[t("x"), vec![FF], t("y")])]], EV);
    super::style::apart(e, &ops, &[cat(&[page(), area(40, 30, 120, 180)]), cat(&[page(), area(0, 0, 90, 70), dir(1), t("pg")]), area(10, 20, 200, 40), dir(2), dir(3), page_print(), vec![FF], std_mode()], &cat(&[t("x y"), posx(9), t("z"), vec![FF], t("after"), lf()]));
    let fine: Vec<B> = areas.iter().flat_map(|a| dirs.iter().map(move |d| cat(&[a.clone(), d.clone()]))).collect();
    let rev: Vec<B> = areas.iter().flat_map(|a| dirs.iter().map(move |d| cat(&[d.clone(), a.clone()]))).collect();
    let both = join(&[&fine, &rev]);
    e.product("areas and directions", &[&[page()], &both, &content, &both, &content, &ends, &[t("z")]], EV);
    e.product("painted areas", &[&[page()], &both, &content[..3].to_vec(), &both.iter().step_by(e.pick(3, 1)).cloned().collect::<Vec<_>>(), &content[..1].to_vec(), &ends[..3].to_vec(), &[t("z")]], IMG);
    e.sequences("html histories", &ops, e.pick(3, 4), &cat(&[page(), area(0, 0, 150, 80)]), &cat(&[t("x"), page_print(), t("y"), vec![FF], t("after")]), HTML);
    e.product("html pages", &[&[page()], &both, &content, &opt(fine.iter().step_by(5).cloned().collect()), &ends, &[t("z")]], HTML);
    // positions in areas and beyond them, after another area
    let to = super::robust::posts();
    let shifts: Vec<B> = both.iter().chain(&[cat(&[area(500, 300, 60, 60), dir(2)]), cat(&[area(7, 400, 609, 9), dir(1)])]).cloned().collect();
    e.product("positions after another area", &[&[page()], &shifts, &[vec![], t("lo")], &shifts, &to, &[t("Ab c\nd"), raster_n(0, 2, 3)], &[cat(&[vec![FF], t("z")])]], EV);
    e.product("positions in turn", &[&[page()], &both, &to, &[t("a")], &both.iter().step_by(e.pick(7, 2)).cloned().collect::<Vec<_>>(), &to, &[cat(&[t("Ab c"), vec![FF], t("z")])]], EV);
    // area values
    let vals = [0u16, 1, 5, 100, 300, 608, 609, 610, 2000];
    let v = vals.len() as u64;
    e.streams("area values", v.pow(4) * 4, EV, |i| {
        let g = |k: u32| vals[(i / v.pow(k) % v) as usize];
        cat(&[page(), area(g(0), g(1), g(2), g(3)), dir((i / v.pow(4)) as u8), t("ab cd"), posy(10), posx(20), t("e"), page_print(), t("f"), vec![FF], t("g")])
    });
    let edge = [0u16, 1, 609, 32767, 32768, 65534, 65535];
    let g = edge.len() as u64;
    e.streams("largest areas", g.pow(4) * 4, EV, |i| {
        let a = |k: u32| edge[(i / g.pow(k) % g) as usize];
        cat(&[page(), area(a(0), a(1), a(2), a(3)), dir((i / g.pow(4)) as u8), t("ab"), posy(a(1)), posx(a(0)), t("e"), lf(), t("g"), vec![FF], t("h")])
    });
    let small = [0u16, 1, 5, 60, 140];
    let s = small.len() as u64;
    e.streams("painted area values", s.pow(4) * 4, IMG, |i| {
        let g = |k: u32| small[(i / s.pow(k) % s) as usize];
        cat(&[page(), area(g(0), g(1), g(2), g(3)), dir((i / s.pow(4)) as u8), t("ab c"), posy(10), posx(20), bit_n(0, 7), page_print(), t("f"), vec![FF], t("g")])
    });
    // every direction value, area truncated or repeated
    let ev: Vec<B> = every(&[0x1B, b'T']);
    e.product("every direction", &[&[page(), t("std")], &opt(areas.to_vec()), &ev, &opt(ev.iter().step_by(50).cloned().collect()), &content[..1].to_vec(), &ends], EV);
    // standard mode is not affected
    let std_prefix = join(&[&moves(), &styles()[..12].to_vec(), &prints()]);
    e.product("back to standard", &[&std_prefix, &[page()], &both, &[t("pg"), posx(33), posy(44)], &[vec![FF], cat(&[page_print(), std_mode()]), std_mode()], &[cat(&[t("s t"), posx(50), t("u"), lf(), t("v")])]], EV);
    // movements in pages
    let mv = join(&[&moves(), &[t("ab"), esc(b'3', &[40]), esc(b'a', &[1]), esc(b'a', &[2])]]);
    e.product("movements", &[&[cat(&[page(), area(20, 30, 180, 120)])], &dirs, &mv, &mv, &[t("x y")], &mv, &[cat(&[t("z"), vec![FF]])]], EV);
    e.product("motion units", &[&[vec![], gs(b'P', &[100, 50]), gs(b'P', &[67, 101])], &[page()], &both, &[cat(&[posx(40), posy(30), t("x"), rely(10), t("y"), vec![FF], posx(60), t("s")])]], EV);
    // many pages, many areas of a page
    let lots = often(&[cat(&[page(), area(5, 5, 60, 30), t("a"), vec![FF]]), cat(&[area(5, 5, 60, 30), dir(1), t("b")]), cat(&[dir(3), t("c"), page_print()]), cat(&[t("d"), lf()]), cat(&[area(0, 0, 20, 90), dir(2), bit_n(0, 3)])], MANY);
    e.product("many", &[&[page()], &lots, &[cat(&[t("z"), vec![FF], t("y")])]], EV);
    let lots = often(&[cat(&[page(), area(5, 5, 60, 30), t("a"), vec![FF]]), cat(&[page(), area(0, 0, 90, 65535), t("a"), posy(9000), t("b"), vec![FF]]), cat(&[area(5, 5, 60, 30), dir(1), t("b")]), cat(&[dir(3), t("c"), page_print()]), cat(&[t("d"), lf()]), cat(&[area(0, 0, 20, 90), dir(2), bit_n(0, 3)])], LOTS);
    e.product("lots", &[&[page()], &lots, &[cat(&[t("z"), vec![FF], t("y")])]], EV);
    // two pages in one job, pages in two documents
    let one = |a: &B, d: &B| cat(&[page(), a.clone(), d.clone(), t("pq")]);
    let pgs: Vec<B> = areas.iter().flat_map(|a| dirs.iter().map(move |d| one(a, d))).collect();
    e.product("two pages", &[&pgs, &ends, &opt(vec![vec![FF], lf(), t("mid")]), &pgs, &ends, &[t("z")]], EV);
    e.product("two pages painted", &[&pgs, &ends[..2].to_vec(), &opt(vec![vec![FF]]), &pgs, &[vec![FF]]], IMG);
    e.product("upside down and inverted", &[&[page()], &areas[..2].to_vec(), &dirs, &[esc(b'{', &[1]), gs(b'B', &[1]), cat(&[esc(b'-', &[2]), esc(b'G', &[1])]), gs(b'!', &[0x22])], &content, &content, &[vec![FF]]], IMG);
}

/// The canvas as a job uses it, the rest of C13 calls it directly
pub fn c13(e: &mut Explorer) {
    // images as a job makes them, on paper and pages
    let mut pics = vec![];
    for w in [1u16, 7, 8, 9, 17] {
        for h in [1u16, 2, 9] {
            for (bx, by) in [(1, 1), (2, 1), (1, 2), (2, 2)] {
                pics.push(cat(&[buffer(112, bx, by, 49, w, h, &pattern((w as usize).div_ceil(8) * h as usize, 3)), buffer_print()]));
            }
        }
    }
    let places = [vec![], posx(3), posx(500), posx(570), cat(&[t("Ag"), posx(4)]), cat(&[esc(b'{', &[1])]), cat(&[esc(b'a', &[1])]), cat(&[esc(b'a', &[2]), esc(b'{', &[1])])];
    let pages = [vec![], cat(&[page(), area(0, 0, 40, 30)]), cat(&[page(), area(10, 5, 30, 40), dir(1)]), cat(&[page(), area(2, 3, 50, 20), dir(2)]), cat(&[page(), area(0, 0, 35, 45), dir(3)])];
    let ends = [t("x"), vec![FF], cat(&[t("Q"), vec![FF], t("r")])];
    e.product("jobs", &[&pages, &places, &pics, &ends], FULL);
    // frames of pages and everything else, one over the other
    let over: Vec<B> = vec![
        t("Ag|_"),
        cat(&[gs(b'B', &[1]), t("W")]),
        cat(&[gs(b'!', &[0x21]), t("k")]),
        cat(&[esc(b'-', &[2]), t("u ")]),
        bit_n(33, 12),
        raster_n(0, 3, 7),
        raster_n(3, 1, 4),
        cat(&[buffer_n(112, 2, 1, 50, 11, 9), buffer_print()]),
        cat(&[buffer_n(113, 1, 2, 49, 9, 10), buffer_print()]),
        bar_nul(4, b"A"),
        cat(&[qr_store(b"1"), qr_print()]),
        posx(4),
        posx(33),
        posy(3),
        rely(-5),
        lf(),
        cat(&[page(), area(6, 3, 44, 37), dir(1)]),
        cat(&[area(0, 9, 51, 30), dir(2)]),
        cat(&[area(12, 0, 20, 70), dir(3)]),
        page_print(),
        esc(b'r', &[1]),
        esc(b'{', &[1]),
    ];
    e.product("lots", &[&often(&over, &[300, 1100])], FULL);
    let all = everything();
    e.product("around everything", &[&over, &all, &over, &[t("e")]], IMG);
    e.product("after everything", &[&all, &all, &over.iter().step_by(e.pick(6, 1)).cloned().collect::<Vec<_>>(), &[t("e"), vec![FF]]], IMG);
    e.sequences("one over the other", &over, 3, &[], &t("e"), IMG);
    e.sequences("one over the other on a page", &over, e.pick(3, 4), &cat(&[page(), area(4, 2, 61, 47), dir(0)]), &cat(&[t("e"), vec![FF], t("f")]), IMG);
    e.sequences("one over the other on a turned page", &over, e.pick(2, 3), &cat(&[page(), area(4, 2, 61, 47), dir(3)]), &cat(&[t("e"), vec![FF], t("f")]), FULL);
}
