//! One case: the model and the implementation run the same bytes.
use crate::compare;
use crate::spec::machine::{self, Rgb, PAPER_W};
use crate::spec::{html, paint};
use crate::sut::{self, Level};

pub struct Seen {
    pub state: u64,
    pub steps: u64,
    pub trail: Vec<u64>,
}

fn colors(px: &[Rgb], want: &[Rgb], w: u32, what: &str) -> Result<(), String> {
    for (i, (g, e)) in px.iter().zip(want).enumerate() {
        if g != e && !compare::close(&[*g], &[*e]) {
            return Err(format!("{what}: pixel {},{} is {g:?} instead of {e:?}", i as u32 % w.max(1), i as u32 / w.max(1)));
        }
    }
    Ok(())
}

pub fn case(bytes: &[u8], level: Level) -> Result<Seen, String> {
    let want = machine::run(bytes);
    let got = sut::run(bytes, level);
    if want.faults != got.faults {
        return Err(format!("errors: expected {:?} but got {:?} ({:?})", want.faults, got.faults, got.errors));
    }
    let events: Vec<_> = got.docs.iter().flat_map(|d| d.events.iter().cloned()).collect();
    compare::events(&want.events, &events)?;
    if (level.image || level.html) && !level.debug {
        pixels(&want.events, &got, level)?;
    }
    Ok(Seen { state: want.state, steps: want.steps, trail: want.trail })
}

pub fn pixels(want: &[machine::Ev], got: &sut::Job, level: Level) -> Result<(), String> {
    let painted = paint::paint(want);
    // nothing can be said about where an empty image lies, nor whether the paper reaches there
    let empty = |e: &machine::Ev| matches!(e, machine::Ev::Image { pic, .. } if pic.w == 0 || pic.h == 0);
    let empty = got.docs.iter().any(|d| d.events.iter().any(empty));
    if painted.docs.len() != got.docs.len() {
        return Err(format!("{} documents instead of {}", got.docs.len(), painted.docs.len()));
    }
    for (i, (w, g)) in painted.docs.iter().zip(&got.docs).enumerate() {
        if let Some(p) = &g.paper {
            let what = format!("document {i}");
            let reference = if level.full || cfg!(not(feature = "inner")) {
                let mut c = w.paper.with_margin(PAPER_W, w.end);
                if empty && p.h > c.h {
                    c.grow_down(p.h, crate::spec::machine::PAPER);
                }
                c
            } else {
                let mut c = w.paper.clone();
                c.grow_down(p.h, crate::spec::machine::PAPER);
                c
            };
            if let Some((iw, ih, n)) = g.image_size {
                if n != iw as usize * ih as usize * 3 {
                    return Err(format!("{what}: {iw}x{ih} with {n} bytes"));
                }
            }
            if (p.w, p.h) != (reference.w, reference.h) {
                return Err(format!("{what}: size {}x{} instead of {}x{}", p.w, p.h, reference.w, reference.h));
            }
            if p.px.len() != reference.px.len() {
                return Err(format!("{what}: {} pixels for {}x{}", p.px.len(), p.w, p.h));
            }
            colors(&p.px, &reference.px, p.w, &what)?;
        }
    }
    if level.image && !empty && painted.oob != (got.child_errors > 0) {
        return Err(format!("{} errors about content outside of the paper, expected any: {}", got.child_errors, painted.oob));
    }
    if level.html {
        let pages = html::expected(want, &painted.docs);
        for (i, (w, g)) in pages.iter().zip(&got.docs).enumerate() {
            let doc = g.html.as_ref().unwrap();
            let page = html::parse(doc).map_err(|e| format!("html document {i}: {e}"))?;
            html::same(w, &page).map_err(|e| format!("html document {i}: {e}"))?;
        }
    }
    Ok(())
}
