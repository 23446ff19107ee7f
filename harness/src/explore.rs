//! Exhaustive enumeration of bounded spaces on all cores, with watchdogs.
use crate::check;
use crate::sut::Level;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, Ordering::*};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

const THREADS: usize = 8;
const MEMORY: isize = 3 << 30;
/// seconds of processor time of one case, and of the clock
const HANG: f64 = 90.0;
const STUCK: f64 = 600.0;

// ------------------------------------------------------------ memory bound
pub struct Bounded;
thread_local! {
    static USED: Cell<isize> = const { Cell::new(0) };
    static FREE: Cell<bool> = const { Cell::new(false) };
}
unsafe impl GlobalAlloc for Bounded {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let over = USED.try_with(|u| {
            u.set(u.get() + l.size() as isize);
            u.get() > MEMORY
        });
        if over == Ok(true) && FREE.try_with(|f| !f.replace(true)) == Ok(true) {
            alarm("memory: more than 3 GiB in use by one case");
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = USED.try_with(|u| u.set(u.get() - l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let over = USED.try_with(|u| {
            u.set(u.get() + n as isize - l.size() as isize);
            u.get() > MEMORY
        });
        if over == Ok(true) && FREE.try_with(|f| !f.replace(true)) == Ok(true) {
            alarm("memory: more than 3 GiB in use by one case");
        }
        System.realloc(p, l, n)
    }
}

// ------------------------------------------------------------ current cases
struct Slot {
    since: AtomicU64,
    index: AtomicU64,
    active: AtomicBool,
    /// the clock of the thread's processor time
    clock: AtomicI32,
}
fn slots() -> &'static Vec<Slot> {
    static S: OnceLock<Vec<Slot>> = OnceLock::new();
    S.get_or_init(|| {
        (0..THREADS)
            .map(|_| Slot { since: AtomicU64::new(0), index: AtomicU64::new(0), active: AtomicBool::new(false), clock: AtomicI32::new(-1) })
            .collect()
    })
}
thread_local! {
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
fn epoch() -> Instant {
    static E: OnceLock<Instant> = OnceLock::new();
    *E.get_or_init(Instant::now)
}
struct Where {
    property: String,
    tier: String,
    space: String,
}
static WHERE: Mutex<Option<Where>> = Mutex::new(None);

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn open(path: *const std::ffi::c_char, flags: i32, ...) -> i32;
    fn write(fd: i32, p: *const std::ffi::c_void, n: usize) -> isize;
    fn _exit(code: i32) -> !;
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(thread: usize, clock: *mut i32) -> i32;
    fn clock_gettime(clock: i32, time: *mut [i64; 2]) -> i32;
}
fn own_clock() -> i32 {
    let mut c = -1;
    if unsafe { pthread_getcpuclockid(pthread_self(), &mut c) } == 0 { c } else { -1 }
}
/// processor time of a thread; what other programs do takes none of it
fn time(clock: i32) -> f64 {
    let mut t = [0i64; 2];
    if clock != -1 && unsafe { clock_gettime(clock, &mut t) } == 0 {
        t[0] as f64 + t[1] as f64 / 1e9
    } else {
        epoch().elapsed().as_secs_f64()
    }
}
static OUT: AtomicU64 = AtomicU64::new(1);

/// What the system under test prints is not ours
pub fn silence() {
    unsafe {
        let _ = std::io::stdout().flush();
        OUT.store(dup(1) as u64, SeqCst);
        let null = open(c"/dev/null".as_ptr(), 1);
        dup2(null, 1);
    }
}
pub fn say(line: &str) {
    let s = format!("{line}\n");
    unsafe {
        write(OUT.load(SeqCst) as i32, s.as_ptr().cast(), s.len());
    }
}

/// A case that can't be finished: report it and end the process
fn alarm(what: &str) -> ! {
    let index = SLOT.try_with(|s| s.get()).ok().and_then(|s| slots().get(s)).map_or(u64::MAX, |s| s.index.load(SeqCst));
    report_fatal(index, what)
}
fn report_fatal(index: u64, what: &str) -> ! {
    let w = WHERE.lock().unwrap_or_else(|e| e.into_inner());
    if let Some(w) = &*w {
        let path = save(&w.property, &w.tier, &w.space, index, what, None);
        say(&format!("  {} case {index}: {what}", w.space));
        say(&format!("VIOLATION property={} replay={path}", w.property));
    }
    unsafe { _exit(1) }
}

fn save(property: &str, tier: &str, space: &str, index: u64, what: &str, bytes: Option<&[u8]>) -> String {
    let dir = format!("{}/../replays", env!("CARGO_MANIFEST_DIR"));
    let _ = std::fs::create_dir_all(&dir);
    let dir = std::fs::canonicalize(&dir).map_or(dir, |d| d.display().to_string());
    let path = format!("{dir}/{property}.txt");
    let hex = bytes.map(|b| b.iter().map(|b| format!("{b:02x}")).collect::<String>()).unwrap_or_default();
    let _ = std::fs::write(
        &path,
        format!("property {property}\ntier {tier}\nspace {space}\nindex {index}\nbytes {hex}\nwhat {what}\nreplay with: /verif/check replay {path}\n"),
    );
    path
}

pub fn install() {
    epoch();
    std::panic::set_hook(Box::new(|info| {
        let at = info.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
        let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| info.payload().downcast_ref::<String>().cloned());
        let text = format!("panic at {at}: {}", msg.unwrap_or_default());
        if SLOT.try_with(|s| s.get()) == Ok(usize::MAX) {
            say(&text);
        }
        PANIC.with(|p| *p.borrow_mut() = text);
    }));
    std::thread::spawn(|| {
        let mut begun = vec![(u64::MAX, u64::MAX, 0.0, 0.0); THREADS];
        loop {
            std::thread::sleep(Duration::from_secs(2));
            let now = epoch().elapsed().as_secs_f64();
            for (s, b) in slots().iter().zip(&mut begun) {
                let (index, since) = (s.index.load(SeqCst), s.since.load(SeqCst));
                let used = time(s.clock.load(SeqCst));
                if !s.active.load(SeqCst) || (b.0, b.1) != (index, since) {
                    *b = (index, since, used, now);
                } else if used - b.2 > HANG || now - b.3 > STUCK {
                    report_fatal(index, "the case does not end");
                }
            }
        }
    });
}

/// Runs something of the implementation, a panic is an error
pub fn guarded<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => Err(PANIC.with(|p| p.borrow().clone())),
    }
}

// ------------------------------------------------------------ exploration
#[derive(Default)]
pub struct Local {
    pub states: HashSet<u64>,
    pub transitions: u64,
    pub runs: u64,
}
impl Local {
    pub fn seen(&mut self, s: check::Seen) {
        self.runs += 1;
        self.transitions += s.steps;
        if self.states.len() < 3_000_000 {
            self.states.insert(s.state);
            self.states.extend(s.trail);
        }
    }
    /// a state of something that is not the printer model
    pub fn state(&mut self, s: impl std::hash::Hash) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        s.hash(&mut h);
        if self.states.len() < 3_000_000 {
            self.states.insert(std::hash::Hasher::finish(&h));
        }
    }
}

pub struct Failure {
    pub space: String,
    pub index: u64,
    pub what: String,
    pub bytes: Option<Vec<u8>>,
}

pub struct Explorer {
    pub property: String,
    pub tier: Tier,
    pub only: Option<(String, u64)>,
    pub started: Instant,
    pub states: HashSet<u64>,
    pub transitions: u64,
    pub runs: u64,
    pub spaces: Vec<(String, u64, f64)>,
    pub samples: Vec<String>,
    pub assumptions: Vec<String>,
    pub failure: Option<Failure>,
}

pub fn hex(b: &[u8]) -> String {
    let mut s: String = b.iter().take(200).map(|b| format!("{b:02x}")).collect();
    if b.len() > 200 {
        s.push_str("..");
    }
    s
}

impl Explorer {
    pub fn new(property: &str, tier: Tier) -> Explorer {
        Explorer {
            property: property.to_string(),
            tier,
            only: None,
            started: Instant::now(),
            states: HashSet::new(),
            transitions: 0,
            runs: 0,
            spaces: vec![],
            samples: vec![],
            assumptions: vec![],
            failure: None,
        }
    }

    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() { thorough } else { quick }
    }
    /// whether a space of this name is explored
    pub fn wants(&self, name: &str) -> bool {
        !self.failed() && std::env::var("MC_SPACE").map_or(true, |s| s.split(',').any(|s| s == name)) && self.only.as_ref().is_none_or(|o| o.0 == name)
    }
    pub fn failed(&self) -> bool {
        self.failure.is_some()
    }

    /// Every index below `total` is a case. The least failing one is kept.
    pub fn cases<F>(&mut self, name: &str, total: u64, describe: impl Fn(u64) -> Option<Vec<u8>>, f: F)
    where
        F: Fn(u64, &mut Local) -> Result<(), String> + Sync,
    {
        if self.failed() || std::env::var("MC_SPACE").is_ok_and(|s| !s.split(',').any(|s| s == name)) {
            return;
        }
        let mut range = 0..total;
        if let Some((space, index)) = &self.only {
            if space != name {
                return;
            }
            range = *index..(*index + 1).min(total);
        }
        let t0 = Instant::now();
        *WHERE.lock().unwrap() =
            Some(Where { property: self.property.clone(), tier: format!("{:?}", self.tier), space: name.to_string() });
        let next = AtomicU64::new(range.start);
        let end = range.end;
        let worst = AtomicU64::new(u64::MAX);
        let failures: Mutex<Vec<(u64, String)>> = Mutex::new(vec![]);
        let chunk = ((range.end - range.start) / (THREADS as u64 * 64)).clamp(1, 512);
        let locals: Vec<Local> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..THREADS)
                .map(|t| {
                    let (next, worst, failures, f) = (&next, &worst, &failures, &f);
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(sc, move || {
                            SLOT.with(|s| s.set(t));
                            let slot = &slots()[t];
                            slot.clock.store(own_clock(), SeqCst);
                            let mut local = Local::default();
                            loop {
                                let a = next.fetch_add(chunk, SeqCst);
                                if a >= end {
                                    break;
                                }
                                for i in a..(a + chunk).min(end) {
                                    if i > worst.load(SeqCst) {
                                        continue;
                                    }
                                    slot.index.store(i, SeqCst);
                                    slot.since.store(epoch().elapsed().as_secs(), SeqCst);
                                    slot.active.store(true, SeqCst);
                                    let base = USED.with(|u| u.replace(0));
                                    let r = guarded(|| f(i, &mut local));
                                    USED.with(|u| u.set(base.min(1 << 28)));
                                    slot.active.store(false, SeqCst);
                                    if let Err(e) = r {
                                        worst.fetch_min(i, SeqCst);
                                        failures.lock().unwrap().push((i, e));
                                    }
                                }
                            }
                            local
                        })
                        .unwrap()
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for l in locals {
            self.states.extend(l.states);
            self.transitions += l.transitions;
            self.runs += l.runs;
        }
        self.spaces.push((name.to_string(), end - range.start, t0.elapsed().as_secs_f64()));
        if std::env::var("MC_PROGRESS").is_ok() {
            eprintln!("    {name}: {} cases, {:.1} s", end - range.start, t0.elapsed().as_secs_f64());
        }
        if let Some(b) = (end > 0).then(|| describe((end - 1) * 2 / 3)).flatten() {
            if self.samples.len() < 12 {
                self.samples.push(format!("{name}: {}", hex(&b)));
            }
        }
        let mut fs = failures.into_inner().unwrap();
        fs.sort();
        if let Some((i, what)) = fs.into_iter().next() {
            self.failure = Some(Failure { space: name.to_string(), index: i, what, bytes: describe(i) });
        }
    }

    /// Streams of bytes that are compared with the printer model
    pub fn streams<G>(&mut self, name: &str, total: u64, level: Level, g: G)
    where
        G: Fn(u64) -> Vec<u8> + Sync,
    {
        self.cases(name, total, |i| Some(g(i)), |i, l| {
            let b = g(i);
            l.seen(check::case(&b, level)?);
            Ok(())
        });
        if let Some(f) = &mut self.failure {
            if f.space == name {
                if let Some(b) = f.bytes.clone() {
                    f.bytes = Some(shrink(b, level));
                }
            }
        }
    }

    /// All sequences of up to `depth` items
    pub fn sequences(&mut self, name: &str, items: &[Vec<u8>], depth: u32, prefix: &[u8], suffix: &[u8], level: Level) {
        let n = items.len() as u64;
        let mut total = 0u64;
        for d in 0..=depth {
            total += n.pow(d);
        }
        self.streams(name, total, level, |i| {
            let mut b = prefix.to_vec();
            for k in sequence(i, n, depth) {
                b.extend(&items[k]);
            }
            b.extend(suffix);
            b
        });
    }

    /// Breadth first: every command in every state of the model that is
    /// reached with less than `depth` commands. States are reached on a
    /// shortest way; a level that would go beyond `most` edges is left out.
    pub fn reach(&mut self, name: &str, ops: &[Vec<u8>], depth: u32, most: usize, prefix: &[u8], suffix: &[u8], level: Level) {
        if self.failed() || !self.wants(name) {
            return;
        }
        let bytes = |path: &[u8]| {
            let mut b = prefix.to_vec();
            path.iter().for_each(|k| b.extend(&ops[*k as usize]));
            b
        };
        let mut known: HashSet<u64> = [crate::spec::machine::state_after(prefix)].into();
        let mut frontier: Vec<Vec<u8>> = vec![vec![]];
        let mut edges: Vec<Vec<u8>> = vec![];
        let mut levels = 0;
        while levels < depth && !frontier.is_empty() && edges.len() + frontier.len() * ops.len() <= most {
            let next: Vec<Vec<u8>> = frontier.iter().flat_map(|p| (0..ops.len()).map(move |k| [&p[..], &[k as u8]].concat())).collect();
            let part = next.len() / THREADS + 1;
            let states: Vec<u64> = std::thread::scope(|sc| {
                let hs: Vec<_> = next.chunks(part).map(|c| sc.spawn(|| c.iter().map(|p| crate::spec::machine::state_after(&bytes(p))).collect::<Vec<_>>())).collect();
                hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
            });
            frontier = next.iter().zip(states).filter(|(_, s)| known.insert(*s)).map(|(p, _)| p.clone()).collect();
            edges.extend(next);
            levels += 1;
        }
        let end = if frontier.is_empty() { "all states".to_string() } else { format!("depth {levels}") };
        self.samples.push(format!("{name}: {} states, {} edges, {end}", known.len(), edges.len()));
        self.streams(name, edges.len() as u64, level, |i| [&bytes(&edges[i as usize])[..], suffix].concat());
    }

    /// One item of each slot in turn, all combinations
    pub fn product(&mut self, name: &str, slots: &[&[Vec<u8>]], level: Level) {
        let total = slots.iter().map(|s| s.len() as u64).product();
        self.streams(name, total, level, |i| pick(slots, i));
    }

    pub fn finish(self) -> i32 {
        let wall = self.started.elapsed().as_secs_f64();
        let tier = if self.thorough() { "Thorough" } else { "Quick" };
        let mut violations = 0;
        if let Some(f) = &self.failure {
            violations = 1;
            let path = save(&self.property, tier, &f.space, f.index, &f.what, f.bytes.as_deref());
            say(&format!("  {} case {}: {}", f.space, f.index, f.what.chars().take(3000).collect::<String>()));
            if let Some(b) = &f.bytes {
                say(&format!("  bytes: {}", hex(b)));
            }
            say(&format!("VIOLATION property={} replay={path}", self.property));
        }
        let q = |s: &str| {
            let mut o = String::from("\"");
            for c in s.chars() {
                match c {
                    '"' => o.push_str("\\\""),
                    '\\' => o.push_str("\\\\"),
                    c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
                    c => o.push(c),
                }
            }
            o.push('"');
            o
        };
        let list = |v: &[String]| v.iter().map(|s| q(s)).collect::<Vec<_>>().join(", ");
        let spaces: Vec<String> = self
            .spaces
            .iter()
            .map(|(n, t, s)| format!("{{\"space\": {}, \"cases\": {t}, \"wall_s\": {s:.2}}}", q(n)))
            .collect();
        let exhaustive = violations == 0 && self.only.is_none();
        let mut assumptions = self.assumptions.clone();
        if cfg!(not(feature = "inner")) {
            assumptions.push("built without the spaces that reach into the crates directly: what they call is not there as they know it".into());
        }
        if self.only.is_none() {
            let json = format!(
                "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"model_checking\", \"coverage\": {{\"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}, \"exhaustive\": {exhaustive}, \"spaces\": [{}], \"samples\": [{}]}}, \"assumptions\": [{}], \"wall_s\": {wall:.2}, \"violations\": {violations}}}\n",
                q(&self.property),
                q(if self.thorough() { "thorough" } else { "quick" }),
                std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1),
                self.states.len(),
                self.transitions,
                self.runs,
                spaces.join(", "),
                list(&self.samples),
                list(&assumptions),
            );
            let dir = format!("{}/../evidence", env!("CARGO_MANIFEST_DIR"));
            let _ = std::fs::create_dir_all(&dir);
            if std::fs::write(format!("{dir}/{}.json", self.property), json).is_err() {
                say("the evidence can't be written");
                return 2;
            }
        }
        say(&format!(
            "{} {}: {} runs of the implementation, {} model states, {} transitions, {:.1} s{}",
            self.property,
            tier.to_lowercase(),
            self.runs,
            self.states.len(),
            self.transitions,
            wall,
            if violations == 0 { ", held" } else { "" }
        ));
        violations
    }
}

/// The i-th sequence: shorter ones first
pub fn sequence(mut i: u64, n: u64, depth: u32) -> Vec<usize> {
    let mut len = 0;
    for d in 0..=depth {
        let c = n.pow(d);
        if i < c {
            len = d;
            break;
        }
        i -= c;
    }
    let mut v = vec![0; len as usize];
    for k in v.iter_mut().rev() {
        *k = (i % n) as usize;
        i /= n;
    }
    v
}

pub fn pick(slots: &[&[Vec<u8>]], mut i: u64) -> Vec<u8> {
    let mut parts = vec![];
    for s in slots.iter().rev() {
        parts.push(&s[(i % s.len() as u64) as usize]);
        i /= s.len() as u64;
    }
    parts.into_iter().rev().flatten().copied().collect()
}

/// Leaves out commands as long as the case still fails
pub fn shrink(bytes: Vec<u8>, level: Level) -> Vec<u8> {
    let t0 = Instant::now();
    let mut b = bytes;
    let fails = |b: &[u8]| guarded(|| check::case(b, level).map(|_| ())).is_err();
    if !fails(&b) {
        return b;
    }
    loop {
        let fr = crate::spec::frame::frames(&b);
        let mut smaller = None;
        for f in &fr {
            let mut c = b[..f.start].to_vec();
            c.extend(&b[f.end..]);
            if c.len() < b.len() && fails(&c) {
                smaller = Some(c);
                break;
            }
        }
        match smaller {
            Some(c) if t0.elapsed().as_secs() < 10 => b = c,
            _ => return b,
        }
    }
}
