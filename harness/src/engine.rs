//! Choice-sequence property testing: generation, shrinking, replay, worker processes, evidence.

use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

// ------------------------------------------------------------------ choices

pub struct Src {
    rng: Option<u64>,
    fixed: Vec<u64>,
    pos: usize,
    pub rec: Vec<u64>,
    tee: Option<std::fs::File>,
    /// A large case.
    pub heavy: bool,
}

/// After this many choices the simplest one is always taken, so every generator ends.
const MAX_CHOICES: usize = 60_000;

/// A fixed choice that is left to the generator of random numbers.
const ANY: u64 = u64::MAX;

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

impl Src {
    pub fn random(seed: u64, prop: &str, index: u64) -> Src {
        let mut s = seed.wrapping_mul(0x9E3779B97F4A7C15) ^ hash_str(prop);
        let a = splitmix(&mut s);
        let mut s = a ^ index.wrapping_mul(0xD1342543DE82EF95);
        let b = splitmix(&mut s);
        Src { rng: Some(b), fixed: vec![], pos: 0, rec: vec![], tee: None, heavy: false }
    }

    /// Takes the fixed choices first, random ones where they say so and behind them.
    pub fn guided(choices: Vec<u64>, rng: u64) -> Src {
        Src { rng: Some(rng), fixed: choices, pos: 0, rec: vec![], tee: None, heavy: false }
    }

    pub fn replay(choices: Vec<u64>) -> Src {
        Src { rng: None, fixed: choices, pos: 0, rec: vec![], tee: None, heavy: false }
    }

    /// A choice in `0..n`, where 0 is the simplest.
    pub fn draw(&mut self, n: u64) -> u64 {
        if n <= 1 { return 0; }
        let v = if self.rec.len() >= MAX_CHOICES {
            0
        } else if self.pos < self.fixed.len() && self.fixed[self.pos] != ANY {
            let v = self.fixed[self.pos];
            if v >= n { n - 1 } else { v }
        } else if let Some(ref mut r) = self.rng {
            let x = splitmix(r);
            ((x as u128 * n as u128) >> 64) as u64
        } else {
            0
        };
        self.pos += 1;
        self.rec.push(v);
        if let Some(ref mut f) = self.tee { let _ = write!(f, "{} ", v); }
        v
    }

    pub fn below(&mut self, n: usize) -> usize { self.draw(n as u64) as usize }

    /// Inclusive range, `lo` is the simplest.
    pub fn int(&mut self, lo: usize, hi: usize) -> usize { lo + self.below(hi - lo + 1) }

    /// True with probability p/q, false is simplest.
    pub fn chance(&mut self, p: u64, q: u64) -> bool { self.draw(q) >= q - p }

    pub fn bool(&mut self) -> bool { self.draw(2) == 1 }

    /// An index with the given weights, earlier is simpler.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|&x| x as u64).sum();
        let mut v = self.draw(total);
        for (i, &x) in w.iter().enumerate() {
            if v < x as u64 { return i; }
            v -= x as u64;
        }
        w.len() - 1
    }

    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { &xs[self.below(xs.len())] }

    /// Up to `max`, all orders of magnitude alike.
    pub fn magnitude(&mut self, max: usize) -> usize {
        let n = match self.known_size(5, max) {
            Some(n) => n,
            None => {
                let bits = (usize::BITS - max.leading_zeros()) as usize;
                let b = self.int(0, bits);
                self.below(1 << b).min(max)
            }
        };
        if n >= 200 { self.heavy = true; }
        n
    }

    /// A length, short ones more likely.
    pub fn len(&mut self, max: usize) -> usize {
        let mut n = 0;
        while n < max && self.chance(2, 3) { n += 1; }
        n
    }
}

/// Many choices from one: what large cases are made of.
pub struct Cheap(u64);

impl Cheap {
    pub fn new(src: &mut Src) -> Cheap { Cheap(src.draw(1 << 16)) }

    pub fn below(&mut self, n: usize) -> usize {
        if self.0 == 0 || n == 0 { return 0; }
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        ((self.0 >> 33) % n as u64) as usize
    }

    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { &xs[self.below(xs.len())] }
}

/// Now and then a long run of characters.
pub fn stretch(s: &mut String, src: &mut Src, one_of: u64, max: usize) -> bool {
    if !src.chance(1, one_of) { return false; }
    let n = src.magnitude(max);
    let set = *src.pick(&[&['a'][..], &['a', 'b', ' '], &['é', 'x'], &['日', '\u{1F600}', '1']]);
    let mut c = Cheap::new(src);
    let mut at = src.below(s.len() + 1);
    while !s.is_char_boundary(at) { at -= 1; }
    let t: String = (0..n).map(|_| *c.pick(set)).collect();
    s.insert_str(at, &t);
    true
}

// ------------------------------------------------------------------ cases

pub enum Stop {
    Fail(String),
    Discard(&'static str),
}

pub type Verdict = Result<(), Stop>;

pub fn fail<T>(msg: String) -> Result<T, Stop> { Err(Stop::Fail(msg)) }

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => { if !$c { return Err($crate::engine::Stop::Fail(format!($($arg)*))); } }
}

#[derive(Default)]
pub struct Ctx {
    pub evals: u64,
    pub nontrivial: HashSet<u64>,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub sample_now: bool,
    /// Rendering of the case under test, for reports.
    pub shown: String,
}

impl Ctx {
    pub fn label(&mut self, l: &'static str) { *self.labels.entry(l).or_insert(0) += 1; }
    pub fn label_n(&mut self, l: &'static str, n: u64) { *self.labels.entry(l).or_insert(0) += n; }

    /// Counts one evaluated case.
    pub fn eval<F: FnOnce() -> String>(&mut self, nontrivial: bool, key: u64, sample: F) {
        self.evals += 1;
        if nontrivial && self.nontrivial.insert(key) && self.sample_now {
            self.sample_now = false;
            self.samples.push(clip(&sample(), 1600));
        }
    }

    pub fn show(&mut self, s: String) { self.shown = s; }
}

/// For standard output: control characters are escaped.
fn printable(s: &str) -> String {
    s.chars().map(|c| if c.is_control() && c != '\n' { c.escape_default().to_string() } else { c.to_string() }).collect()
}

pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n { s.into() } else {
        let mut t: String = s.chars().take(n).collect();
        t.push_str("...[cut]");
        t
    }
}

/// Runs code under test. A panic or a runaway evaluation is a failure of the case.
pub fn sut<T, F: FnOnce() -> T>(what: &str, limit: u64, f: F) -> Result<T, Stop> {
    piston_meta::verif::start(limit);
    IN_SUT.with(|x| x.set(x.get() + 1));
    let res = panic::catch_unwind(panic::AssertUnwindSafe(f));
    IN_SUT.with(|x| x.set(x.get() - 1));
    match res {
        Ok(x) => Ok(x),
        Err(p) => {
            if p.downcast_ref::<piston_meta::verif::LimitReached>().is_some() {
                fail(format!("{}: no result after {} steps", what, limit))
            } else {
                let m = PANIC_MSG.with(|x| x.borrow().clone());
                fail(format!("{}: panicked: {}", what, m))
            }
        }
    }
}

/// Like `sut`, but running into the limit gives `None`.
pub fn sut_within<T, F: FnOnce() -> T>(what: &str, limit: u64, f: F) -> Result<Option<T>, Stop> {
    piston_meta::verif::start(limit);
    IN_SUT.with(|x| x.set(x.get() + 1));
    let res = panic::catch_unwind(panic::AssertUnwindSafe(f));
    IN_SUT.with(|x| x.set(x.get() - 1));
    match res {
        Ok(x) => Ok(Some(x)),
        Err(p) => {
            if p.downcast_ref::<piston_meta::verif::LimitReached>().is_some() { return Ok(None); }
            let m = PANIC_MSG.with(|x| x.borrow().clone());
            fail(format!("{}: panicked: {}", what, m))
        }
    }
}

/// Like `sut`, but returns whether it panicked.
pub fn sut_panics<T, F: FnOnce() -> T>(limit: u64, f: F) -> Option<T> {
    piston_meta::verif::start(limit);
    IN_SUT.with(|x| x.set(x.get() + 1));
    let res = panic::catch_unwind(panic::AssertUnwindSafe(f));
    IN_SUT.with(|x| x.set(x.get() - 1));
    res.ok()
}

thread_local! {
    static IN_HARNESS: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static IN_SUT: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
    static PANIC_MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let m = format!("{}", info);
        // Files of the harness have relative paths, those of the library have not.
        let own = info.location().map(|l| l.file().starts_with("src/")).unwrap_or(false);
        IN_HARNESS.with(|x| x.set(own));
        if IN_SUT.with(|x| x.get()) == 0 && own {
            eprintln!("HARNESS PANIC: {}", m);
        }
        PANIC_MSG.with(|x| *x.borrow_mut() = m.replace('\n', " "));
    }));
}

pub type Pinned = (&'static str, fn() -> Verdict);

pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub case: fn(&mut Src, &mut Ctx) -> Verdict,
    /// Explicit regression inputs, run first.
    pub pinned: &'static [Pinned],
    /// Probes of genuine defects. Err = the defect is present. Only those in the
    /// known-findings file are tolerated.
    pub findings: &'static [Pinned],
    pub assumptions: &'static [&'static str],
}

// ------------------------------------------------------------------ shrinking

struct Failure {
    index: u64,
    choices: Vec<u64>,
    message: String,
    shown: String,
}

/// A panic raised in the library outside of `sut` is a failure, one raised in the harness is an error of the check.
fn run_case(p: &Prop, src: &mut Src, ctx: &mut Ctx) -> Verdict { guarded(|| (p.case)(src, ctx)) }

fn guarded<F: FnOnce() -> Verdict>(f: F) -> Verdict {
    piston_meta::verif::start(u64::MAX);
    match panic::catch_unwind(panic::AssertUnwindSafe(f)) {
        Ok(v) => v,
        Err(e) => {
            IN_SUT.with(|x| x.set(0));
            if e.downcast_ref::<piston_meta::verif::LimitReached>().is_some() { return fail("no result within the limit of steps".into()); }
            if IN_HARNESS.with(|x| x.get()) { panic::resume_unwind(e); }
            fail(format!("panicked: {}", PANIC_MSG.with(|x| x.borrow().clone())))
        }
    }
}

/// Runs choices; returns the recorded choices and message if the case fails.
fn attempt(p: &Prop, choices: Vec<u64>) -> Option<(Vec<u64>, String, String)> {
    let mut src = Src::replay(choices);
    let mut ctx = Ctx::default();
    match panic::catch_unwind(panic::AssertUnwindSafe(|| run_case(p, &mut src, &mut ctx))) {
        Ok(Err(Stop::Fail(m))) => Some((src.rec, m, ctx.shown)),
        _ => None,
    }
}

fn simpler(a: &[u64], b: &[u64]) -> bool {
    a.len() < b.len() || (a.len() == b.len() && a < b)
}

fn shrink<F>(start: Vec<u64>, mut budget: usize, secs: u64, mut test: F) -> Vec<u64>
where
    F: FnMut(Vec<u64>) -> Option<Vec<u64>>,
{
    let t0 = Instant::now();
    let mut best = start;
    let mut improved = true;
    while improved && budget > 0 && t0.elapsed() < Duration::from_secs(secs) {
        improved = false;
        let mut try_one = |cand: Vec<u64>, best: &mut Vec<u64>, budget: &mut usize| -> bool {
            if *budget == 0 || t0.elapsed() >= Duration::from_secs(secs) { return false; }
            if !simpler(&cand, best) { return false; }
            *budget -= 1;
            if let Some(rec) = test(cand) {
                if simpler(&rec, best) {
                    *best = rec;
                    return true;
                }
            }
            false
        };
        // Delete blocks.
        let mut k = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                let end = (i + k).min(best.len());
                let mut c = best.clone();
                c.drain(i..end);
                if try_one(c, &mut best, &mut budget) { improved = true; } else { i += k; }
            }
            if k == 1 { break; }
            k /= 2;
        }
        // Zero blocks.
        for k in [16usize, 4, 1] {
            let mut i = 0;
            while i < best.len() {
                let end = (i + k).min(best.len());
                if best[i..end].iter().any(|&x| x != 0) {
                    let mut c = best.clone();
                    for x in &mut c[i..end] { *x = 0; }
                    if try_one(c, &mut best, &mut budget) { improved = true; }
                }
                i += k;
            }
        }
        // Lower values.
        let mut i = 0;
        while i < best.len() {
            while i < best.len() && best[i] > 0 {
                let mut c = best.clone();
                c[i] /= 2;
                if try_one(c, &mut best, &mut budget) { improved = true; continue; }
                let mut c = best.clone();
                c[i] -= 1;
                if try_one(c, &mut best, &mut budget) { improved = true; continue; }
                // Lower this one while deleting the next.
                if i + 1 < best.len() {
                    let mut c = best.clone();
                    c[i] -= 1;
                    c.remove(i + 1);
                    if try_one(c, &mut best, &mut budget) { improved = true; continue; }
                }
                break;
            }
            i += 1;
        }
    }
    best
}

// ------------------------------------------------------------------ paths and JSON

pub fn root() -> PathBuf {
    std::env::var("HARNESS_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn read_u64s(s: &str) -> Vec<u64> {
    s.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty())
        .map(|x| x.parse().unwrap()).collect()
}

// ------------------------------------------------------------------ coverage guidance

static COUNTERS: std::sync::Mutex<Vec<(usize, usize)>> = std::sync::Mutex::new(vec![]);

/// Called by the instrumented library when the program starts.
#[no_mangle]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
    let r = (start as usize, stop as usize);
    let mut c = COUNTERS.lock().unwrap();
    if r.0 < r.1 && !c.contains(&r) { c.push(r); }
}

/// The cases that reached something new in the library, and new cases made from them.
struct Guide {
    regions: Vec<(usize, usize)>,
    /// Which numbers of executions (by powers of two) each edge has been seen with.
    seen: Vec<u8>,
    corpus: Vec<Vec<u64>>,
    edges: usize,
    /// Number and total length of the random cases.
    usual: (usize, usize),
}

impl Guide {
    fn new() -> Guide {
        let regions = COUNTERS.lock().unwrap().clone();
        let n = regions.iter().map(|r| r.1 - r.0).sum();
        Guide { regions, seen: vec![0; n], corpus: vec![], edges: 0, usual: (0, 0) }
    }

    fn reset(&self) {
        for r in &self.regions { unsafe { std::ptr::write_bytes(r.0 as *mut u8, 0, r.1 - r.0) } }
    }

    /// Looks at what the case before executed.
    fn learn(&mut self, src: &Src, random: bool) {
        let rec = &src.rec;
        if src.heavy { return; }
        if random { self.usual.0 += 1; self.usual.1 += rec.len(); }
        // Large cases reach much, and would take over.
        if rec.len() > 2 * self.usual.1 / self.usual.0.max(1) { return; }
        let mut new = false;
        let mut at = 0;
        for r in &self.regions {
            let cs = unsafe { std::slice::from_raw_parts(r.0 as *const u8, r.1 - r.0) };
            for &c in cs {
                if c != 0 {
                    let bit = 1u8 << match c { 1 => 0, 2 => 1, 3 => 2, 4..=7 => 3, 8..=15 => 4, 16..=31 => 5, 32..=127 => 6, _ => 7 };
                    if self.seen[at] & bit == 0 {
                        if self.seen[at] == 0 { self.edges += 1; }
                        self.seen[at] |= bit;
                        new = true;
                    }
                }
                at += 1;
            }
        }
        if new { self.corpus.push(rec.to_vec()); }
    }

    /// Changes a case of the corpus.
    fn mutate(&self, r: &mut u64) -> Vec<u64> {
        let mut below = |n: usize| -> usize { ((splitmix(r) as u128 * n as u128) >> 64) as usize };
        let k = self.corpus.len();
        // Later ones more often: they reached what is hard to reach.
        let i = if below(3) == 0 { below(k) } else { k - 1 - below(k).min(below(k)) };
        let mut c = self.corpus[i].clone();
        for _ in 0..1 + below(4) {
            if c.is_empty() { break; }
            let n = c.len();
            match below(8) {
                0 | 1 | 2 => { let j = below(n); c[j] = ANY; }
                3 => { let j = below(n); c[j] = if below(2) == 0 { c[j].saturating_sub(1) } else { c[j].saturating_add(1) }; }
                4 => { let j = below(n); let l = 1 + below(8.min(n - j)); for x in &mut c[j..j + l] { *x = ANY; } }
                5 => { let j = below(n); let l = 1 + below(16.min(n - j)); let part: Vec<u64> = c[j..j + l].to_vec(); let at = below(n + 1); c.splice(at..at, part); }
                6 => { let j = below(n); let l = 1 + below(8.min(n - j)); c.drain(j..j + l); }
                _ => {
                    let o = &self.corpus[below(k)];
                    if below(2) == 0 { c.truncate(1 + below(n)); if below(2) == 0 && !o.is_empty() { c.extend_from_slice(&o[below(o.len())..]); } }
                    else if !o.is_empty() { let j = below(o.len()); let l = 1 + below(24.min(o.len() - j)); let at = below(n + 1); c.splice(at..at, o[j..j + l].iter().cloned()); }
                }
            }
        }
        c.truncate(6000);
        c
    }
}

/// Every fourth case is made from earlier ones, and the other way round for the last half of a thorough run.
fn is_guided(i: u64, stride: u64, n: u64, thorough: bool) -> bool {
    let k = i / stride;
    if thorough && i > n / 2 { k % 4 != 0 } else { k % 4 == 3 }
}

// ------------------------------------------------------------------ worker

/// Runs cases `start, start+stride, ..` below `n`. Writes the current index to `<out>.cur`,
/// and the result to `<out>`.
fn worker(p: &Prop, seed: u64, n: u64, start: u64, stride: u64, out: &Path) -> i32 {
    let cur = std::fs::File::create(out.with_extension("cur")).unwrap();
    let mut ctx = Ctx::default();
    // Samples are spread over the run.
    let sample_step = (n / stride / 6).max(1);
    let t0 = Instant::now();
    let deadline = std::env::var("HARNESS_DEADLINE").ok().and_then(|x| x.parse().ok()).unwrap_or(u64::MAX);
    let mut failure: Option<Failure> = None;
    let mut discards: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut generated = 0u64;
    let mut guided = 0u64;
    let thorough = std::env::var_os("HARNESS_THOROUGH").is_some();
    let slow: Option<u128> = std::env::var("HARNESS_SLOW").ok().and_then(|x| x.parse().ok());
    let mut guide = Guide::new();
    let made = std::fs::File::create(out.with_extension("made")).unwrap();
    let mut i = start;
    while i < n {
        cur.write_at(&i.to_le_bytes(), 0).unwrap();
        let mut src = Src::random(seed, p.id, i);
        let mut random = true;
        if is_guided(i, stride, n, thorough) && !guide.corpus.is_empty() {
            let mut rng = src.rng.unwrap();
            let choices = guide.mutate(&mut rng);
            guided += 1;
            // On disk before the code under test may crash.
            let mut b: Vec<u8> = Vec::with_capacity(choices.len() * 8 + 24);
            for x in [i, rng, choices.len() as u64].iter().chain(&choices) { b.extend_from_slice(&x.to_le_bytes()); }
            made.write_at(&b, 0).unwrap();
            src = Src::guided(choices, rng);
            random = false;
        }
        guide.reset();
        if start == 0 && generated % sample_step == 0 { ctx.sample_now = true; }
        if generated % 64 == 0 && t0.elapsed().as_secs() > deadline { break; }
        generated += 1;
        let t1 = Instant::now();
        let verdict = run_case(p, &mut src, &mut ctx);
        guide.learn(&src, random);
        if let Some(t) = slow { if t1.elapsed().as_millis() > t { eprintln!("case {} {} ms {:?} {}", i, t1.elapsed().as_millis(), src.rec, clip(&ctx.shown, 300)); } }
        match verdict {
            Ok(()) => {}
            Err(Stop::Discard(d)) => { *discards.entry(d).or_insert(0) += 1; }
            Err(Stop::Fail(m)) => {
                let first = (src.rec.clone(), m, ctx.shown.clone());
                let best = shrink(src.rec, 4000, 40, |c| attempt(p, c).map(|x| x.0));
                let (choices, message, shown) = attempt(p, best).unwrap_or(first);
                failure = Some(Failure { index: i, choices, message, shown });
                break;
            }
        }
        i += stride;
    }
    let mut o = String::new();
    let _ = writeln!(o, "generated {}", generated);
    let _ = writeln!(o, "guided {}", guided);
    let _ = writeln!(o, "corpus {}", guide.corpus.len());
    let _ = writeln!(o, "edges {} {}", guide.edges, guide.seen.len());
    let _ = writeln!(o, "evals {}", ctx.evals);
    for (k, v) in &ctx.labels { let _ = writeln!(o, "label {} {}", v, k); }
    for (k, v) in &discards { let _ = writeln!(o, "discard {} {}", v, k); }
    for s in &ctx.samples { let _ = writeln!(o, "sample {}", jstr(s)); }
    if let Some(f) = failure {
        let _ = writeln!(o, "fail {} {:?}", f.index, f.choices);
        let _ = writeln!(o, "message {}", jstr(&f.message));
        let _ = writeln!(o, "shown {}", jstr(&f.shown));
    }
    let mut h: Vec<u8> = Vec::with_capacity(ctx.nontrivial.len() * 8);
    for x in &ctx.nontrivial { h.extend_from_slice(&x.to_le_bytes()); }
    std::fs::write(out.with_extension("keys"), h).unwrap();
    std::fs::write(out, o).unwrap();
    0
}

/// Runs one case from choices read from a file: 0 pass, 1 fail, 3 discard.
fn one(p: &Prop, file: &Path, verbose: bool) -> i32 {
    let s = std::fs::read_to_string(file).unwrap();
    let mut src = Src::replay(read_u64s(&s));
    let mut ctx = Ctx::default();
    let r = run_case(p, &mut src, &mut ctx);
    if verbose { println!("{}", ctx.shown); }
    match r {
        Ok(()) => 0,
        Err(Stop::Fail(m)) => { println!("FAIL {}", m); 1 }
        Err(Stop::Discard(_)) => 3,
    }
}

#[repr(C)]
struct RLimit { cur: u64, max: u64 }

extern "C" { fn setrlimit(resource: i32, limit: *const RLimit) -> i32; }

/// Memory running away ends the process by an abort of its own.
fn limit_memory() {
    let l = RLimit { cur: 3 << 30, max: 3 << 30 };
    unsafe { setrlimit(9, &l); }
}

fn with_big_stack<T: Send + 'static, F: FnOnce() -> T + Send + 'static>(f: F) -> T {
    limit_memory();
    std::thread::Builder::new().stack_size(512 << 20).spawn(f).unwrap().join()
        .unwrap_or_else(|_| std::process::exit(2))
}

struct Scratch(PathBuf);

impl Drop for Scratch {
    fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); }
}

/// Where child processes write messages: the code under test writes to standard error, too.
fn stderr_file() -> Stdio {
    if std::env::var("HARNESS_STDERR").is_ok() { Stdio::inherit() } else { Stdio::null() }
}

fn spawn_self(args: &[String]) -> Child {
    Command::new(std::env::current_exe().unwrap())
        .args(args)
        .stdin(Stdio::null()).stdout(Stdio::null()).stderr(stderr_file())
        .spawn().unwrap()
}

fn crashed(status: std::process::ExitStatus) -> Option<i32> {
    match status.signal() {
        // SIGKILL is what ends a process when memory runs out: inconclusive.
        Some(9) => None,
        x => x,
    }
}

fn write_replay(p: &Prop, seed: u64, f: &Failure, pinned: Option<&str>) -> String {
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let key = hash_str(&format!("{:?}{:?}", f.choices, pinned));
    let name = format!("replays/{}-{:016x}.json", p.id, key);
    let body = format!(
        "{{\"property\":{},\n\"pinned\":{},\n\"seed\":{},\n\"index\":{},\n\"message\":{},\n\"case\":{},\n\"dictionary\":{},\n\"choices\":{:?}}}\n",
        jstr(p.id), pinned.map(jstr).unwrap_or("null".into()), seed, f.index,
        jstr(&f.message), jstr(&f.shown), jstr(&crate::dict::in_use()), f.choices);
    std::fs::write(root().join(&name), body).unwrap();
    name
}

fn known_findings() -> Vec<(String, String)> {
    // Lines `open: property=<id> <key>: <what fails>`.
    let s = std::fs::read_to_string(root().join("known-findings.txt")).unwrap_or_default();
    s.lines().filter_map(|l| l.strip_prefix("open: property=")).filter_map(|l| {
        let mut it = l.splitn(2, ' ');
        Some((it.next()?.to_string(), it.next()?.to_string()))
    }).collect()
}

#[derive(Default)]
struct Totals {
    evals: u64,
    generated: u64,
    guided: u64,
    corpus: u64,
    edges: u64,
    all_edges: u64,
    labels: BTreeMap<String, u64>,
    discards: BTreeMap<String, u64>,
    samples: Vec<String>,
    keys: HashSet<u64>,
}

fn write_evidence(p: &Prop, tier: &str, seed: u64, t0: Instant, t: &Totals, pinned_run: u64, violation: bool) {
    let wall = t0.elapsed().as_secs_f64();
    let mut e = String::new();
    let _ = write!(e, "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"explicit_cases\": {},\n  \"generated_cases\": {},\n  \"coverage_guided_cases\": {},\n  \"corpus\": {},\n  \"library_edges_reached\": {},\n  \"library_edges\": {},\n",
        jstr(p.id), jstr(tier), seed, t.evals, t.keys.len(), jstr(p.rule), pinned_run, t.generated, t.guided, t.corpus, t.edges, t.all_edges);
    let f = |m: &BTreeMap<String, u64>| m.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect::<Vec<_>>().join(", ");
    let _ = write!(e, "  \"classes\": {{{}}},\n  \"discarded\": {{{}}},\n  \"samples\": [{}]\n }},\n", f(&t.labels), f(&t.discards), t.samples.join(",\n   "));
    let _ = write!(e, " \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        p.assumptions.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(", "), wall, violation as u32);
    let ev = root().join("evidence");
    let _ = std::fs::create_dir_all(&ev);
    std::fs::write(ev.join(format!("{}.json", p.id)), e).unwrap();
}

/// A single case that takes longer than this is a hang. Cases usually take microseconds,
/// and the steps of evaluation they may take are limited.
const HANG_SECS: u64 = 100;

pub fn check(p: &'static Prop, tier: &str, seed: u64) -> i32 {
    let t0 = Instant::now();
    let n = std::env::var("HARNESS_CASES").ok().and_then(|x| x.parse().ok())
        .unwrap_or(if tier == "thorough" { p.thorough } else { p.quick });
    // A part of the cases only, when the checks themselves are tested.
    let n = n / std::env::var("HARNESS_FRACTION").ok().and_then(|x| x.parse::<u64>().ok()).unwrap_or(1).max(1);
    let dir = root().join("scratch").join(format!("{}-{}", p.id, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let scratch = Scratch(dir.clone());
    let mut violation: Option<(Failure, Option<&'static str>)> = None;

    // Pinned regressions and finding probes, in a child process of their own.
    let mut pinned_run = 0u64;
    let kf = known_findings();
    for (list, is_finding) in [(p.pinned, false), (p.findings, true)] {
        for (name, _) in list.iter() {
            pinned_run += 1;
            let out = dir.join("pinned.txt");
            let mut c = Command::new(std::env::current_exe().unwrap());
            c.args(["pinned", p.id, name]).stdin(Stdio::null()).stderr(stderr_file());
            let f = std::fs::File::create(&out).unwrap();
            let mut child = c.stdout(f).spawn().unwrap();
            let status = match wait_for(&mut child, 120) {
                Some(s) => Some(s),
                None => None,
            };
            let text = std::fs::read_to_string(&out).unwrap_or_default();
            let message = match status.map(|s| (s.code(), crashed(s))) {
                Some((Some(0), _)) => continue,
                Some((Some(1), _)) => text.trim().to_string(),
                Some((_, Some(s))) => format!("crashed with signal {}", s),
                None => String::from("does not finish within 120 s"),
                x => { eprintln!("pinned case {} ended with {:?}", name, x); return 2; }
            };
            if is_finding {
                if let Some((_, what)) = kf.iter().find(|(id, what)| id == p.id
                    && what.split(':').next() == Some(name)) {
                    println!("KNOWN-FINDING: property={} {}", p.id, what);
                    continue;
                }
            }
            let shown = format!("explicit case {}", name);
            violation = Some((Failure { index: 0, choices: vec![], message, shown }, Some(name)));
        }
    }

    // On a slow machine fewer cases are generated, as the evidence says.
    if tier == "thorough" { std::env::set_var("HARNESS_THOROUGH", "1"); }
    std::env::set_var("HARNESS_DEADLINE", if tier == "thorough" { "14400" } else { "420" });
    let workers = 8u64.min(n.max(1));
    let mut children: Vec<(u64, PathBuf, Child, Option<std::process::ExitStatus>, (u64, Instant))> = vec![];
    if violation.is_none() {
        for w in 0..workers {
            let out = dir.join(format!("w{}", w));
            let child = spawn_self(&["worker".into(), p.id.into(), seed.to_string(), n.to_string(),
                w.to_string(), workers.to_string(), out.to_string_lossy().into_owned()]);
            children.push((w, out, child, None, (u64::MAX, Instant::now())));
        }
    }
    let mut hung: Option<(u64, PathBuf)> = None;
    let total_limit = if tier == "thorough" { 6 * 3600 } else { 840 };
    loop {
        let mut open = false;
        for c in &mut children {
            if c.3.is_some() { continue; }
            match c.2.try_wait().unwrap() {
                Some(s) => c.3 = Some(s),
                None => {
                    open = true;
                    let cur = read_cur(&c.1);
                    if cur != c.4.0 { c.4 = (cur, Instant::now()); }
                    if c.4.1.elapsed() > Duration::from_secs(HANG_SECS) && hung.is_none() { hung = Some((cur, c.1.clone())); }
                }
            }
        }
        if let Some((index, hung_out)) = hung {
            for c in &mut children { let _ = c.2.kill(); let _ = c.2.wait(); }
            let choices = record_choices(p, seed, index, &dir, &hung_out);
            drop(scratch);
            let f = Failure { index, choices, shown: "(replay to see)".into(),
                message: format!("case {} does not finish within {} s, while cases usually take far below one", index, HANG_SECS) };
            write_evidence(p, tier, seed, t0, &Totals::default(), pinned_run, true);
            let path = write_replay(p, seed, &f, None);
            println!("{}", printable(&f.message));
            println!("VIOLATION property={} replay={}", p.id, path);
            return 1;
        }
        if !open { break; }
        if t0.elapsed() > Duration::from_secs(total_limit) {
            eprintln!("watchdog: time limit");
            for c in &mut children { let _ = c.2.kill(); let _ = c.2.wait(); }
            return 2;
        }
        std::thread::sleep(Duration::from_millis(10));
    }

    let mut t = Totals::default();
    let mut unclear = false;
    for (_, out, _, status, _) in &children {
        let status = status.unwrap();
        if status.code() == Some(0) {
            let s = std::fs::read_to_string(out).unwrap();
            let mut f: Option<Failure> = None;
            for l in s.lines() {
                let (k, rest) = l.split_once(' ').unwrap_or((l, ""));
                match k {
                    "generated" => t.generated += rest.parse::<u64>().unwrap(),
                    "guided" => t.guided += rest.parse::<u64>().unwrap(),
                    "corpus" => t.corpus += rest.parse::<u64>().unwrap(),
                    "edges" => {
                        let (a, b) = rest.split_once(' ').unwrap();
                        t.edges = t.edges.max(a.parse().unwrap());
                        t.all_edges = b.parse().unwrap();
                    }
                    "evals" => t.evals += rest.parse::<u64>().unwrap(),
                    "label" | "discard" => {
                        let (v, name) = rest.split_once(' ').unwrap();
                        let m = if k == "label" { &mut t.labels } else { &mut t.discards };
                        *m.entry(name.into()).or_insert(0) += v.parse::<u64>().unwrap();
                    }
                    "sample" => t.samples.push(rest.into()),
                    "fail" => {
                        let (i, cs) = rest.split_once(' ').unwrap();
                        f = Some(Failure { index: i.parse().unwrap(), choices: read_u64s(cs),
                            message: String::new(), shown: String::new() });
                    }
                    "message" => f.as_mut().unwrap().message = unjstr(rest),
                    "shown" => f.as_mut().unwrap().shown = unjstr(rest),
                    _ => {}
                }
            }
            let mut b = vec![];
            std::fs::File::open(out.with_extension("keys")).unwrap().read_to_end(&mut b).unwrap();
            for c in b.chunks_exact(8) { t.keys.insert(u64::from_le_bytes(c.try_into().unwrap())); }
            if let Some(f) = f {
                if violation.as_ref().map(|v| f.index < v.0.index).unwrap_or(true) {
                    violation = Some((f, None));
                }
            }
        } else if let Some(sig) = crashed(status) {
            // The code under test brought the process down: confirm, then shrink in child processes.
            let index = read_cur(out);
            t.generated += index / workers;
            // One violation is enough, and confirming can take a minute.
            if violation.is_some() { continue; }
            let rec = record_choices(p, seed, index, &dir, out);
            if let Some(choices) = crash_attempt(p, &rec, &dir) {
                let secs = if std::env::var_os("HARNESS_FRACTION").is_some() { 2 } else { 60 };
                let best = shrink(choices, 150, secs, |c| crash_attempt(p, &c, &dir));
                let f = Failure { index, choices: best, message: format!("process ended by signal {}", sig),
                    shown: String::from("(replay to see)") };
                violation = Some((f, None));
            } else {
                eprintln!("worker ended by signal {} at case {}, not reproduced", sig, index);
                unclear = true;
            }
        } else {
            eprintln!("worker ended with {}", status);
            unclear = true;
        }
    }
    if unclear && violation.is_none() { return 2; }
    if std::env::var("HARNESS_VERBOSE").is_ok() {
        println!("guided {} corpus {} edges {} of {}", t.guided, t.corpus, t.edges, t.all_edges);
        println!("generated {} evals {} nontrivial {} wall {:.1}s", t.generated, t.evals, t.keys.len(), t0.elapsed().as_secs_f64());
        for (k, v) in &t.labels { println!("  {:7} {}", v, k); }
        for (k, v) in &t.discards { println!("  {:7} discarded: {}", v, k); }
    }
    write_evidence(p, tier, seed, t0, &t, pinned_run, violation.is_some());
    let wall = t0.elapsed().as_secs_f64();
    drop(scratch);
    if let Some((f, pinned)) = violation {
        let path = write_replay(p, seed, &f, pinned);
        println!("{}", printable(&clip(&f.shown, 3000)));
        println!("{}", printable(&clip(&f.message, 3000)));
        println!("VIOLATION property={} replay={}", p.id, path);
        return 1;
    }
    println!("property={} held: {} evaluations, {} distinct non-trivial, {:.1} s", p.id, t.evals, t.keys.len(), wall);
    0
}

fn unjstr(s: &str) -> String {
    // Only decodes what `jstr` writes.
    let inner = &s[1..s.len() - 1];
    let mut o = String::new();
    let mut it = inner.chars();
    while let Some(c) = it.next() {
        if c != '\\' { o.push(c); continue; }
        match it.next() {
            Some('n') => o.push('\n'),
            Some('r') => o.push('\r'),
            Some('t') => o.push('\t'),
            Some('u') => {
                let h: String = it.by_ref().take(4).collect();
                o.push(char::from_u32(u32::from_str_radix(&h, 16).unwrap()).unwrap());
            }
            Some(x) => o.push(x),
            None => {}
        }
    }
    o
}

fn wait_for(child: &mut Child, secs: u64) -> Option<std::process::ExitStatus> {
    let t = Instant::now();
    loop {
        if let Some(s) = child.try_wait().unwrap() { return Some(s); }
        if t.elapsed() > Duration::from_secs(secs) {
            let _ = child.kill();
            let _ = child.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(2));
    }
}

fn read_cur(out: &Path) -> u64 {
    match std::fs::read(out.with_extension("cur")) {
        Ok(b) if b.len() == 8 => u64::from_le_bytes(b.try_into().unwrap()),
        _ => 0,
    }
}

/// Runs case `index` in a child that writes each choice to a file as it is made.
/// `out` is the file of the worker that was at this case.
fn record_choices(p: &Prop, seed: u64, index: u64, dir: &Path, out: &Path) -> Vec<u64> {
    let f = dir.join("rec");
    let mut c = spawn_self(&["record".into(), p.id.into(), seed.to_string(), index.to_string(),
        f.to_string_lossy().into_owned(), out.with_extension("made").to_string_lossy().into_owned()]);
    let _ = wait_for(&mut c, 20);
    read_u64s(&std::fs::read_to_string(&f).unwrap_or_default())
}

fn crash_attempt(p: &Prop, choices: &[u64], dir: &Path) -> Option<Vec<u64>> {
    let f = dir.join("one");
    std::fs::write(&f, format!("{:?}", choices)).unwrap();
    let mut c = spawn_self(&["one".into(), p.id.into(), f.to_string_lossy().into_owned()]);
    let s = wait_for(&mut c, 60)?;
    crashed(s).map(|_| choices.to_vec())
}

pub fn main(props: &'static [Prop]) -> i32 {
    install_hook();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let find = |id: &str| -> &'static Prop {
        props.iter().find(|p| p.id == id).unwrap_or_else(|| { eprintln!("no property {}", id); std::process::exit(2) })
    };
    match a.get(0).map(|x| &**x) {
        Some("check") => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|x| x.trim().parse::<u64>().ok()).unwrap_or(1);
            let tier = a.get(2).cloned().or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
            check(find(&a[1]), &tier, seed)
        }
        Some("worker") => {
            let p = find(&a[1]);
            let v: Vec<u64> = a[2..6].iter().map(|x| x.parse().unwrap()).collect();
            let out = PathBuf::from(&a[6]);
            with_big_stack(move || worker(p, v[0], v[1], v[2], v[3], &out))
        }
        Some("one") => {
            let p = find(&a[1]);
            let f = PathBuf::from(&a[2]);
            with_big_stack(move || one(p, &f, false))
        }
        Some("record") => {
            let p = find(&a[1]);
            let (seed, index): (u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap());
            let f = PathBuf::from(&a[4]);
            let made: Vec<u64> = std::fs::read(&a[5]).unwrap_or_default().chunks_exact(8)
                .map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
            with_big_stack(move || {
                // Every choice is on disk before the code under test may crash.
                let mut src = if made.first() == Some(&index) && made.len() > 2 {
                    Src::guided(made[3..].iter().cloned().take(made[2] as usize).collect(), made[1])
                } else {
                    Src::random(seed, p.id, index)
                };
                src.tee = Some(std::fs::File::create(f).unwrap());
                let _ = run_case(p, &mut src, &mut Ctx::default());
                0
            })
        }
        Some("pinned") => {
            let p = find(&a[1]);
            let name = a[2].clone();
            with_big_stack(move || {
                let f = p.pinned.iter().chain(p.findings.iter()).find(|x| x.0 == name).unwrap().1;
                match guarded(f) {
                    Ok(()) => 0,
                    Err(Stop::Fail(m)) => { println!("{}", m); 1 }
                    Err(Stop::Discard(_)) => 0,
                }
            })
        }
        Some("replay") => {
            let s = match std::fs::read_to_string(&a[1]) {
                Ok(s) => s,
                Err(_) => std::fs::read_to_string(root().join(&a[1])).unwrap(),
            };
            let field = |k: &str| -> String {
                let i = s.find(&format!("\"{}\":", k)).unwrap() + k.len() + 3;
                s[i..].lines().next().unwrap().trim_end_matches(',').to_string()
            };
            let p = find(&unjstr(&field("property")));
            if field("pinned") != "null" {
                let st = Command::new(std::env::current_exe().unwrap())
                    .args(["pinned", p.id, &unjstr(&field("pinned"))]).status().unwrap();
                return if st.code() == Some(0) { println!("passes now"); 0 } else {
                    println!("VIOLATION property={} replay={}", p.id, a[1]); 1 };
            }
            let choices = s[s.find("\"choices\":").unwrap()..].to_string();
            let f = root().join("scratch");
            let _ = std::fs::create_dir_all(&f);
            let f = f.join(format!("replay-{}", std::process::id()));
            std::fs::write(&f, choices.replace("choices", "")).unwrap();
            let mut child = Command::new(std::env::current_exe().unwrap())
                .args(["show", p.id, &f.to_string_lossy()]).env("HARNESS_DICT", unjstr(&field("dictionary"))).spawn().unwrap();
            let st = match wait_for(&mut child, HANG_SECS) {
                Some(s) => s,
                None => {
                    println!("no result after {} s", HANG_SECS);
                    println!("VIOLATION property={} replay={}", p.id, a[1]);
                    let _ = std::fs::remove_file(&f);
                    return 1;
                }
            };
            let _ = std::fs::remove_file(&f);
            match (st.code(), crashed(st)) {
                (Some(1), _) | (_, Some(_)) => { println!("VIOLATION property={} replay={}", p.id, a[1]); 1 }
                (Some(0), _) | (Some(3), _) => { println!("passes now"); 0 }
                _ => 2,
            }
        }
        Some("show") => {
            let p = find(&a[1]);
            let f = PathBuf::from(&a[2]);
            with_big_stack(move || one(p, &f, true))
        }
        Some("print") => {
            let (g, d) = (a[1].clone(), a[2].clone());
            with_big_stack(move || crate::props::robust::print(&g, &d))
        }
        Some("dict") => { print!("{}", crate::dict::dump()); 0 }
        Some("list") => { for p in props { println!("{}", p.id); } 0 }
        _ => { eprintln!("usage: check <ID> [tier] | replay <file> | list"); 2 }
    }
}
