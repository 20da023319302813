//! A small choice-tape property-based testing engine.
//!
//! Every random decision of a generator goes through [`Src::draw`], which records it on a tape. A
//! failing tape is shrunk by editing the tape itself (deleting, zeroing, halving entries) and
//! re-running the property, so integrated shrinking and replay come for free, and the very same
//! property functions are driven by coverage-guided mutation of tapes (`guided.rs`).
//!
//! A run is a pure function of the code under test and of VERIF_SEED / VERIF_TIER.

mod cov;
mod guided;

use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::Instant;

// ------------------------------------------------------------------------------------------ RNG

#[derive(Clone)]
pub struct Rng([u64; 4]);

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(mut seed: u64) -> Self {
        Rng([
            splitmix(&mut seed),
            splitmix(&mut seed),
            splitmix(&mut seed),
            splitmix(&mut seed),
        ])
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h ^= u64::from(b);
        h = h.wrapping_mul(0x0000_0100_0000_01B3);
    }
    let mut x = h;
    splitmix(&mut x)
}

pub fn mix(h: u64, v: u64) -> u64 {
    let mut x = h.rotate_left(17) ^ v.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    splitmix(&mut x)
}

// ----------------------------------------------------------------------------------- dictionary

/// Sorted numeric literals found in the code under test (written by run.sh at build time).
fn dictionary() -> &'static [f64] {
    static D: OnceLock<Vec<f64>> = OnceLock::new();
    D.get_or_init(|| {
        let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
        let text = std::fs::read_to_string(format!("{root}/target/dictionary.txt")).unwrap_or_default();
        let mut v: Vec<f64> = text.split_whitespace().filter_map(|x| x.parse().ok()).filter(|x: &f64| x.is_finite()).collect();
        v.extend(v.clone().iter().map(|x| -x));
        v.sort_by(f64::total_cmp);
        v.dedup();
        v
    })
}

// ------------------------------------------------------------------------------------------ Src

enum Mode {
    Random(Rng),
    Replay(Vec<u64>),
    /// the given entries, then random ones
    Guided(Vec<u64>, Rng),
}

pub struct Src {
    mode: Mode,
    tape: Vec<u64>,
    /// What each entry is below (0 = any); kept in guided mode only.
    bounds: Vec<u64>,
    labels: Vec<&'static str>,
    nontrivial: Option<u64>,
    sample: Option<String>,
    checks: u64,
    known: Vec<(String, String)>,
    want_sample: bool,
    /// Where each draw is also written, so that the tape survives a crash of the process.
    spill: Option<std::fs::File>,
}

pub type Outcome = Result<(), String>;

impl Src {
    fn make(mode: Mode, want_sample: bool) -> Self {
        Src {
            mode,
            tape: Vec::with_capacity(64),
            bounds: Vec::new(),
            labels: Vec::with_capacity(8),
            nontrivial: None,
            sample: None,
            checks: 0,
            known: Vec::new(),
            want_sample,
            spill: None,
        }
    }
    fn record(&mut self, v: u64, bound: u64) {
        self.tape.push(v);
        if let Mode::Guided(..) = self.mode {
            self.bounds.push(bound);
        }
        if let Some(f) = &mut self.spill {
            use std::io::Write as _;
            let _ = f.write_all(format!("{v}\n").as_bytes());
        }
    }
    pub fn from_tape(tape: Vec<u64>) -> Self {
        Self::make(Mode::Replay(tape), true)
    }

    /// A value in `0..n`; `n == 0` stands for the full 64-bit range. Smaller is simpler.
    pub fn draw(&mut self, n: u64) -> u64 {
        let v = match &mut self.mode {
            Mode::Random(r) => {
                let x = r.next();
                if n == 0 {
                    x
                } else {
                    ((u128::from(x) * u128::from(n)) >> 64) as u64
                }
            }
            Mode::Replay(t) => {
                let x = t.get(self.tape.len()).copied().unwrap_or(0);
                if n == 0 {
                    x
                } else if x >= n {
                    n - 1
                } else {
                    x
                }
            }
            Mode::Guided(t, r) => match t.get(self.tape.len()) {
                Some(&x) if n == 0 => x,
                Some(&x) => x % n,
                None => {
                    let x = r.next();
                    if n == 0 {
                        x
                    } else {
                        ((u128::from(x) * u128::from(n)) >> 64) as u64
                    }
                }
            },
        };
        self.record(v, n);
        v
    }
    /// Occasionally a numeric literal of the code under test, or a neighbour of one: values a
    /// branch may depend on. Only while drawing at random; what lands on the tape is an ordinary value.
    fn from_dictionary(&mut self, lo: f64, hi: f64, odds: u64) -> Option<f64> {
        let r = match &mut self.mode {
            Mode::Random(r) => r,
            Mode::Guided(t, r) if self.tape.len() >= t.len() => r,
            _ => return None,
        };
        let x = r.next();
        if x % odds != 0 {
            return None;
        }
        let d = dictionary();
        let (a, b) = (d.partition_point(|&v| v < lo), d.partition_point(|&v| v <= hi));
        if a >= b {
            return None;
        }
        let (i, k) = ((x >> 8) as u32 as usize, x >> 48);
        let v = d[a + i % (b - a)];
        let v = match k % 4 {
            0 => v - 1.0,
            1 => v + 1.0,
            _ => v,
        };
        (v >= lo && v <= hi).then_some(v)
    }
    /// Inclusive integer range, shrinking towards `lo`.
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        debug_assert!(lo <= hi);
        let span = (hi as i128 - lo as i128 + 1) as u64; // 0 = full range
        if (24..1 << 50).contains(&span) {
            if let Some(v) = self.from_dictionary(lo as f64, hi as f64, 16) {
                let v = v as i64;
                self.record((v - lo) as u64, span);
                return v;
            }
        }
        (i128::from(lo) + i128::from(self.draw(span))) as i64
    }
    /// Inclusive integer range, shrinking towards `origin`.
    pub fn int_near(&mut self, origin: i64, lo: i64, hi: i64) -> i64 {
        let (up, down) = (hi - origin, origin - lo);
        let m = up.min(down);
        if hi - lo >= 24 {
            if let Some(x) = self.from_dictionary(lo as f64, hi as f64, 16) {
                let x = x as i64;
                let k = (x - origin).abs();
                let v = if k > m { k + m } else if x > origin { 2 * k - 1 } else { 2 * k };
                self.record(v as u64, (hi - lo) as u64 + 1);
                return x;
            }
        }
        // zig-zag around the origin while room remains on both sides
        let v = self.draw((hi - lo) as u64 + 1) as i64;
        if v <= 2 * m {
            if v % 2 == 1 {
                origin + (v + 1) / 2
            } else {
                origin - v / 2
            }
        } else if up > down {
            origin + (v - m)
        } else {
            origin - (v - m)
        }
    }
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        self.int(lo as i64, hi as i64) as usize
    }
    pub fn bool(&mut self) -> bool {
        self.draw(2) == 1
    }
    /// true with probability num/den; shrinks to false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den) >= den - num
    }
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut x = self.draw(total);
        for (i, &wi) in w.iter().enumerate() {
            if x < wi {
                return i;
            }
            x -= wi;
        }
        w.len() - 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.draw(xs.len() as u64) as usize;
        &xs[i]
    }
    /// A finite float in `[lo, hi]`: mostly on coarse binary grids (short decimal shapes, exact
    /// arithmetic), otherwise with a full random mantissa.
    pub fn f64(&mut self, lo: f64, hi: f64) -> f64 {
        match self.weighted(&[3, 2, 5]) {
            0 => {
                let k = self.draw(17) as f64;
                lo + (hi - lo) * (k / 16.0)
            }
            1 => {
                let k = self.draw(1001) as f64;
                lo + (hi - lo) * (k / 1000.0)
            }
            _ => {
                let k = match self.from_dictionary(lo, hi, 16) {
                    Some(v) => {
                        let k = (((v - lo) / (hi - lo) * 9_007_199_254_740_992.0) as u64).min((1 << 53) - 1);
                        self.record(k, 1 << 53);
                        k as f64
                    }
                    None => self.draw(1 << 53) as f64,
                };
                lo + (hi - lo) * (k / 9_007_199_254_740_992.0)
            }
        }
    }
    /// A positive float whose logarithm is evenly spread over the range.
    pub fn log_f64(&mut self, lo: f64, hi: f64) -> f64 {
        let k = self.draw(1 << 40) as f64 / (1u64 << 40) as f64;
        (lo.ln() + (hi.ln() - lo.ln()) * k).exp()
    }

    // ---- bookkeeping for the evidence file

    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.labels.push(l);
        }
    }
    /// Marks the case as non-trivial; `key` identifies it for the distinct count.
    pub fn nontrivial(&mut self, key: u64) {
        self.nontrivial = Some(key);
    }
    pub fn tape_key(&self) -> u64 {
        self.tape.iter().fold(7, |h, &v| mix(h, v))
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample {
            self.sample = Some(f());
        }
    }
    pub fn checked(&mut self, n: u64) {
        self.checks += n;
    }
    pub fn known(&mut self, key: &str, detail: String) {
        self.known.push((key.to_string(), detail));
    }
}

#[macro_export]
macro_rules! fail { ($($t:tt)*) => { return Err(format!($($t)*)) } }

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)) } }
}

// ----------------------------------------------------------------------------------- properties

#[derive(Clone, Copy)]
pub enum Kind {
    /// `quick` / `thorough` number of generated cases.
    Random { quick: u64, thorough: u64 },
    /// Every index in `0..count` is run once, in both tiers; the index is the whole tape.
    Enumerate { count: u64 },
}

pub struct Sub {
    pub name: &'static str,
    pub kind: Kind,
    pub run: fn(&mut Src) -> Outcome,
    /// left out of the guided search: starts threads, or is about volume
    pub unguided: bool,
}

pub fn gen(name: &'static str, quick: u64, thorough: u64, run: fn(&mut Src) -> Outcome) -> Sub {
    Sub { name, kind: Kind::Random { quick, thorough }, run, unguided: false }
}
pub fn threaded(name: &'static str, quick: u64, thorough: u64, run: fn(&mut Src) -> Outcome) -> Sub {
    gen(name, quick, thorough, run).unguided()
}
impl Sub {
    pub fn unguided(self) -> Self {
        Sub { unguided: true, ..self }
    }
}
pub fn sweep(name: &'static str, count: u64, run: fn(&mut Src) -> Outcome) -> Sub {
    Sub { name, kind: Kind::Enumerate { count }, run, unguided: false }
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    checks: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<String>,
    known: BTreeMap<String, (u64, String)>,
}

struct Failure {
    sub: usize,
    order: u64,
    tape: Vec<u64>,
    msg: String,
    /// it hangs or crashes and must only be run in a process of its own
    solo: bool,
}

thread_local! {
    static PANIC_AT: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}:{}", l.file(), l.line(), l.column()))
            .unwrap_or_default();
        PANIC_AT.with(|p| *p.borrow_mut() = loc);
    }));
}

/// Runs one case; a panic anywhere inside counts as a failure of the property.
pub fn run_case(run: fn(&mut Src) -> Outcome, src: &mut Src) -> Outcome {
    match catch_unwind(AssertUnwindSafe(|| run(src))) {
        Ok(r) => r,
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| (*s).to_string()))
                .unwrap_or_else(|| "non-string panic".into());
            let at = PANIC_AT.with(|p| p.borrow().clone());
            Err(format!("panic: {m} (at {at})"))
        }
    }
}

fn shrink(run: fn(&mut Src) -> Outcome, tape: Vec<u64>, msg: String) -> (Vec<u64>, String) {
    shrink_with(
        &mut |cand| {
            let mut s = Src::from_tape(cand);
            s.want_sample = false;
            run_case(run, &mut s).err().map(|m| (s.tape, m))
        },
        tape,
        msg,
        6000,
        20,
    )
}

/// `fails` runs a candidate tape and returns the tape it really used and the message if it fails.
fn shrink_with(
    fails: &mut dyn FnMut(Vec<u64>) -> Option<(Vec<u64>, String)>,
    tape: Vec<u64>,
    msg: String,
    mut budget: i64,
    seconds: u64,
) -> (Vec<u64>, String) {
    let mut best = tape;
    let mut best_msg = msg;
    let start = Instant::now();
    let mut attempt = |cand: Vec<u64>, best: &mut Vec<u64>, best_msg: &mut String| -> bool {
        if budget <= 0 || start.elapsed().as_secs() > seconds {
            return false;
        }
        budget -= 1;
        if let Some((mut t, m)) = fails(cand) {
            while t.last() == Some(&0) {
                t.pop();
            }
            if (t.len(), &t) < (best.len(), &*best) {
                *best = t;
                *best_msg = m;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // delete blocks
        for size in [16usize, 8, 4, 3, 2, 1] {
            let mut i = 0;
            while i + size <= best.len() {
                let mut c = best.clone();
                c.drain(i..i + size);
                if !attempt(c, &mut best, &mut best_msg) {
                    i += 1;
                }
            }
        }
        // minimise single entries
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            if v > 0 {
                let mut c = best.clone();
                c[i] = 0;
                if !attempt(c, &mut best, &mut best_msg) {
                    // binary search towards the smallest failing value
                    let (mut lo, mut hi) = (0u64, v);
                    while hi - lo > 1 && i < best.len() {
                        let mid = lo + (hi - lo) / 2;
                        let mut c = best.clone();
                        c[i] = mid;
                        if attempt(c, &mut best, &mut best_msg) {
                            hi = mid;
                        } else {
                            lo = mid;
                        }
                    }
                    if i < best.len() && best[i] > 0 {
                        let mut c = best.clone();
                        c[i] -= 1;
                        attempt(c, &mut best, &mut best_msg);
                    }
                }
            }
            i += 1;
        }
        if best == before {
            return (best, best_msg);
        }
    }
}

const SHARDS: u64 = 32;
/// Distinct non-trivial cases are counted up to this many per shard (a lower bound beyond it).
const DISTINCT_CAP: usize = 60_000;
const THREADS: usize = 8;

pub struct Config {
    pub root: String,
    pub seed: u64,
    pub thorough: bool,
    pub scale: f64,
}

impl Config {
    pub fn from_env() -> Self {
        let get = |k: &str| std::env::var(k).ok();
        let thorough = get("VERIF_TIER").as_deref() == Some("thorough");
        Config {
            root: get("VERIF_ROOT").unwrap_or_else(|| "/verif".into()),
            seed: get("VERIF_SEED").and_then(|s| s.trim().parse().ok()).unwrap_or(1),
            thorough,
            scale: get("VERIF_SCALE").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 8.0 } else { 20.0 }),
        }
    }
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Keys listed for `property` in the committed known-findings file.
fn known_listed(root: &str, property: &str) -> BTreeSet<String> {
    let text = std::fs::read_to_string(format!("{root}/known_findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| l.strip_prefix("known: "))
        .filter_map(|l| {
            let mut it = l.split_whitespace();
            let p = it.next()?.strip_prefix("property=")?;
            let k = it.next()?.strip_prefix("key=")?;
            (p == property).then(|| k.to_string())
        })
        .collect()
}

/// Runs a property and returns the process exit code.
pub fn check(p: &Property, cfg: &Config) -> i32 {
    install_panic_hook();
    let start = Instant::now();
    let done = std::sync::Arc::new(AtomicBool::new(false));
    let slots = Slots::open(std::env::var("VERIF_SLOTS").ok()).0;
    {
        // Running out of time as a whole is an error of the check, never a verdict; a single case
        // that hangs or devours memory ends this process and is examined by the supervisor.
        let done = done.clone();
        let limit = if cfg.thorough { 6 * 3600 } else { 780 };
        std::thread::spawn(move || {
            while start.elapsed().as_secs() < limit {
                std::thread::sleep(std::time::Duration::from_millis(100));
                if done.load(Ordering::Relaxed) {
                    return;
                }
                let now = start.elapsed().as_secs();
                if slots.iter().any(|s| {
                    let t = s[0].load(Ordering::Relaxed);
                    t > 0 && now > t + HANG_SECONDS
                }) || resident_bytes() > CHECK_BYTES
                {
                    std::process::exit(STUCK);
                }
            }
            eprintln!("ERROR: watchdog after {limit} s");
            std::process::exit(2);
        });
    }

    // job = (sub index, shard)
    let mut jobs = Vec::new();
    for (i, sub) in p.subs.iter().enumerate() {
        let shards = match sub.kind {
            Kind::Random { .. } => SHARDS,
            Kind::Enumerate { count } => count.min(SHARDS).max(1),
        };
        for s in 0..shards {
            jobs.push((i, s, shards));
        }
    }
    let next = AtomicU64::new(0);
    let results: Mutex<Vec<(usize, u64, Stats, Option<Failure>)>> = Mutex::new(Vec::new());
    std::thread::scope(|scope| {
        for thread in 0..THREADS {
            let (next, results, jobs) = (&next, &results, &jobs);
            let body = move || {
                let slot = Slot { words: &slots[thread], start };
                loop {
                    let j = next.fetch_add(1, Ordering::Relaxed) as usize;
                    let Some(&(si, shard, shards)) = jobs.get(j) else { break };
                    let (st, fl) = run_shard(p, si, shard, shards, cfg, &slot);
                    results.lock().unwrap().push((si, shard, st, fl));
                }
            };
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(scope, body).unwrap();
        }
    });
    let mut results = results.into_inner().unwrap();
    results.sort_by_key(|r| (r.0, r.1));

    let mut total = Stats::default();
    let mut failures: Vec<Failure> = Vec::new();
    let mut per_sub: BTreeMap<usize, (u64, u64)> = BTreeMap::new();
    let mut samples_by_sub: BTreeMap<usize, Vec<String>> = BTreeMap::new();
    for (si, _, st, fl) in results {
        total.evaluations += st.evaluations;
        total.checks += st.checks;
        total.nontrivial += st.nontrivial;
        let e = per_sub.entry(si).or_default();
        e.0 += st.evaluations;
        e.1 += st.nontrivial;
        let sh = hash_str(p.subs[si].name);
        total.distinct.extend(st.distinct.into_iter().map(|k| mix(sh, k)));
        for (k, v) in st.labels {
            *total.labels.entry(k).or_default() += v;
        }
        let sv = samples_by_sub.entry(si).or_default();
        for s in st.samples {
            if sv.len() < 3 {
                sv.push(format!("[{}] {s}", p.subs[si].name));
            }
        }
        for (k, (n, d)) in st.known {
            let e = total.known.entry(k).or_insert((0, d));
            e.0 += n;
        }
        failures.extend(fl);
    }
    total.samples = samples_by_sub.into_values().flatten().collect();
    let mut guided = None;
    if failures.is_empty() {
        if let Some(exe) = std::env::var_os("VERIF_GUIDED") {
            let (found, totals) = guided_stage(p, cfg, std::path::Path::new(&exe));
            failures = found;
            guided = Some(totals);
        }
    }

    let listed = known_listed(&cfg.root, p.id);
    let mut violations = 0;
    let mut code = 0;
    for (k, (n, d)) in &total.known {
        if listed.contains(k) {
            println!("KNOWN-FINDING: property={} {} ({} cases, e.g. {})", p.id, k, n, d);
        } else {
            let path = write_replay(cfg, p.id, "known", k, &[], &format!("{k}: {d}"));
            println!("VIOLATION property={} replay={}", p.id, path);
            println!("  unlisted finding {k}: {d}");
            violations += 1;
            code = 1;
        }
    }
    // One report per sub-check: the first failing shard, shrunk.
    let mut seen = BTreeSet::new();
    failures.sort_by_key(|f| (f.sub, f.order));
    for f in failures {
        if !seen.insert(f.sub) {
            continue;
        }
        let sub = &p.subs[f.sub];
        let (tape, msg) = match sub.kind {
            Kind::Random { .. } if f.solo => shrink_solo(p, f.sub, f.tape, f.msg, &format!("{}/target/spill-{}-{}", cfg.root, p.id, std::process::id())),
            Kind::Random { .. } => shrink(sub.run, f.tape, f.msg),
            Kind::Enumerate { .. } => (f.tape, f.msg),
        };
        let case = if f.solo {
            String::new()
        } else {
            let mut s = Src::from_tape(tape.clone());
            let _ = run_case(sub.run, &mut s);
            s.sample.unwrap_or_default()
        };
        let path = write_replay(cfg, p.id, sub.name, "", &tape, &format!("{msg}\ncase: {case}"));
        println!("VIOLATION property={} replay={}", p.id, path);
        println!("  [{}] {}", sub.name, msg);
        if !case.is_empty() {
            println!("  case: {case}");
        }
        violations += 1;
        code = 1;
    }
    done.store(true, Ordering::Relaxed);
    write_evidence(p, cfg, &total, &per_sub, guided.as_ref(), violations, start.elapsed().as_secs_f64());
    println!(
        "{}: {} cases, {} comparisons, {} distinct non-trivial, {} violations, {:.1} s{}",
        p.id,
        total.evaluations,
        total.checks,
        total.distinct.len(),
        violations,
        start.elapsed().as_secs_f64(),
        guided.map_or(String::new(), |g| format!(" (guided: {} cases, {} kept, {} features, {:.1} s)", g.cases, g.corpus, g.features, g.wall))
    );
    code
}

/// The source of one case: an index of an enumeration or the seed of a generated case.
fn case_source(sub: &Sub, case: u64, want_sample: bool) -> Src {
    match sub.kind {
        Kind::Enumerate { .. } => Src::make(Mode::Replay(vec![case]), want_sample),
        Kind::Random { .. } => Src::make(Mode::Random(Rng::new(case)), want_sample),
    }
}

// ---------------------------------------------------------------------------------- supervision
//
// A violation may also be a hang, a stack overflow or unbounded memory, which no catch_unwind
// stops. `check` therefore runs the search in a child process. Each worker notes its current case
// in a file; when the child ends abnormally, the supervisor re-runs the noted cases one by one in
// processes of their own, and the one that ends abnormally again is the violation.

/// A case takes milliseconds; one that takes this long hangs.
const HANG_SECONDS: u64 = 60;
const CHECK_BYTES: u64 = 14 << 30;
const CASE_BYTES: u64 = 2 << 30;
/// Exit code of a search that met a hanging or memory devouring case.
const STUCK: i32 = 7;

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

/// What each worker is doing: start second (0 = idle), sub-check, case. Lives in a shared mapping
/// of the slots file, so that it survives the process.
struct Slots(&'static [[AtomicU64; 3]; THREADS]);

impl Slots {
    fn open(path: Option<String>) -> Self {
        use std::os::fd::AsRawFd;
        let file = path.and_then(|p| std::fs::OpenOptions::new().read(true).write(true).open(p).ok());
        if let Some(f) = file {
            let len = std::mem::size_of::<[[AtomicU64; 3]; THREADS]>();
            // PROT_READ | PROT_WRITE, MAP_SHARED; the file was created with this length.
            let p = unsafe { mmap(std::ptr::null_mut(), len, 3, 1, f.as_raw_fd(), 0) };
            if p as isize != -1 {
                return Slots(unsafe { &*p.cast() });
            }
        }
        Slots(Box::leak(Box::default()))
    }
}

fn resident_bytes() -> u64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split_whitespace().nth(1)?.parse::<u64>().ok())
        .map_or(0, |pages| pages * 4096)
}

struct Slot<'a> {
    words: &'a [AtomicU64; 3],
    start: Instant,
}

impl Slot<'_> {
    fn enter(&self, sub: u64, case: u64) {
        self.words[1].store(sub, Ordering::Relaxed);
        self.words[2].store(case, Ordering::Relaxed);
        self.words[0].store(self.start.elapsed().as_secs() + 1, Ordering::Relaxed);
    }
    fn leave(&self) {
        self.words[0].store(0, Ordering::Relaxed);
    }
}

/// How a single case run in a process of its own ended.
enum Solo {
    Ended,
    Bad(String),
}

fn run_solo(args: &[String], seconds: u64) -> Solo {
    let exe = std::env::current_exe().expect("own path");
    let Ok(mut child) = std::process::Command::new(exe)
        .args(args)
        .env("VERIF_WORKER", "1")
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .spawn()
    else {
        return Solo::Ended;
    };
    let start = Instant::now();
    loop {
        match child.try_wait() {
            Ok(Some(st)) => {
                return match st.code() {
                    Some(0 | 1) => Solo::Ended,
                    Some(STUCK) => Solo::Bad("memory grows without bound".into()),
                    _ => Solo::Bad(format!("the process dies ({st})")),
                }
            }
            Ok(None) if start.elapsed().as_secs() >= seconds => {
                let _ = child.kill();
                let _ = child.wait();
                return Solo::Bad(format!("no result within {seconds} s"));
            }
            Ok(None) => std::thread::sleep(std::time::Duration::from_millis(5)),
            Err(_) => return Solo::Ended,
        }
    }
}

/// `case <ID> <sub index> tape|seed <value> <spill file>`: one case in this process.
fn solo(props: &[Property], args: &[String]) -> i32 {
    install_panic_hook();
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_millis(20));
        if resident_bytes() > CASE_BYTES {
            std::process::exit(STUCK);
        }
    });
    let Some(p) = props.iter().find(|p| p.id == args[0]) else { return 2 };
    let Some(sub) = args[1].parse::<usize>().ok().and_then(|i| p.subs.get(i)) else { return 2 };
    let mut src = if args[2] == "seed" {
        case_source(sub, args[3].parse().unwrap_or(0), false)
    } else if args[2] == "guided" {
        let Some(src) = Note::read(&args[3]) else { return 2 };
        src
    } else {
        Src::from_tape(args[3].split(',').filter_map(|x| x.parse().ok()).collect())
    };
    src.want_sample = false;
    src.spill = args.get(4).and_then(|f| std::fs::File::create(f).ok());
    let run = sub.run;
    let r = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || run_case(run, &mut src))
        .map(std::thread::JoinHandle::join);
    match r {
        Ok(Ok(Ok(()))) => 0,
        Ok(Ok(Err(_))) => 1,
        _ => 2,
    }
}

fn read_tape(path: &str) -> Vec<u64> {
    std::fs::read_to_string(path)
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.parse().ok())
        .collect()
}

fn shrink_solo(p: &Property, si: usize, tape: Vec<u64>, msg: String, spill: &str) -> (Vec<u64>, String) {
    let r = shrink_with(
        &mut |cand| {
            let v = cand.iter().map(u64::to_string).collect::<Vec<_>>().join(",");
            match run_solo(&["case".into(), p.id.into(), si.to_string(), "tape".into(), v, spill.into()], 5) {
                Solo::Bad(m) => Some((read_tape(spill), m)),
                Solo::Ended => None,
            }
        },
        tape,
        msg,
        400,
        60,
    );
    let _ = std::fs::remove_file(spill);
    r
}

// ------------------------------------------------------------------------------- guided search

struct Guided {
    cases: u64,
    corpus: u64,
    features: u64,
    wall: f64,
}

/// Guided cases as a share of the generated ones.
const GUIDED_SHARE: f64 = 0.1;

/// Runs the guided search of every generated sub-check in processes of the instrumented build.
fn guided_stage(p: &Property, cfg: &Config, exe: &std::path::Path) -> (Vec<Failure>, Guided) {
    let start = Instant::now();
    let subs: Vec<usize> = (0..p.subs.len()).filter(|&i| matches!(p.subs[i].kind, Kind::Random { .. }) && !p.subs[i].unguided).collect();
    let replicas = (THREADS / subs.len().max(1)).max(2);
    let mut jobs = Vec::new();
    for r in 0..replicas {
        jobs.extend(subs.iter().map(|&s| (s, r)));
    }
    let rounds = jobs.len().div_ceil(THREADS).max(1);
    let limit = if cfg.thorough { 1_800 } else { 24 } / rounds as u64 + 1;
    let next = AtomicU64::new(0);
    let out = Mutex::new((Vec::new(), Guided { cases: 0, corpus: 0, features: 0, wall: 0.0 }));
    std::thread::scope(|scope| {
        for _ in 0..THREADS {
            scope.spawn(|| loop {
                let Some(&(si, r)) = jobs.get(next.fetch_add(1, Ordering::Relaxed) as usize) else { break };
                let sub = &p.subs[si];
                let Kind::Random { quick, thorough } = sub.kind else { continue };
                let n = if cfg.thorough { thorough } else { quick } as f64 * cfg.scale * GUIDED_SHARE / replicas as f64;
                let seed = mix(mix(mix(hash_str(p.id), hash_str(sub.name)), cfg.seed), 1_000_000 + r as u64);
                let note = format!("{}/target/guided-{}-{si}-{r}-{}", cfg.root, p.id, std::process::id());
                let made = std::process::Command::new(exe)
                    .args(["guided", p.id, &si.to_string(), &seed.to_string(), &(n.ceil() as u64).to_string(), &limit.to_string(), &note])
                    .env("VERIF_WORKER", "1")
                    .stderr(std::process::Stdio::null())
                    .output();
                if let Ok(o) = made {
                    let text = String::from_utf8_lossy(&o.stdout);
                    let mut lines = text.lines();
                    let counts: Vec<u64> = lines.next().unwrap_or("").split(' ').filter_map(|x| x.parse().ok()).collect();
                    let lock = &out;
                    let mut out = lock.lock().unwrap();
                    if let [cases, corpus, features] = counts[..] {
                        out.1.cases += cases;
                        out.1.corpus += corpus;
                        out.1.features += features;
                        if let Some(tape) = lines.next().and_then(|l| l.strip_prefix("tape=")) {
                            let tape = tape.split(',').filter_map(|x| x.parse().ok()).collect();
                            let msg = lines.collect::<Vec<_>>().join("\n");
                            out.0.push(Failure { sub: si, order: r as u64, tape, msg, solo: false });
                        }
                    } else if o.status.code() != Some(0) {
                        // it died or got stuck: is it the case that it noted last?
                        drop(out);
                        let spill = format!("{note}.tape");
                        let args = ["case".into(), p.id.into(), si.to_string(), "guided".into(), note.clone(), spill.clone()];
                        if let Solo::Bad(msg) = run_solo(&args, HANG_SECONDS) {
                            lock.lock().unwrap().0.push(Failure { sub: si, order: r as u64, tape: read_tape(&spill), msg, solo: true });
                        }
                        let _ = std::fs::remove_file(&spill);
                    }
                }
                let _ = std::fs::remove_file(&note);
            });
        }
    });
    let (failures, mut totals) = out.into_inner().unwrap();
    totals.wall = start.elapsed().as_secs_f64();
    (failures, totals)
}

/// The input of the case that a guided search is on, in a shared mapping: seed, length, entries.
struct Note {
    words: &'static [AtomicU64],
}

impl Note {
    fn create(path: &str) -> Option<Self> {
        use std::os::fd::AsRawFd;
        let len = 8 * (guided::LONGEST + 16);
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).ok()?;
        f.set_len(len as u64).ok()?;
        let p = unsafe { mmap(std::ptr::null_mut(), len, 3, 1, f.as_raw_fd(), 0) };
        (p as isize != -1).then(|| Note { words: unsafe { std::slice::from_raw_parts(p.cast(), len / 8) } })
    }
    fn write(&self, input: &[u64], rest: u64) {
        self.words[0].store(rest, Ordering::Relaxed);
        self.words[1].store(input.len() as u64, Ordering::Relaxed);
        for (w, &x) in self.words[2..].iter().zip(input) {
            w.store(x, Ordering::Relaxed);
        }
    }
    fn read(path: &str) -> Option<Src> {
        let bytes = std::fs::read(path).ok()?;
        let w: Vec<u64> = bytes.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
        let n = usize::try_from(*w.get(1)?).ok()?;
        Some(Src::make(Mode::Guided(w.get(2..2 + n)?.to_vec(), Rng::new(w[0])), false))
    }
}

/// `guided <ID> <sub index> <seed> <cases> <seconds> <note file>` in the instrumented build.
fn guided_main(props: &[Property], args: &[String]) -> i32 {
    install_panic_hook();
    let num = |i: usize| args.get(i).and_then(|x| x.parse::<u64>().ok());
    let (Some(si), Some(seed), Some(cases), Some(limit), Some(path)) = (num(1), num(2), num(3), num(4), args.get(5)) else { return 2 };
    let Some(sub) = props.iter().find(|p| p.id == args[0]).and_then(|p| p.subs.get(si as usize)) else { return 2 };
    let Some(note) = Note::create(path) else { return 2 };
    let (start, begun) = (Instant::now(), AtomicU64::new(0));
    let begun: &'static AtomicU64 = Box::leak(Box::new(begun));
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(100));
        if start.elapsed().as_secs() > begun.load(Ordering::Relaxed) + HANG_SECONDS || resident_bytes() > CASE_BYTES {
            std::process::exit(STUCK);
        }
    });
    std::thread::scope(|scope| {
        let body = || {
            let mut write = |input: &[u64], rest: u64| {
                begun.store(start.elapsed().as_secs(), Ordering::Relaxed);
                note.write(input, rest);
            };
            guided::search(sub, seed, cases, std::time::Duration::from_secs(limit), &mut write)
        };
        let worker = std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(scope, body).unwrap();
        match worker.join() {
            Ok(Some(f)) => {
                println!("{} {} {}", f.cases, f.corpus, f.features);
                if let Some((tape, msg)) = f.failure {
                    println!("tape={}", tape.iter().map(u64::to_string).collect::<Vec<_>>().join(","));
                    println!("{msg}");
                }
                0
            }
            _ => 2,
        }
    })
}

/// Runs the search in a child process and examines an abnormal end of it.
fn supervise(p: &Property, cfg: &Config) -> i32 {
    let start = Instant::now();
    let pid = std::process::id();
    let slots = format!("{}/target/slots-{}-{pid}", cfg.root, p.id);
    let spill = format!("{}/target/spill-{}-{pid}", cfg.root, p.id);
    let _ = std::fs::create_dir_all(format!("{}/target", cfg.root));
    let _ = std::fs::write(&slots, [0u8; 24 * THREADS]);
    let status = std::env::current_exe().and_then(|exe| {
        std::process::Command::new(exe)
            .args(["check", p.id])
            .env("VERIF_WORKER", "1")
            .env("VERIF_SLOTS", &slots)
            .status()
    });
    let words: Vec<u64> = std::fs::read(&slots)
        .unwrap_or_default()
        .chunks_exact(8)
        .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
        .collect();
    let _ = std::fs::remove_file(&slots);
    let status = match status {
        Ok(s) => s,
        Err(e) => {
            eprintln!("ERROR: {e}");
            return 2;
        }
    };
    if let Some(c @ (0..=2)) = status.code() {
        return c;
    }
    println!("{}: the search ended abnormally ({status}); looking for the case", p.id);
    for w in words.chunks_exact(3).filter(|w| w[0] > 0) {
        let Some(sub) = p.subs.get(w[1] as usize) else { continue };
        let arg = |kind: &str, value: String| -> Vec<String> {
            vec!["case".into(), p.id.into(), w[1].to_string(), kind.into(), value, spill.clone()]
        };
        let Solo::Bad(msg) = run_solo(&arg("seed", w[2].to_string()), HANG_SECONDS) else { continue };
        let tape = read_tape(&spill);
        let (tape, msg) = match sub.kind {
            Kind::Enumerate { .. } => (vec![w[2]], msg),
            Kind::Random { .. } => shrink_solo(p, w[1] as usize, tape, msg, &spill),
        };
        let _ = std::fs::remove_file(&spill);
        let path = write_replay(cfg, p.id, sub.name, "", &tape, &msg);
        println!("VIOLATION property={} replay={path}", p.id);
        println!("  [{}] {msg}", sub.name);
        let mut st = Stats { evaluations: 1, ..Stats::default() };
        st.samples.push(format!("[{}] {msg}, tape {tape:?}", sub.name));
        write_evidence(p, cfg, &st, &BTreeMap::new(), None, 1, start.elapsed().as_secs_f64());
        return 1;
    }
    let _ = std::fs::remove_file(&spill);
    eprintln!("ERROR: no single case reproduces it");
    2
}

fn run_shard(
    p: &Property,
    si: usize,
    shard: u64,
    shards: u64,
    cfg: &Config,
    slot: &Slot,
) -> (Stats, Option<Failure>) {
    let sub = &p.subs[si];
    let mut st = Stats::default();
    let (n, enumerate) = match sub.kind {
        Kind::Random { quick, thorough } => {
            let t = if cfg.thorough { thorough } else { quick };
            (((t as f64 * cfg.scale) as u64).div_ceil(shards), false)
        }
        Kind::Enumerate { count } => {
            ((count + shards - 1 - shard) / shards, true)
        }
    };
    let seed = mix(mix(mix(hash_str(p.id), hash_str(sub.name)), cfg.seed), shard);
    let mut rng = Rng::new(seed);
    let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut failure = None;
    for i in 0..n {
        let case = if enumerate { i * shards + shard } else { rng.next() };
        slot.enter(si as u64, case);
        let mut src = case_source(sub, case, st.samples.len() < 2);
        let r = run_case(sub.run, &mut src);
        slot.leave();
        st.evaluations += 1;
        st.checks += src.checks;
        for l in &src.labels {
            *labels.entry(l).or_default() += 1;
        }
        for (k, d) in src.known {
            let e = st.known.entry(k).or_insert((0, d));
            e.0 += 1;
        }
        if let Err(msg) = r {
            failure = Some(Failure { sub: si, order: shard, tape: src.tape, msg, solo: false });
            break;
        }
        if let Some(k) = src.nontrivial {
            st.nontrivial += 1;
            if st.distinct.len() < DISTINCT_CAP {
                st.distinct.insert(k);
            }
            if let Some(s) = src.sample {
                st.samples.push(s);
            }
        }
    }
    st.labels.extend(labels.into_iter().map(|(l, n)| (format!("{}/{l}", sub.name), n)));
    (st, failure)
}

fn write_replay(cfg: &Config, id: &str, sub: &str, key: &str, tape: &[u64], msg: &str) -> String {
    let dir = format!("{}/replays", cfg.root);
    let _ = std::fs::create_dir_all(&dir);
    let tape: Vec<String> = tape.iter().map(u64::to_string).collect();
    let body = format!(
        "property={id}\nsub={sub}\nkey={key}\ntape={}\n---\n{msg}\n",
        tape.join(",")
    );
    let path = format!("{dir}/{id}-{sub}-{:08x}.txt", hash_str(&body) as u32);
    let _ = std::fs::write(&path, body);
    path
}

/// Re-runs a replay file: exit code 1 if it still fails, 0 if not.
pub fn replay(props: &[Property], path: &str) -> i32 {
    install_panic_hook();
    let text = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{path}: {e}");
            return 2;
        }
    };
    let field = |k: &str| {
        text.lines()
            .find_map(|l| l.strip_prefix(k))
            .unwrap_or("")
            .to_string()
    };
    let (id, sub) = (field("property="), field("sub="));
    let tape: Vec<u64> = field("tape=").split(',').filter_map(|x| x.parse().ok()).collect();
    for p in props.iter().filter(|p| p.id == id) {
        for (i, s) in p.subs.iter().enumerate().filter(|(_, s)| s.name == sub) {
            let args = ["case".into(), id.clone(), i.to_string(), "tape".into(), field("tape=")];
            if let Solo::Bad(m) = run_solo(&args, HANG_SECONDS) {
                println!("VIOLATION property={id} replay={path}\n  [{sub}] {m}");
                return 1;
            }
            let mut src = Src::from_tape(tape.clone());
            let r = run_case(s.run, &mut src);
            if let Some(c) = &src.sample {
                println!("case: {c}");
            }
            return match r {
                Ok(()) => {
                    println!("replay passes");
                    0
                }
                Err(m) => {
                    println!("VIOLATION property={id} replay={path}\n  [{sub}] {m}");
                    1
                }
            };
        }
    }
    2
}

fn write_evidence(
    p: &Property,
    cfg: &Config,
    st: &Stats,
    per_sub: &BTreeMap<usize, (u64, u64)>,
    guided: Option<&Guided>,
    violations: u64,
    wall: f64,
) {
    let mut subs = String::new();
    for (i, s) in p.subs.iter().enumerate() {
        let (e, n) = per_sub.get(&i).copied().unwrap_or_default();
        let kind = match s.kind {
            Kind::Random { .. } => "generated",
            Kind::Enumerate { .. } => "enumerated",
        };
        let _ = write!(
            subs,
            "{}{{\"name\": {}, \"kind\": \"{kind}\", \"cases\": {e}, \"nontrivial\": {n}}}",
            if i > 0 { ", " } else { "" },
            json_str(s.name)
        );
    }
    let labels: Vec<String> =
        st.labels.iter().map(|(k, v)| format!("{}: {v}", json_str(k))).collect();
    let samples: Vec<String> = st.samples.iter().take(24).map(|s| json_str(s)).collect();
    let known: Vec<String> = st.known.iter().map(|(k, (n, _))| format!("{}: {n}", json_str(k))).collect();
    let assumptions: Vec<String> = p.assumptions.iter().map(|s| json_str(s)).collect();
    let body = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"comparisons\": {},\n  \"rule\": {},\n  \"subchecks\": [{}],\n  \"guided\": {},\n  \"classes\": {{{}}},\n  \"known_findings_hit\": {{{}}},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        json_str(p.id),
        json_str(if cfg.thorough { "thorough" } else { "quick" }),
        cfg.seed,
        st.evaluations,
        st.distinct.len(),
        st.checks,
        json_str(p.rule),
        subs,
        guided.map_or("null".to_string(), |g| format!(
            "{{\"cases\": {}, \"kept\": {}, \"features\": {}, \"wall_s\": {:.1}, \"rule\": \"coverage-guided mutation of tapes, in addition to the generated cases counted above\"}}",
            g.cases, g.corpus, g.features, g.wall
        )),
        labels.join(", "),
        known.join(", "),
        samples.join(",\n    "),
        assumptions.join(", "),
        wall,
        violations
    );
    let dir = format!("{}/evidence", cfg.root);
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{dir}/{}.json", p.id), body) {
        eprintln!("ERROR: evidence: {e}");
        std::process::exit(2);
    }
}

/// `check <ID>`, `replay <FILE>`, `list`; `case ...` and `guided ...` are used internally.
pub fn main_with(props: Vec<Property>) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(String::as_str) {
        Some("check") => {
            let id = args.get(2).map_or("", String::as_str);
            match props.iter().find(|p| p.id == id) {
                Some(p) if std::env::var_os("VERIF_WORKER").is_none() => {
                    supervise(p, &Config::from_env())
                }
                Some(p) => check(p, &Config::from_env()),
                None => {
                    eprintln!("unknown property {id}");
                    2
                }
            }
        }
        Some("guided") if args.len() > 7 => guided_main(&props, &args[2..]),
        Some("case") if args.len() > 5 => solo(&props, &args[2..]),
        Some("replay") => replay(&props, args.get(2).map_or("", String::as_str)),
        Some("list") => {
            for p in &props {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: check <ID> | replay <FILE> | list");
            2
        }
    };
    std::process::exit(code);
}
