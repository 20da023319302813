//! Coverage feedback for the guided search: the callbacks of LLVM's SanitizerCoverage, which
//! `run.sh` switches on for the code under test and the properties in a second build
//! (`cov-rustc.sh`). In the plain build nothing calls them.

use std::sync::atomic::{AtomicUsize, Ordering};

/// The counters of the instrumented code, one byte per edge.
static START: AtomicUsize = AtomicUsize::new(0);
static STOP: AtomicUsize = AtomicUsize::new(0);

#[no_mangle]
extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
    // every object announces the same section
    let (a, b) = (START.load(Ordering::Relaxed), STOP.load(Ordering::Relaxed));
    if a == 0 || (start as usize) < a {
        START.store(start as usize, Ordering::Relaxed);
    }
    if stop as usize > b {
        STOP.store(stop as usize, Ordering::Relaxed);
    }
}

/// Comparisons of the code: per place, how close the two sides have come.
const PROFILE: usize = 1 << 18;
const PAIRS: usize = 256;
struct Watch {
    on: bool,
    fresh: bool,
    case: u32,
    work: u64,
    profile: [u64; PROFILE / 64],
    pairs: [(u32, i64, i64); PAIRS],
}
static mut WATCH: Watch = Watch { on: false, fresh: false, case: 0, work: 0, profile: [0; PROFILE / 64], pairs: [(0, 0, 0); PAIRS] };

/// The guided search is single-threaded; properties that start threads are left out of it.
fn watch() -> &'static mut Watch {
    unsafe { &mut *std::ptr::addr_of_mut!(WATCH) }
}

#[inline]
fn compared(a: i64, b: i64, place: usize) {
    let w = watch();
    if !w.on {
        return;
    }
    w.work += 1;
    // relative to the code itself, which is not loaded at the same address every time
    let h = (place.wrapping_sub(compared as *const () as usize) as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    if a != b {
        w.pairs[(h >> 56) as usize % PAIRS] = (w.case, a, b);
    }
    // how many bits the distance has, with its sign
    let d = a.wrapping_sub(b);
    let near = if d == 0 { 0 } else { 2 * (64 - d.unsigned_abs().leading_zeros()) + u32::from(d < 0) };
    let i = ((h >> 20) as usize ^ (near as usize).wrapping_mul(0x9E3B)) % PROFILE;
    let (word, bit) = (i / 64, 1u64 << (i % 64));
    if w.profile[word] & bit == 0 {
        w.profile[word] |= bit;
        w.fresh = true;
    }
}
extern "C" fn compared1(a: u64, b: u64, place: usize) {
    compared(a as u8 as i64, b as u8 as i64, place);
}
extern "C" fn compared2(a: u64, b: u64, place: usize) {
    compared(a as i16 as i64, b as i16 as i64, place);
}
extern "C" fn compared4(a: u64, b: u64, place: usize) {
    compared(a as i32 as i64, b as i32 as i64, place);
}
extern "C" fn compared8(a: u64, b: u64, place: usize) {
    compared(a as i64, b as i64, place);
}
extern "C" fn switched(v: u64, cases: *const u64, place: usize) {
    // cases: how many, width in bits, the values in increasing order
    let cases = unsafe { std::slice::from_raw_parts(cases.add(2), *cases as usize) };
    let i = cases.partition_point(|&c| c < v);
    for k in i.saturating_sub(1)..cases.len().min(i + 2) {
        compared(v as i64, cases[k] as i64, place.wrapping_add(k + 1));
    }
}

macro_rules! callback {
    ($($name:ident $target:ident),*) => { $(
        #[cfg(target_arch = "x86_64")]
        #[unsafe(naked)]
        #[no_mangle]
        extern "C" fn $name(_a: u64, _b: u64) {
            // the place is the address to return to
            std::arch::naked_asm!("mov rdx, [rsp]", "jmp {}", sym $target)
        }
        #[cfg(not(target_arch = "x86_64"))]
        #[no_mangle]
        extern "C" fn $name(a: u64, b: u64) {
            $target(a, b, 0)
        }
    )* };
}
extern "C" fn switched_raw(v: u64, cases: u64, place: usize) {
    switched(v, cases as *const u64, place);
}
callback!(
    __sanitizer_cov_trace_cmp1 compared1,
    __sanitizer_cov_trace_cmp2 compared2,
    __sanitizer_cov_trace_cmp4 compared4,
    __sanitizer_cov_trace_cmp8 compared8,
    __sanitizer_cov_trace_const_cmp1 compared1,
    __sanitizer_cov_trace_const_cmp2 compared2,
    __sanitizer_cov_trace_const_cmp4 compared4,
    __sanitizer_cov_trace_const_cmp8 compared8,
    __sanitizer_cov_trace_switch switched_raw
);

/// What has been seen so far, and how to tell whether a case showed anything new.
pub struct Coverage {
    seen: Vec<u8>,
    features: u64,
}

impl Coverage {
    /// None in the plain build.
    pub fn new() -> Option<Self> {
        let n = STOP.load(Ordering::Relaxed).checked_sub(START.load(Ordering::Relaxed))?;
        let w = watch();
        w.profile.fill(0);
        let cov = (n > 0).then(|| Coverage { seen: vec![0; n], features: 0 })?;
        cov.counters().fill(0);
        Some(cov)
    }
    /// The counters are zero between cases, but for what the engine's own bookkeeping runs through.
    pub fn begin(&mut self) {
        let w = watch();
        w.case = w.case.wrapping_add(1);
        w.fresh = false;
        w.work = 0;
        w.on = true;
    }
    /// Ends the case: did it show anything new?
    pub fn end(&mut self) -> bool {
        let w = watch();
        w.on = false;
        let mut new = w.fresh;
        let counters = self.counters();
        let mut found = 0;
        for (i, chunk) in counters.chunks_mut(64).enumerate() {
            let mut words = chunk.chunks_exact(8).map(|w| u64::from_ne_bytes(w.try_into().unwrap()));
            if chunk.len() == 64 && words.all(|w| w == 0) {
                continue;
            }
            for (s, c) in self.seen[64 * i..].iter_mut().zip(chunk) {
                let bucket = match std::mem::take(c) {
                    0 => continue,
                    1 => 1,
                    2 => 2,
                    3 => 4,
                    4..=7 => 8,
                    8..=15 => 16,
                    16..=31 => 32,
                    32..=127 => 64,
                    _ => 128u8,
                };
                if *s & bucket == 0 {
                    *s |= bucket;
                    found += 1;
                }
            }
        }
        new |= found > 0;
        self.features += found;
        new
    }
    fn counters(&self) -> &'static mut [u8] {
        let p = START.load(Ordering::Relaxed) as *mut u8;
        unsafe { std::slice::from_raw_parts_mut(p, self.seen.len()) }
    }
    /// The two sides of comparisons in the case just ended that were not equal.
    pub fn pairs(&self) -> Vec<(i64, i64)> {
        let w = watch();
        w.pairs.iter().filter(|p| p.0 == w.case).map(|p| (p.1, p.2)).collect()
    }
    /// How many comparisons the case just ended made.
    pub fn work(&self) -> u64 {
        watch().work
    }
    pub fn features(&self) -> u64 {
        self.features + watch().profile.iter().map(|w| u64::from(w.count_ones())).sum::<u64>()
    }
}
