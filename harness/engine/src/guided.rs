//! The guided search: tapes that reach new code, or bring the two sides of some comparison closer
//! together than before, are kept and mutated further.

use crate::cov::Coverage;
use crate::{run_case, Mode, Rng, Src, Sub};
use std::time::{Duration, Instant};

struct Entry {
    tape: Vec<u64>,
    bounds: Vec<u64>,
    pairs: Vec<(i64, i64)>,
    work: u64,
}

const CORPUS: usize = 6_000;
pub const LONGEST: usize = 20_000;

fn mutate(rng: &mut Rng, corpus: &[Entry]) -> Vec<u64> {
    let pick = |rng: &mut Rng, n: usize| ((u128::from(rng.next()) * n as u128) >> 64) as usize;
    let n = corpus.len();
    // newer entries, and those that cost less, more often
    let recent = rng.next() % 2 == 0;
    let one = |rng: &mut Rng| if recent { n - 1 - pick(rng, n.min(64)) } else { pick(rng, n) };
    let (i, j) = (one(rng), one(rng));
    let e = &corpus[if rng.next() % 4 != 0 && corpus[j].work < corpus[i].work { j } else { i }];
    let mut t = e.tape.clone();
    if t.is_empty() {
        return t;
    }
    let rounds = [1, 1, 1, 2, 2, 3, 4, 8][pick(rng, 8)];
    for _ in 0..rounds {
        if t.is_empty() {
            break;
        }
        let i = pick(rng, t.len());
        let bound = |i: usize| e.bounds.get(i).copied().unwrap_or(0);
        let below = |rng: &mut Rng, b: u64| if b == 0 { rng.next() } else { rng.next() % b };
        match pick(rng, 14) {
            0 | 1 => t[i] = below(rng, bound(i)),
            2 => t[i] = t[i].wrapping_add(1 + rng.next() % 16),
            3 => t[i] = t[i].saturating_sub(1 + rng.next() % 16),
            4 => t[i] ^= 1 << (rng.next() % u64::from(64 - bound(i).wrapping_sub(1).leading_zeros()).max(1)),
            5 => t[i] = if rng.next() % 2 == 0 { t[i] / 2 } else { t[i].wrapping_mul(2) },
            6 => t[i] = if rng.next() % 2 == 0 { 0 } else { bound(i).wrapping_sub(1) },
            7 => {
                let j = pick(rng, t.len());
                if rng.next() % 2 == 0 {
                    t.swap(i, j);
                } else {
                    t[i] = t[j];
                }
            }
            // make a comparison that failed come out even
            8..=10 if !e.pairs.is_empty() => {
                let (a, b) = e.pairs[pick(rng, e.pairs.len())];
                let d = b.wrapping_sub(a) as u64;
                let d = match pick(rng, 8) {
                    0 => d.wrapping_neg(),
                    1 => d.wrapping_mul(2),
                    2 => d.wrapping_mul(2).wrapping_neg(),
                    3 => d.wrapping_add(1),
                    4 => d.wrapping_sub(1),
                    _ => d,
                };
                t[i] = match pick(rng, 6) {
                    0 => b as u64,
                    1 => a as u64,
                    _ => t[i].wrapping_add(d),
                };
            }
            8 => t.truncate(i),
            9 | 11 => {
                // delete or repeat a block
                let len = 1 + pick(rng, 8);
                let end = (i + len).min(t.len());
                if rng.next() % 2 == 0 {
                    t.drain(i..end);
                } else if t.len() < LONGEST {
                    let block = t[i..end].to_vec();
                    let j = pick(rng, t.len() + 1);
                    t.splice(j..j, block);
                }
            }
            12 => {
                let o = &corpus[pick(rng, n)].tape;
                if !o.is_empty() {
                    let j = pick(rng, o.len());
                    t.truncate(i);
                    t.extend_from_slice(&o[j..]);
                    t.truncate(LONGEST);
                }
            }
            _ => {
                // the same place of another entry
                let o = &corpus[pick(rng, n)].tape;
                let end = (i + 1 + pick(rng, 6)).min(t.len()).min(o.len());
                if i < end {
                    t[i..end].copy_from_slice(&o[i..end]);
                }
            }
        }
    }
    t
}

pub struct Found {
    pub cases: u64,
    pub corpus: usize,
    pub features: u64,
    pub failure: Option<(Vec<u64>, String)>,
}

/// `note` is told the input of every case before it runs.
pub fn search(sub: &Sub, seed: u64, cases: u64, limit: Duration, note: &mut dyn FnMut(&[u64], u64)) -> Option<Found> {
    let mut cov = Coverage::new()?;
    let mut rng = Rng::new(seed);
    let mut corpus: Vec<Entry> = Vec::new();
    let start = Instant::now();
    let mut out = Found { cases: 0, corpus: 0, features: 0, failure: None };
    for i in 0..cases {
        if i % 64 == 0 && start.elapsed() > limit {
            break;
        }
        let fresh = corpus.is_empty() || i < 200 || rng.next() % 8 == 0;
        let input = if fresh { Vec::new() } else { mutate(&mut rng, &corpus) };
        let rest = rng.next();
        note(&input, rest);
        let mut src = Src::make(Mode::Guided(input, Rng::new(rest)), false);
        cov.begin();
        let r = run_case(sub.run, &mut src);
        let new = cov.end();
        out.cases += 1;
        if let Err(msg) = r {
            out.failure = Some((src.tape, msg));
            break;
        }
        if new && src.tape.len() <= LONGEST {
            let e = Entry { tape: src.tape, bounds: src.bounds, pairs: cov.pairs(), work: cov.work() };
            if corpus.len() < CORPUS {
                corpus.push(e);
            } else {
                let at = (rng.next() % CORPUS as u64) as usize;
                corpus[at] = e;
            }
        }
    }
    out.corpus = corpus.len();
    out.features = cov.features();
    Some(out)
}
