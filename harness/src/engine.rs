//! Choice-sequence based case generation, shrinking and replay.
//!
//! A case draws every decision from a `Gen`, which records the (already reduced) choices. Shrinking
//! edits that recorded sequence and reruns the case; replaying reads it from a file.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::Write;
use std::panic::{self, AssertUnwindSafe};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self { Rng(seed) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

pub fn hash_u64s(values: &[u64]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for v in values {
        h ^= *v;
        h = h.wrapping_mul(0x100000001b3);
        h ^= h >> 29;
    }
    h
}
pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 31)
}

/// Source of decisions for one case.
pub struct Gen {
    replay: Option<Vec<u64>>,
    rng: Rng,
    pub recorded: Vec<u64>,
    /// Every choice is also appended here, for cases that take the process down.
    pub mirror: Option<std::fs::File>,
}

impl Gen {
    pub fn random(seed: u64) -> Self { Gen { replay: None, rng: Rng::new(seed), recorded: Vec::new(), mirror: None } }
    pub fn replay(choices: Vec<u64>) -> Self {
        Gen { replay: Some(choices), rng: Rng::new(0), recorded: Vec::new(), mirror: None }
    }

    /// A value in `0..n`; 0 is the simplest.
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let raw = match &self.replay {
            Some(c) => c.get(self.recorded.len()).copied().unwrap_or(0).min(n - 1),
            None => ((self.rng.next() as u128 * n as u128) >> 64) as u64,
        };
        self.recorded.push(raw);
        if let Some(f) = &mut self.mirror { let _ = f.write_all(format!("{}\n", raw).as_bytes()); }
        raw
    }
    pub fn upto(&mut self, n: usize) -> usize { self.below(n as u64 + 1) as usize }
    pub fn idx(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.below((hi - lo + 1) as u64) as usize }
    /// True with probability num/den; false is simplest.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn bool(&mut self) -> bool { self.below(2) == 1 }
    /// Integer in -k..=k, with 0 simplest and small magnitudes first.
    pub fn int(&mut self, k: i64) -> i64 {
        let v = self.below(2 * k as u64 + 1) as i64;
        if v % 2 == 0 { -(v / 2) } else { (v + 1) / 2 }
    }
    /// Nonzero integer in -k..=k, 1 simplest.
    pub fn nonzero(&mut self, k: i64) -> i64 {
        let v = self.below(2 * k as u64) as i64;
        if v % 2 == 0 { v / 2 + 1 } else { -(v / 2 + 1) }
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T { &items[self.idx(items.len())] }
    /// Index chosen with the given weights; earlier is simpler.
    pub fn weighted(&mut self, weights: &[u64]) -> usize {
        let total: u64 = weights.iter().sum();
        let mut v = self.below(total);
        for (i, w) in weights.iter().enumerate() {
            if v < *w { return i; }
            v -= w;
        }
        unreachable!()
    }
    pub fn permutation(&mut self, n: usize) -> Vec<usize> {
        let mut p: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() {
            let j = i - self.idx(i + 1);
            p.swap(i, j);
        }
        p
    }
}

#[derive(Debug, Clone)]
pub struct Fail {
    /// Stable short class of the failure, used to keep shrinking on the same failure.
    pub sig: String,
    pub msg: String,
}
impl Fail {
    pub fn new(sig: impl Into<String>, msg: impl Into<String>) -> Self { Fail { sig: sig.into(), msg: msg.into() } }
}
pub type Res = Result<(), Fail>;

#[macro_export]
macro_rules! fail {
    ($sig:expr, $($arg:tt)*) => { return Err($crate::engine::Fail::new($sig, format!($($arg)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => { if !$cond { return Err($crate::engine::Fail::new($sig, format!($($arg)*))) } };
}

/// One case being run.
pub struct Cx {
    pub g: Gen,
    pub thorough: bool,
    pub nontrivial: bool,
    pub tags: BTreeMap<&'static str, u64>,
    /// Human readable rendering of the case.
    pub desc: String,
    /// Digest of everything the code under test returned, for cross-process comparison.
    pub digest: Option<u64>,
    /// Position in the run; the first few select hand-written cases in some properties.
    pub index: u64,
    pub desc_mirror: Option<std::fs::File>,
}
impl Cx {
    pub fn new(g: Gen, thorough: bool) -> Self {
        Cx { g, thorough, nontrivial: false, tags: BTreeMap::new(), desc: String::new(), digest: None, index: u64::MAX, desc_mirror: None }
    }
    pub fn tag(&mut self, t: &'static str) { *self.tags.entry(t).or_insert(0) += 1; }
    pub fn note(&mut self, s: impl AsRef<str>) {
        if self.desc.len() < 40_000 { self.desc.push_str(s.as_ref()); self.desc.push('\n'); }
        if let Some(f) = &mut self.desc_mirror { let _ = f.write_all(s.as_ref().as_bytes()); let _ = f.write_all(b"\n"); }
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() }
            else { "?".to_string() };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

/// The reference side of the harness noticed that it is itself wrong or unable to answer.
pub struct OracleBroken(pub String);
pub fn oracle_broken(msg: impl Into<String>) -> ! {
    panic::panic_any(OracleBroken(msg.into()))
}

/// Run code of the system under test; a panic becomes a failure.
pub fn guard<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    match panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(payload) => {
            if payload.is::<OracleBroken>() { panic::resume_unwind(payload); }
            let (loc, msg) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            let file = loc.rsplit('/').next().unwrap_or("").split(':').next().unwrap_or("").to_string();
            Err(Fail::new(format!("panic:{}", file), format!("{} panicked at {}: {}", what, loc, msg)))
        }
    }
}

pub enum CaseResult { Ok, Fail(Fail), Broken(String) }

pub type CaseFn = fn(&mut Cx) -> Res;

pub fn run_case(f: CaseFn, cx: &mut Cx) -> CaseResult {
    let r = panic::catch_unwind(AssertUnwindSafe(|| guard("case", || f(cx))));
    match r {
        Ok(Ok(Ok(()))) => CaseResult::Ok,
        Ok(Ok(Err(e))) | Ok(Err(e)) => CaseResult::Fail(e),
        Err(p) => match p.downcast::<OracleBroken>() {
            Ok(b) => CaseResult::Broken(b.0),
            Err(_) => CaseResult::Broken("unknown".into()),
        },
    }
}

/// Generic choice-sequence shrinker. `eval` returns true when the candidate still fails in the same
/// way, and then also gives the choices that were really consumed.
pub fn shrink(start: Vec<u64>, mut eval: impl FnMut(&[u64]) -> Option<Vec<u64>>, budget: &mut dyn FnMut() -> bool) -> Vec<u64> {
    let mut best = start;
    let mut improved = true;
    while improved && budget() {
        improved = false;
        // delete blocks
        for size in [64usize, 32, 16, 8, 4, 3, 2, 1] {
            let mut i = best.len();
            while i > 0 && budget() {
                let lo = i.saturating_sub(size);
                if i - lo < size && size > 1 { break; }
                let mut c = best.clone();
                c.drain(lo..i);
                if let Some(n) = eval(&c) {
                    if better(&n, &best) { best = n; improved = true; i = i.min(best.len()); continue; }
                }
                // also try deleting while lowering the preceding choice (a length)
                i -= 1;
            }
        }
        // zero blocks
        for size in [16usize, 4] {
            let mut i = 0;
            while i < best.len() && budget() {
                let hi = (i + size).min(best.len());
                if best[i..hi].iter().any(|&v| v != 0) {
                    let mut c = best.clone();
                    for v in &mut c[i..hi] { *v = 0; }
                    if let Some(n) = eval(&c) { if better(&n, &best) { best = n; improved = true; } }
                }
                i += size;
            }
        }
        // lower individual choices, also combined with deleting some following ones
        let mut i = 0;
        while i < best.len() && budget() {
            let v = best[i];
            if v > 0 {
                let mut candidates = vec![0, v / 2, v - 1];
                if v > 2 { candidates.push(v - 2); }
                candidates.dedup();
                let mut done = false;
                for &nv in &candidates {
                    if nv >= best.get(i).copied().unwrap_or(0) { continue; }
                    let mut c = best.clone();
                    c[i] = nv;
                    if let Some(n) = eval(&c) { if better(&n, &best) { best = n; improved = true; done = true; break; } }
                }
                if !done {
                    'outer: for k in 1..=8usize {
                        for off in 1..=3usize {
                            if i + off + k > best.len() || !budget() { break; }
                            let mut c = best.clone();
                            c[i] = v - 1;
                            c.drain(i + off..i + off + k);
                            if let Some(n) = eval(&c) { if better(&n, &best) { best = n; improved = true; break 'outer; } }
                        }
                    }
                }
            }
            i += 1;
        }
    }
    best
}

pub fn better(a: &[u64], b: &[u64]) -> bool {
    // shorter, then smaller total, then lexicographically smaller
    if a.len() != b.len() { return a.len() < b.len(); }
    let (sa, sb): (u128, u128) = (a.iter().map(|&v| v as u128).sum(), b.iter().map(|&v| v as u128).sum());
    if sa != sb { return sa < sb; }
    a < b
}
