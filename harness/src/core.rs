//! Deterministic generation, replay and shrinking.
//!
//! A case is a pure function of a sequence of choices (`G`). Generation records the choices it
//! drew; shrinking edits that sequence and replays it, so every generator shrinks for free.

use std::collections::HashSet;
use std::panic::{AssertUnwindSafe, catch_unwind};

#[derive(Debug, Clone)]
pub struct Fail {
    /// Stable category of the failure (no input-dependent text).
    pub kind: String,
    pub msg: String,
}

pub type R = Result<(), Fail>;

pub fn fail<T>(kind: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { kind: kind.into(), msg: msg.into() })
}

#[macro_export]
macro_rules! bail {
    ($kind:expr, $($arg:tt)*) => { return $crate::core::fail($kind, format!($($arg)*)) };
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $kind:expr, $($arg:tt)*) => { if !$cond { return $crate::core::fail($kind, format!($($arg)*)); } };
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    let mut h2 = h;
    splitmix(&mut h2)
}

pub struct G {
    state: u64,
    replay: Option<Vec<u64>>,
    pos: usize,
    pub rec: Vec<u64>,
    /// The human-readable case.
    pub input: String,
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    /// Scratch directory for this worker.
    pub dir: String,
    pub idx: u64,
}

impl G {
    pub fn random(seed: u64) -> G {
        G { state: seed, replay: None, pos: 0, rec: vec![], input: String::new(), nontrivial: true, labels: vec![], dir: String::new(), idx: 0 }
    }
    pub fn replay(choices: Vec<u64>) -> G {
        let mut g = G::random(0);
        g.replay = Some(choices);
        g
    }
    /// A number in 0..n (n > 0). Shrinks towards 0.
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        if n <= 1 {
            return 0;
        }
        let v = match &self.replay {
            Some(r) => {
                let v = r.get(self.pos).copied().unwrap_or(0);
                v.min(n - 1)
            }
            None => {
                let x = splitmix(&mut self.state);
                ((x as u128 * n as u128) >> 64) as u64
            }
        };
        self.pos += 1;
        self.rec.push(v);
        v
    }
    pub fn u64(&mut self) -> u64 {
        let v = match &self.replay {
            Some(r) => r.get(self.pos).copied().unwrap_or(0),
            None => splitmix(&mut self.state),
        };
        self.pos += 1;
        self.rec.push(v);
        v
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn size(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as i64, hi as i64) as usize
    }
    pub fn coin(&mut self) -> bool {
        self.below(2) == 1
    }
    /// True with probability num/den; shrinks to false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len() as u64) as usize;
        &xs[i]
    }
    /// Weighted index.
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let total: u64 = ws.iter().sum();
        let mut x = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        ws.len() - 1
    }
    /// Name the case; in a re-run of a case that ends the process, keep it on disk first.
    pub fn set_input(&mut self, s: impl Into<String>) {
        self.input = s.into();
        if let Some(p) = DUMP.get() {
            std::fs::write(p, &self.input).ok();
        }
    }
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
}

#[derive(Clone, Copy)]
pub struct Suite {
    pub prop: &'static str,
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut G) -> R,
    /// Evaluations allowed while shrinking.
    pub shrink: usize,
    /// What a case is and when it counts as non-trivial.
    pub rule: &'static str,
}

thread_local! {
    pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}

/// Run `f`, turning a panic into a failure of kind "panic".
pub fn no_panic<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow().clone());
            fail(format!("panic-{what}"), m)
        }
    }
}

pub fn run_case(s: &Suite, g: &mut G) -> R {
    match catch_unwind(AssertUnwindSafe(|| (s.run)(g))) {
        Ok(r) => r,
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow().clone());
            // An assumption of the harness about the code's answer broke, or the code panicked.
            let kind = if m.contains(" at src/") { "unexpected-answer" } else { "panic" };
            fail(kind, m)
        }
    }
}

/// Shrink a failing choice sequence, keeping the failure's kind.
pub fn shrink(s: &Suite, choices: Vec<u64>, kind: &str, dir: &str, budget: usize) -> (Vec<u64>, Fail, String) {
    let mut evals = 0usize;
    let start = std::time::Instant::now();
    let mut seen: HashSet<Vec<u64>> = HashSet::new();
    let mut try_it = |c: &[u64], evals: &mut usize| -> Option<(Vec<u64>, Fail, String)> {
        if *evals >= budget || start.elapsed().as_secs() > 60 {
            return None;
        }
        if !seen.insert(c.to_vec()) {
            return None;
        }
        *evals += 1;
        let mut g = G::replay(c.to_vec());
        g.dir = dir.to_string();
        match run_case(s, &mut g) {
            Err(f) if f.kind == kind => Some((g.rec.clone(), f, g.input.clone())),
            _ => None,
        }
    };
    let mut best = match try_it(&choices, &mut evals) {
        Some(b) => b,
        None => return (choices, Fail { kind: kind.into(), msg: "(did not reproduce while shrinking)".into() }, String::new()),
    };
    loop {
        let mut improved = false;
        // Delete chunks.
        let mut size = (best.0.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i + size <= best.0.len() {
                let mut c = best.0.clone();
                c.drain(i..i + size);
                match try_it(&c, &mut evals) {
                    Some(b) if smaller(&b.0, &best.0) => {
                        best = b;
                        improved = true;
                    }
                    _ => i += if size > 4 { size / 2 } else { 1 },
                }
                if evals >= budget {
                    break;
                }
            }
            size /= 2;
        }
        // Reduce values.
        let mut i = 0;
        while i < best.0.len() {
            let v = best.0[i];
            if v > 0 {
                for nv in [0, v / 2, v - 1] {
                    if nv >= best.0.get(i).copied().unwrap_or(0) {
                        continue;
                    }
                    let mut c = best.0.clone();
                    c[i] = nv;
                    if let Some(b) = try_it(&c, &mut evals)
                        && smaller(&b.0, &best.0)
                    {
                        best = b;
                        improved = true;
                        break;
                    }
                }
            }
            i += 1;
        }
        if !improved || evals >= budget {
            break;
        }
    }
    best
}

fn smaller(a: &[u64], b: &[u64]) -> bool {
    a.len() < b.len() || (a.len() == b.len() && a < b)
}

pub static DUMP: std::sync::OnceLock<String> = std::sync::OnceLock::new();
