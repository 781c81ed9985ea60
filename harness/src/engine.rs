//! Choice-tape property-testing engine (in the style of Hypothesis/Conjecture).
//!
//! A case is produced from a tape of bounded choices. Fresh cases draw choices
//! from a PRNG seeded by (VERIF_SEED, property, case index); a failing tape is
//! shrunk by editing the tape and re-running generation and check together, so
//! every shrunk case is one the generator can produce. Zero is the simplest
//! choice everywhere.
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a ^ b.rotate_left(29) ^ 0x5851_F42D_4C95_7F2D);
    r.next() ^ Rng::new(b).next().rotate_left(17)
}

pub fn hash_str(s: &str) -> u64 {
    // FNV-1a: stable across processes and compiler versions
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ u64::from(b)).wrapping_mul(0x0000_0100_0000_01B3);
    }
    h
}

const MAX_DRAWS: usize = 400_000;

pub struct Tape {
    pub data: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
    pub overrun: bool,
}

impl Tape {
    pub fn fresh(seed: u64) -> Self {
        Tape { data: Vec::new(), pos: 0, rng: Some(Rng::new(seed)), overrun: false }
    }
    pub fn replay(data: Vec<u64>) -> Self {
        Tape { data, pos: 0, rng: None, overrun: false }
    }
    /// Replay a prefix, then continue with PRNG draws.
    pub fn used(&self) -> usize {
        self.pos
    }
    fn raw(&mut self, n: u64) -> u64 {
        if self.pos >= MAX_DRAWS {
            self.overrun = true;
            return 0;
        }
        let v = if self.pos < self.data.len() {
            let v = self.data[self.pos];
            if n == 0 { v } else { v % n }
        } else {
            let v = match &mut self.rng {
                Some(r) => {
                    let x = r.next();
                    if n == 0 { x } else { ((u128::from(x) * u128::from(n)) >> 64) as u64 }
                }
                None => {
                    self.overrun = true;
                    0
                }
            };
            if self.rng.is_some() {
                self.data.push(v);
            }
            v
        };
        self.pos += 1;
        v
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        self.raw(n as u64) as usize
    }
    /// Uniform in lo..=hi; lo is simplest.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn bits(&mut self) -> u64 {
        self.raw(0)
    }
    /// True with probability num/den; false is simplest.
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        let v = self.below(den);
        v >= den - num
    }
    pub fn coin(&mut self) -> bool {
        self.below(2) == 1
    }
    /// Index into weights; index 0 is simplest.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut v = self.below(total as usize) as u32;
        for (i, &x) in w.iter().enumerate() {
            if v < x {
                return i;
            }
            v -= x;
        }
        w.len() - 1
    }
    #[track_caller]
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        assert!(!xs.is_empty(), "harness: nothing to pick from");
        &xs[self.below(xs.len())]
    }
    /// A count: mostly small, sometimes around a power of 2 or 10, up to max.
    pub fn count(&mut self, small: usize, max: usize) -> usize {
        if self.chance(1, 24) {
            const EDGES: [usize; 22] = [
                7, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129,
                255, 256,
            ];
            let e = *self.pick(&EDGES);
            e.min(max)
        } else {
            self.below(small.min(max) + 1)
        }
    }
}

#[derive(Default)]
pub struct Ctx {
    pub labels: BTreeMap<&'static str, u64>,
    pub nontrivial: Option<u64>,
    pub want_desc: bool,
    pub desc: String,
    pub discarded: bool,
    pub known: Vec<String>,
}

impl Ctx {
    pub fn label(&mut self, l: &'static str) {
        *self.labels.entry(l).or_insert(0) += 1;
    }
    pub fn cond(&mut self, l: &'static str, c: bool) {
        if c {
            self.label(l);
        }
    }
    pub fn add(&mut self, l: &'static str, n: u64) {
        *self.labels.entry(l).or_insert(0) += n;
    }
    /// Mark the case as non-trivial, identified by its content.
    pub fn nontrivial<H: Hash + ?Sized>(&mut self, h: &H) {
        struct F(u64);
        impl Hasher for F {
            fn finish(&self) -> u64 {
                self.0
            }
            fn write(&mut self, b: &[u8]) {
                for x in b {
                    self.0 = (self.0 ^ u64::from(*x)).wrapping_mul(0x0000_0100_0000_01B3);
                }
            }
        }
        let mut f = F(0xcbf2_9ce4_8422_2325);
        h.hash(&mut f);
        self.nontrivial = Some(f.finish());
    }
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc {
            self.desc = f();
        }
    }
}

pub type CheckResult = Result<(), String>;

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// Cases drawn from the PRNG in the quick / thorough tier.
    pub quick: u64,
    pub thorough: u64,
    /// Evaluations allowed for shrinking.
    pub shrink: usize,
    pub threads: usize,
    pub run: fn(&mut Tape, &mut Ctx) -> CheckResult,
    /// Enumerated or hand-picked cases, run before the random ones.
    pub enum_count: fn(bool) -> u64,
    pub run_enum: fn(u64, &mut Ctx) -> CheckResult,
}

pub fn no_enum_count(_: bool) -> u64 {
    0
}
pub fn no_enum(_: u64, _: &mut Ctx) -> CheckResult {
    Ok(())
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum CaseId {
    Enum(u64),
    Rand(u64),
}

pub fn case_seed(seed: u64, id: &str, idx: u64) -> u64 {
    mix(mix(seed, hash_str(id)), idx)
}

thread_local! {
    static PANIC_MSG: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let payload = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| (*s).to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "<non-string panic>".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_MSG.with(|m| *m.borrow_mut() = Some(format!("panicked at {loc}: {payload}")));
    }));
}

/// Run `f`, turning a panic into its message.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC_MSG
            .with(|m| m.borrow_mut().take())
            .unwrap_or_else(|| "panicked".to_string())),
    }
}

pub fn run_tape(p: &Prop, tape: &mut Tape, ctx: &mut Ctx) -> CheckResult {
    match catch(|| (p.run)(tape, ctx)) {
        Ok(r) => r,
        Err(m) => Err(m),
    }
}

pub fn run_enum(p: &Prop, i: u64, ctx: &mut Ctx) -> CheckResult {
    match catch(|| (p.run_enum)(i, ctx)) {
        Ok(r) => r,
        Err(m) => Err(m),
    }
}

/// Shrink a failing tape; returns the shrunk tape and its message.
pub fn shrink(p: &Prop, start: Vec<u64>, msg: String, budget: usize) -> (Vec<u64>, String, usize) {
    let mut best = start;
    let mut best_msg = msg;
    let mut evals = 0usize;
    let try_one = |cand: &Vec<u64>, evals: &mut usize| -> Option<(Vec<u64>, String)> {
        *evals += 1;
        let mut t = Tape::replay(cand.clone());
        let mut c = Ctx::default();
        match run_tape(p, &mut t, &mut c) {
            Err(m) => {
                let used = t.used().min(cand.len());
                let mut d = cand[..used].to_vec();
                while d.last() == Some(&0) {
                    d.pop();
                }
                Some((d, m))
            }
            Ok(()) => None,
        }
    };
    if let Some((d, m)) = try_one(&best.clone(), &mut evals) {
        best = d;
        best_msg = m;
    } else {
        // not reproducible from the tape alone: keep as is
        return (best, best_msg, evals);
    }
    let mut improved = true;
    while improved && evals < budget {
        improved = false;
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = best.len();
            while i > 0 && evals < budget {
                let lo = i.saturating_sub(size);
                let mut cand = best.clone();
                cand.drain(lo..i.min(cand.len()));
                if let Some((d, m)) = try_one(&cand, &mut evals)
                    && (d.len() < best.len() || (d.len() == best.len() && d < best)) {
                        best = d;
                        best_msg = m;
                        improved = true;
                    }
                i = lo.min(best.len());
            }
            if size == 1 || evals >= budget {
                break;
            }
            size /= 2;
        }
        // zero chunks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() && evals < budget {
                let hi = (i + size).min(best.len());
                if best[i..hi].iter().any(|&x| x != 0) {
                    let mut cand = best.clone();
                    for x in &mut cand[i..hi] {
                        *x = 0;
                    }
                    if let Some((d, m)) = try_one(&cand, &mut evals)
                        && (d.len() < best.len() || (d.len() == best.len() && d < best)) {
                            best = d;
                            best_msg = m;
                            improved = true;
                        }
                }
                i += size;
            }
            if size == 1 || evals >= budget {
                break;
            }
            size /= 2;
        }
        // minimise single values
        let mut i = 0;
        while i < best.len() && evals < budget {
            let v = best[i];
            let mut cands = vec![];
            let mut step = v;
            while step > 0 {
                step /= 2;
                cands.push(v - step.max(1).min(v));
                if cands.len() > 12 {
                    break;
                }
            }
            cands.dedup();
            cands.reverse();
            let mut list = vec![1u64];
            list.extend(cands.into_iter().rev());
            for c in list {
                if c >= v || evals >= budget {
                    continue;
                }
                let mut cand = best.clone();
                cand[i] = c;
                if let Some((d, m)) = try_one(&cand, &mut evals)
                    && (d.len() < best.len() || (d.len() == best.len() && d < best)) {
                        best = d;
                        best_msg = m;
                        improved = true;
                        break;
                    }
            }
            i += 1;
        }
    }
    (best, best_msg, evals)
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub nontrivial_total: u64,
    pub distinct: HashSet<u64>,
    pub labels: BTreeMap<&'static str, u64>,
    pub overruns: u64,
    pub known: BTreeMap<String, u64>,
}

impl Stats {
    pub fn absorb(&mut self, c: Ctx, overrun: bool) {
        self.evaluations += 1;
        if let Some(h) = c.nontrivial {
            self.nontrivial_total += 1;
            self.distinct.insert(h);
        }
        for (k, v) in c.labels {
            *self.labels.entry(k).or_insert(0) += v;
        }
        for k in c.known {
            *self.known.entry(k).or_insert(0) += 1;
        }
        if overrun {
            self.overruns += 1;
        }
    }
    pub fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.nontrivial_total += o.nontrivial_total;
        self.distinct.extend(o.distinct);
        for (k, v) in o.labels {
            *self.labels.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.known {
            *self.known.entry(k).or_insert(0) += v;
        }
        self.overruns += o.overruns;
    }
}
