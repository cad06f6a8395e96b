//! Generated-input search with integrated shrinking.
//!
//! A case is generated from a sequence of bounded choices. A random case draws the choices from a
//! seeded generator and records them; a replay (and every shrink candidate) feeds a recorded
//! sequence back. Shrinking edits the recorded sequence, so every generator shrinks for free and
//! every candidate is a well-formed case.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// SplitMix64.
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

pub fn mix(parts: &[u64]) -> u64 {
    let mut r = Rng(0x5EED);
    let mut acc = 0u64;
    for p in parts {
        r.0 ^= p.wrapping_mul(0xD6E8FEB86659FD93).wrapping_add(acc);
        acc = r.next();
    }
    acc
}

pub fn hash_str(s: &str) -> u64 {
    // FNV-1a, so that it is the same in every process
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

/// Everything a property sees of its case: the choices, and what it wants recorded about it.
pub struct Case {
    rng: Option<Rng>,
    fed: Vec<u64>,
    pub taken: Vec<u64>,
    pub desc: String,
    pub key: u64,
    nontrivial: bool,
    discarded: bool,
    classes: Vec<String>,
    pub evals: u64,
}

impl Case {
    pub fn random(seed: u64) -> Case {
        Case::build(Some(Rng(seed)), vec![])
    }
    pub fn replay(choices: Vec<u64>) -> Case {
        Case::build(None, choices)
    }
    fn build(rng: Option<Rng>, fed: Vec<u64>) -> Case {
        Case {
            rng,
            fed,
            taken: vec![],
            desc: String::new(),
            key: 0,
            nontrivial: false,
            discarded: false,
            classes: vec![],
            evals: 0,
        }
    }
    /// A number below `n`. Smaller is simpler.
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        let v = match &mut self.rng {
            Some(r) => r.next() % n,
            None => self.fed.get(self.taken.len()).copied().unwrap_or(0).min(n - 1),
        };
        self.taken.push(v);
        v
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// In `lo..=hi`, simplest at `lo`.
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    /// True with probability `num/den`; false is simpler.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        let i = self.idx(items.len());
        &items[i]
    }
    pub fn shuffle<T>(&mut self, items: &mut [T]) {
        for i in (1..items.len()).rev() {
            let j = i - self.idx(i + 1);
            items.swap(i, j);
        }
    }

    /// The case written out; also what makes it distinct.
    pub fn describe(&mut self, d: impl Into<String>) {
        self.desc = d.into();
        if std::env::var_os("VERIF_SHOW").is_some() {
            eprintln!("{}", self.desc);
        }
        self.key = hash_str(&self.desc);
    }
    pub fn append(&mut self, d: &str) {
        self.desc.push_str(d);
        self.key = hash_str(&self.desc);
    }
    pub fn nontrivial(&mut self, yes: bool) {
        self.nontrivial |= yes;
    }
    pub fn class(&mut self, c: impl Into<String>) {
        self.classes.push(c.into());
    }
    /// Not a case of the property after all.
    pub fn discard<T>(&mut self) -> Result<T, Stop> {
        self.discarded = true;
        Err(Stop::Discard)
    }
}

pub enum Stop {
    Discard,
    Fail(String),
}
impl From<String> for Stop {
    fn from(s: String) -> Stop {
        Stop::Fail(s)
    }
}
impl From<&str> for Stop {
    fn from(s: &str) -> Stop {
        Stop::Fail(s.to_string())
    }
}
pub type Res = Result<(), Stop>;

#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return Err($crate::Stop::Fail(format!($($t)*))) };
}
#[macro_export]
macro_rules! check {
    ($cond:expr, $($t:tt)*) => { if !$cond { return Err($crate::Stop::Fail(format!($($t)*))) } };
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let msg = format!("{}", info);
        LAST_PANIC.with(|p| *p.borrow_mut() = msg);
    }));
}

/// Runs `f`; a panic becomes its message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

pub type Prop = fn(&mut Case) -> Res;

pub struct Spec {
    pub id: &'static str,
    pub prop: Prop,
    /// Cases in the quick and the thorough tier: fixed work, whatever the machine.
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// Fixed inputs that are run before the search, with the signature under which a failure may
    /// be listed in the known-findings file.
    pub fixed: &'static [(&'static str, fn() -> Result<(), String>)],
    /// Classes of generated cases that must not be empty, with their least share in percent.
    pub floors: &'static [(&'static str, f64)],
    pub threads: usize,
}

pub struct Outcome {
    pub case: Case,
    pub fail: Option<String>,
}

pub fn run_case(prop: Prop, mut case: Case) -> Outcome {
    let r = guarded(|| prop(&mut case));
    let fail = match r {
        Ok(Ok(())) => None,
        Ok(Err(Stop::Discard)) => None,
        Ok(Err(Stop::Fail(m))) => Some(m),
        Err(p) => Some(format!("panicked: {}", p)),
    };
    Outcome { case, fail }
}

#[derive(Default)]
struct Tally {
    evaluations: u64,
    discarded: u64,
    keys: HashSet<u64>,
    nontrivial: HashSet<u64>,
    classes: BTreeMap<String, u64>,
    samples: Vec<(u64, String)>,
}

pub struct Found {
    pub index: u64,
    pub choices: Vec<u64>,
    pub desc: String,
    pub msg: String,
}

pub struct Summary {
    pub coverage: serde_json::Value,
    pub found: Option<Found>,
    pub wall: f64,
}

/// How long a case may take before it counts as not coming back.
pub fn case_limit(tier: &str) -> Duration {
    Duration::from_secs(if tier == "thorough" { 600 } else { 120 })
}

/// Where the case a thread is working on is kept, for the parent to find after a crash.
pub fn current_dir() -> Option<PathBuf> {
    std::env::var_os("VERIF_CURRENT").map(PathBuf::from)
}

pub fn search(spec: &Spec, seed: u64, tier: &str) -> Summary {
    let start = Instant::now();
    let total = if tier == "thorough" { spec.thorough } else { spec.quick };
    let total = std::env::var("VERIF_CASES").ok().and_then(|s| s.parse().ok()).unwrap_or(total);
    let next = AtomicU64::new(0);
    let best: Mutex<Option<Found>> = Mutex::new(None);
    let tally = Mutex::new(Tally::default());
    let nthreads = spec.threads.max(1).min(8);
    let beats: Vec<(AtomicU64, AtomicU64)> =
        (0..nthreads).map(|_| (AtomicU64::new(u64::MAX), AtomicU64::new(0))).collect();
    let done = AtomicUsize::new(0);
    let stop_watch = AtomicBool::new(false);
    let id_hash = hash_str(spec.id);
    let case_seed = |i: u64| mix(&[seed, id_hash, i]);

    std::thread::scope(|s| {
        for t in 0..nthreads {
            let (next, best, tally, beats, done) = (&next, &best, &tally, &beats, &done);
            let stop_watch = &stop_watch;
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    let mut local = Tally::default();
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= total {
                            break;
                        }
                        if let Some(f) = best.lock().unwrap().as_ref() {
                            if f.index < i {
                                break;
                            }
                        }
                        if let Some(d) = current_dir() {
                            let _ = std::fs::write(d.join(format!("t{}", t)), case_seed(i).to_string());
                        }
                        beats[t].1.store(start.elapsed().as_millis() as u64, Ordering::SeqCst);
                        beats[t].0.store(case_seed(i), Ordering::SeqCst);
                        let o = run_case(spec.prop, Case::random(case_seed(i)));
                        beats[t].0.store(u64::MAX, Ordering::SeqCst);
                        local.evaluations += 1 + o.case.evals;
                        if o.case.discarded {
                            local.discarded += 1;
                            continue;
                        }
                        local.keys.insert(o.case.key);
                        if o.case.nontrivial {
                            local.nontrivial.insert(o.case.key);
                            if local.samples.len() < 2 {
                                local.samples.push((i, o.case.desc.clone()));
                            }
                        }
                        for c in &o.case.classes {
                            *local.classes.entry(c.clone()).or_insert(0) += 1;
                        }
                        if let Some(msg) = o.fail {
                            let mut b = best.lock().unwrap();
                            if b.as_ref().map_or(true, |f| i < f.index) {
                                let f = Found {
                                    index: i,
                                    choices: o.case.taken,
                                    desc: o.case.desc,
                                    msg,
                                };
                                if let Some(d) = current_dir() {
                                    let v = serde_json::json!({"property": spec.id, "seed": seed, "case": i, "choices": f.choices, "input": f.desc, "failure": f.msg});
                                    let _ = std::fs::write(d.join("found"), v.to_string());
                                }
                                *b = Some(f);
                            }
                        }
                    }
                    let mut g = tally.lock().unwrap();
                    g.evaluations += local.evaluations;
                    g.discarded += local.discarded;
                    g.keys.extend(local.keys);
                    g.nontrivial.extend(local.nontrivial);
                    g.samples.extend(local.samples);
                    for (k, v) in local.classes {
                        *g.classes.entry(k).or_insert(0) += v;
                    }
                    if done.fetch_add(1, Ordering::SeqCst) + 1 == nthreads {
                        stop_watch.store(true, Ordering::SeqCst);
                    }
                })
                .unwrap();
        }
        // Watch for a case that does not come back.
        let (beats, stop_watch) = (&beats, &stop_watch);
        s.spawn(move || {
            while !stop_watch.load(Ordering::SeqCst) {
                std::thread::sleep(Duration::from_millis(20));
                for (seed, since) in beats.iter() {
                    let c = seed.load(Ordering::SeqCst);
                    if c == u64::MAX {
                        continue;
                    }
                    let since = Duration::from_millis(since.load(Ordering::SeqCst));
                    if start.elapsed().saturating_sub(since) > case_limit(tier) {
                        println!("HANG {}", c);
                        if let Some(d) = current_dir() {
                            let _ = std::fs::write(d.join("hang"), c.to_string());
                        }
                        std::process::exit(77);
                    }
                }
            }
        });
    });

    let found = best.into_inner().unwrap().map(|f| {
        std::thread::spawn(|| {
            std::thread::sleep(Duration::from_secs(120));
            std::process::exit(78);
        });
        shrink(spec.prop, f)
    });
    let mut t = tally.into_inner().unwrap();
    t.samples.sort();
    let samples: Vec<_> = t.samples.iter().take(3).map(|(i, d)| serde_json::json!({"case": i, "input": d})).collect();
    let coverage = serde_json::json!({
        "evaluations": t.evaluations,
        "distinct_nontrivial": t.nontrivial.len(),
        "rule": spec.rule,
        "samples": samples,
        "distinct": t.keys.len(),
        "discarded": t.discarded,
        "classes": t.classes,
        "fixed_inputs": spec.fixed.len(),
    });
    Summary {
        coverage,
        found,
        wall: start.elapsed().as_secs_f64(),
    }
}

fn still_fails(prop: Prop, choices: &[u64]) -> Option<Found> {
    // Iteration order of hash maps differs from run to run, so a failure may need a few tries.
    for _ in 0..2 {
        let o = run_case(prop, Case::replay(choices.to_vec()));
        if let Some(msg) = o.fail {
            return Some(Found {
                index: 0,
                choices: o.case.taken,
                desc: o.case.desc,
                msg,
            });
        }
    }
    None
}

fn simpler(a: &[u64], b: &[u64]) -> bool {
    (a.len(), a.iter().sum::<u64>(), a) < (b.len(), b.iter().sum::<u64>(), b)
}

pub fn shrink(prop: Prop, found: Found) -> Found {
    let index = found.index;
    let deadline = Instant::now() + Duration::from_secs(40);
    let mut best = found;
    let mut improved = true;
    let mut tries = 0;
    while improved && tries < 20_000 {
        improved = false;
        let attempt = |cand: Vec<u64>, best: &mut Found, tries: &mut u32| -> bool {
            *tries += 1;
            if Instant::now() > deadline {
                return false;
            }
            if let Some(f) = still_fails(prop, &cand) {
                if simpler(&f.choices, &best.choices) {
                    *best = f;
                    return true;
                }
            }
            false
        };
        // remove blocks
        for size in [32usize, 16, 8, 4, 3, 2, 1] {
            let mut i = best.choices.len();
            while i > 0 {
                i = i.saturating_sub(size.max(1));
                if i >= best.choices.len() {
                    continue;
                }
                let end = (i + size).min(best.choices.len());
                let mut c = best.choices.clone();
                c.drain(i..end);
                if attempt(c, &mut best, &mut tries) {
                    improved = true;
                }
            }
        }
        // lower values
        let mut i = 0;
        while i < best.choices.len() {
            let v = best.choices[i];
            for cand in [0, v / 2, v.saturating_sub(1)] {
                if i < best.choices.len() && cand < best.choices[i] {
                    let mut c = best.choices.clone();
                    c[i] = cand;
                    if attempt(c, &mut best, &mut tries) {
                        improved = true;
                        break;
                    }
                }
            }
            i += 1;
        }
        if Instant::now() > deadline {
            break;
        }
    }
    best.index = index;
    best
}

/// For hashing helper values in properties.
pub fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
