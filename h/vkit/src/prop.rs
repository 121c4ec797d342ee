//! Property engine: deterministic choice sequences, parallel search, integrated shrinking.
//!
//! A case is a pure function of a choice sequence.  The search draws the sequence from a
//! PRNG seeded by (seed, stage name, case index); a failing sequence is shrunk by deleting,
//! zeroing and lowering choices, and is itself the replay artefact.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

#[derive(Clone)]
pub struct Rng(u64, u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut z = seed ^ 0x9E37_79B9_7F4A_7C15;
        let mut n = || {
            z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
            let mut x = z;
            x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            x = (x ^ (x >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
            x ^ (x >> 31)
        };
        let a = n();
        let b = n() | 1;
        Rng(a, b)
    }
    pub fn next(&mut self) -> u64 {
        // xoroshiro128+
        let (s0, mut s1) = (self.0, self.1);
        let r = s0.wrapping_add(s1);
        s1 ^= s0;
        self.0 = s0.rotate_left(24) ^ s1 ^ (s1 << 16);
        self.1 = s1.rotate_left(37);
        r
    }
}
pub fn hash64(s: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    h ^= h >> 29;
    h.wrapping_mul(0xBF58_476D_1CE4_E5B9)
}

pub struct Src {
    rng: Option<Rng>,
    pre: Vec<u64>,
    pub rec: Vec<u64>,
}
impl Src {
    pub fn random(seed: u64) -> Self {
        Src { rng: Some(Rng::new(seed)), pre: vec![], rec: vec![] }
    }
    pub fn replay(c: Vec<u64>) -> Self {
        Src { rng: None, pre: c, rec: vec![] }
    }
    /// Uniform in `0..bound`; 0 is the simplest value.
    pub fn below(&mut self, bound: u64) -> u64 {
        let i = self.rec.len();
        let v = if i < self.pre.len() {
            let v = self.pre[i];
            if bound == 0 { v } else { v.min(bound - 1) }
        } else if let Some(r) = &mut self.rng {
            let v = r.next();
            if bound == 0 { v } else { v % bound }
        } else {
            0
        };
        self.rec.push(v);
        v
    }
    pub fn n(&mut self, bound: usize) -> usize {
        if bound <= 1 {
            return 0;
        }
        self.below(bound as u64) as usize
    }
    /// Inclusive range, simplest = lo.
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    /// True with probability num/den (false is simplest).
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.n(xs.len());
        &xs[i]
    }
    /// Weighted index; list the simplest alternative first.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let t: u64 = w.iter().map(|x| *x as u64).sum();
        let mut v = self.below(t.max(1));
        for (i, x) in w.iter().enumerate() {
            if v < *x as u64 {
                return i;
            }
            v -= *x as u64;
        }
        0
    }
    /// Length with continue-flags so that deletion shrinks lists; expected ~avg.
    pub fn more(&mut self, i: usize, min: usize, max: usize, avg: u64) -> bool {
        if i < min {
            true
        } else if i >= max {
            false
        } else {
            self.chance(avg, avg + 1)
        }
    }
}

#[derive(Clone, Debug)]
pub struct Fail {
    /// Short class of failure (used to keep shrinking on the same problem).
    pub sig: String,
    pub msg: String,
}
impl Fail {
    pub fn new(sig: impl Into<String>, msg: impl Into<String>) -> Self {
        Fail { sig: sig.into(), msg: msg.into() }
    }
}

/// What one case reports.
#[derive(Default)]
pub struct Rep {
    pub evals: u64,
    /// keys of the non-trivial sub-cases
    pub keys: Vec<u64>,
    pub tags: Vec<(&'static str, u64)>,
    pub sample: Option<String>,
    pub discard: bool,
    pub inconclusive: u64,
}
impl Rep {
    pub fn tag(&mut self, t: &'static str) {
        self.tags.push((t, 1));
    }
}

pub type CaseResult = Result<Rep, Fail>;

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string panic>".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} @ {loc}"));
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}
/// Run f, turning a panic into Err(message @ location).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

pub fn run_case(f: &(dyn Fn(&mut Src) -> CaseResult + Sync), src: &mut Src) -> CaseResult {
    match guarded(|| f(src)) {
        Ok(r) => r,
        Err(p) => {
            let loc = p.rsplit(" @ ").next().unwrap_or("").to_string();
            let file = loc.split(':').next().unwrap_or("").to_string();
            Err(Fail::new(format!("panic@{file}"), format!("panic: {p}")))
        }
    }
}

#[derive(Default)]
pub struct Summary {
    pub cases: u64,
    pub discarded: u64,
    pub evals: u64,
    pub inconclusive: u64,
    pub distinct: HashSet<u64>,
    pub tags: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub failure: Option<(usize, Fail, Vec<u64>)>,
}

/// Where the case a thread is working on is noted, for when the process dies of it.
pub fn mark_dir() -> Option<String> {
    std::env::var("VKIT_MARK").ok().filter(|s| !s.is_empty())
}
const HANG_SECS: u64 = 30;

pub struct Cfg {
    pub name: String,
    pub seed: u64,
    pub cases: usize,
    pub threads: usize,
    pub shrink: usize,
}

pub fn case_seed(name: &str, seed: u64, i: usize) -> u64 {
    let base = hash64(name.as_bytes()) ^ seed.wrapping_mul(0xD134_2543_DE82_EF95);
    hash64(&[base.to_le_bytes(), (i as u64).to_le_bytes()].concat())
}
pub fn run(cfg: &Cfg, f: &(dyn Fn(&mut Src) -> CaseResult + Sync)) -> Summary {
    let next = AtomicUsize::new(0);
    let stop = AtomicUsize::new(usize::MAX);
    let out = Mutex::new(Summary::default());
    let samples: Mutex<BTreeMap<usize, String>> = Mutex::new(BTreeMap::new());
    let marks = mark_dir();
    let t0 = std::time::Instant::now();
    let beats: Vec<(AtomicUsize, AtomicUsize)> = (0..cfg.threads).map(|_| (AtomicUsize::new(0), AtomicUsize::new(0))).collect();
    let left = AtomicUsize::new(cfg.threads);
    let (beats, left, marks, next, stop, samples, out) = (&beats, &left, &marks, &next, &stop, &samples, &out);
    std::thread::scope(|s| {
        s.spawn(move || {
            // A case that does not come to an end is reported and ends the process.
            while left.load(Ordering::Relaxed) > 0 {
                std::thread::sleep(std::time::Duration::from_millis(20));
                let now = t0.elapsed().as_secs() as usize;
                for (i, since) in beats {
                    let (i, since) = (i.load(Ordering::Relaxed), since.load(Ordering::Relaxed));
                    if i > 0 && now > since + HANG_SECS as usize {
                        if let Some(d) = marks {
                            let _ = std::fs::write(format!("{d}/hang"), format!("{} {}", cfg.name, i - 1));
                        }
                        std::process::exit(97);
                    }
                }
            }
        });
        for th in 0..cfg.threads {
            std::thread::Builder::new()
                .stack_size(1 << 29)
                .spawn_scoped(s, move || {
                    let mut loc = Summary::default();
                    let mut mark = marks.as_ref().and_then(|d| std::fs::File::create(format!("{d}/t{th}")).ok());
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= cfg.cases || i > stop.load(Ordering::Relaxed) {
                            break;
                        }
                        if let Some(f) = &mut mark {
                            use std::io::{Seek, Write};
                            let _ = f.rewind();
                            let _ = f.write_all(format!("{} {i:012}\n", cfg.name).as_bytes());
                        }
                        beats[th].1.store(t0.elapsed().as_secs() as usize, Ordering::Relaxed);
                        beats[th].0.store(i + 1, Ordering::Relaxed);
                        let mut src = Src::random(case_seed(&cfg.name, cfg.seed, i));
                        match run_case(f, &mut src) {
                            Ok(r) => {
                                loc.cases += 1;
                                if r.discard {
                                    loc.discarded += 1;
                                }
                                loc.evals += r.evals;
                                loc.inconclusive += r.inconclusive;
                                loc.distinct.extend(r.keys);
                                for (t, n) in r.tags {
                                    *loc.tags.entry(t).or_default() += n;
                                }
                                if let Some(s) = r.sample {
                                    if i < 64 || i % 997 == 0 {
                                        let mut g = samples.lock().unwrap();
                                        if g.len() < 400 {
                                            g.insert(i, s);
                                        }
                                    }
                                }
                            }
                            Err(fl) => {
                                loc.cases += 1;
                                stop.fetch_min(i, Ordering::Relaxed);
                                let better = match &loc.failure {
                                    None => true,
                                    Some((j, _, _)) => i < *j,
                                };
                                if better {
                                    loc.failure = Some((i, fl, src.rec.clone()));
                                }
                            }
                        }
                    }
                    beats[th].0.store(0, Ordering::Relaxed);
                    left.fetch_sub(1, Ordering::Relaxed);
                    if let (Some(d), true) = (marks, mark.is_some()) {
                        let _ = std::fs::remove_file(format!("{d}/t{th}"));
                    }
                    let mut o = out.lock().unwrap();
                    o.cases += loc.cases;
                    o.discarded += loc.discarded;
                    o.evals += loc.evals;
                    o.inconclusive += loc.inconclusive;
                    o.distinct.extend(loc.distinct);
                    for (t, n) in loc.tags {
                        *o.tags.entry(t).or_default() += n;
                    }
                    if let Some((i, fl, c)) = loc.failure {
                        let better = match &o.failure {
                            None => true,
                            Some((j, _, _)) => i < *j,
                        };
                        if better {
                            o.failure = Some((i, fl, c));
                        }
                    }
                })
                .unwrap();
        }
    });
    let mut o = std::mem::take(&mut *out.lock().unwrap());
    let sm: Vec<String> = std::mem::take(&mut *samples.lock().unwrap()).into_values().collect();
    let step = (sm.len() / 6).max(1);
    o.samples = sm.into_iter().step_by(step).take(6).collect();
    if let Some((i, fl, c)) = o.failure.take() {
        // In case a smaller one ends the process, or does not come to an end.
        if let Some(d) = marks {
            let _ = std::fs::write(format!("{d}/found"), format!("{} {i}", cfg.name));
        }
        let (fl, c) = shrink_big(f, fl, c, cfg.shrink);
        o.failure = Some((i, fl, c));
    }
    o
}

fn shrink_big(f: &(dyn Fn(&mut Src) -> CaseResult + Sync), fl: Fail, c: Vec<u64>, budget: usize) -> (Fail, Vec<u64>) {
    let done = AtomicUsize::new(0);
    std::thread::scope(|s| {
        s.spawn(|| {
            let t0 = std::time::Instant::now();
            while done.load(Ordering::Relaxed) == 0 {
                std::thread::sleep(std::time::Duration::from_millis(20));
                // (No new candidate is tried after 60 s.)
                if t0.elapsed().as_secs() > 60 + HANG_SECS {
                    std::process::exit(97);
                }
            }
        });
        let r = std::thread::Builder::new().stack_size(1 << 29).spawn_scoped(s, || shrink(f, fl, c, budget)).unwrap().join();
        done.store(1, Ordering::Relaxed);
        r.unwrap()
    })
}

pub fn shrink(f: &(dyn Fn(&mut Src) -> CaseResult + Sync), fl: Fail, c: Vec<u64>, budget: usize) -> (Fail, Vec<u64>) {
    let mut best = c;
    let mut bf = fl;
    let mut left = budget;
    let mut seen: HashSet<u64> = HashSet::new();
    let t0 = std::time::Instant::now();
    let try_it = |cand: Vec<u64>, best: &mut Vec<u64>, bf: &mut Fail, left: &mut usize, seen: &mut HashSet<u64>| -> bool {
        if *left == 0 || t0.elapsed().as_secs() > 60 {
            return false;
        }
        let key = hash64(&cand.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<_>>());
        if !seen.insert(key) {
            return false;
        }
        *left -= 1;
        let mut s = Src::replay(cand);
        match run_case(f, &mut s) {
            Err(e) if e.sig == bf.sig => {
                let mut r = s.rec;
                while r.last() == Some(&0) {
                    r.pop();
                }
                let smaller = (r.len(), r.iter().map(|x| x.min(&1000)).sum::<u64>(), r.clone())
                    < (best.len(), best.iter().map(|x| x.min(&1000)).sum::<u64>(), best.clone());
                if smaller {
                    *best = r;
                    *bf = e;
                    true
                } else {
                    false
                }
            }
            _ => false,
        }
    };
    loop {
        let before = (best.len(), best.clone());
        for size in [64usize, 32, 16, 8, 4, 3, 2, 1] {
            let mut i = best.len();
            while i > 0 {
                let st = i.saturating_sub(size);
                if st < best.len() {
                    let mut c = best.clone();
                    c.drain(st..i.min(c.len()));
                    if !try_it(c, &mut best, &mut bf, &mut left, &mut seen) {
                        i = if size > 1 { i.saturating_sub((size / 2).max(1)) } else { i - 1 };
                    } else {
                        i = i.min(best.len());
                    }
                } else {
                    i = best.len();
                }
            }
        }
        for size in [8usize, 4, 2, 1] {
            let mut i = 0;
            while i < best.len() {
                let e = (i + size).min(best.len());
                if best[i..e].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..e].iter_mut().for_each(|x| *x = 0);
                    try_it(c, &mut best, &mut bf, &mut left, &mut seen);
                }
                i += size;
            }
        }
        let mut i = 0;
        while i < best.len() {
            let (mut lo, mut hi) = (0u64, best[i]);
            while lo < hi && i < best.len() {
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if try_it(c, &mut best, &mut bf, &mut left, &mut seen) {
                    if i >= best.len() {
                        break;
                    }
                    hi = best[i].min(mid);
                } else {
                    lo = mid + 1;
                }
            }
            i += 1;
        }
        if left == 0 || before == (best.len(), best.clone()) || t0.elapsed().as_secs() > 60 {
            break;
        }
    }
    (bf, best)
}
