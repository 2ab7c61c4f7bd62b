//! Property-based testing core: every random choice is a recorded, shrinkable draw. A case
//! is a pure function of (seed, component, index) or of a replayed tape.

use serde_json::{json, Value};
use std::{
    collections::{BTreeMap, HashSet},
    hash::{Hash, Hasher},
    sync::atomic::{AtomicU64, Ordering},
    sync::Mutex,
};

#[derive(Clone)]
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
}
pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub struct Src {
    rng: Option<Rng>,
    input: Vec<u64>,
    /// resolved draws of this run (offsets from each draw's lower bound)
    pub tape: Vec<u64>,
    pub spans: Vec<(usize, usize)>,
    open: Vec<usize>,
    /// human-readable trace, kept only when asked for
    pub trace: Option<Vec<String>>,
}

impl Src {
    pub fn random(seed: u64) -> Src {
        Src { rng: Some(Rng(seed)), input: vec![], tape: vec![], spans: vec![], open: vec![], trace: None }
    }
    pub fn replay(tape: Vec<u64>) -> Src {
        Src { rng: None, input: tape, tape: vec![], spans: vec![], open: vec![], trace: None }
    }
    /// uniform in 0..=max; 0 is the simplest value
    pub fn upto(&mut self, max: u64) -> u64 {
        let v = match &mut self.rng {
            Some(r) => {
                let x = r.next();
                if max == u64::MAX {
                    x
                } else {
                    ((x as u128 * (max as u128 + 1)) >> 64) as u64
                }
            }
            None => self.input.get(self.tape.len()).copied().unwrap_or(0).min(max),
        };
        self.tape.push(v);
        v
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.upto(hi - lo)
    }
    pub fn n(&mut self, count: usize) -> usize {
        self.upto(count as u64 - 1) as usize
    }
    /// true with probability num/den; false is the simplest
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.upto(den - 1) >= den - num.min(den)
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.n(v.len());
        &v[i]
    }
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|x| *x as u64).sum();
        let mut x = self.upto(total.max(1) - 1);
        for (i, k) in w.iter().enumerate() {
            if x < *k as u64 {
                return i;
            }
            x -= *k as u64;
        }
        0
    }
    /// `n` bytes from a single draw (0 = all zero)
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let seed = if n == 0 { 0 } else { self.upto(u64::MAX) };
        expand(seed, n)
    }
    pub fn span<T>(&mut self, f: impl FnOnce(&mut Src) -> T) -> T {
        self.open.push(self.tape.len());
        let r = f(self);
        let a = self.open.pop().unwrap();
        self.spans.push((a, self.tape.len()));
        r
    }
    pub fn say(&mut self, f: impl FnOnce() -> String) {
        if let Some(t) = &mut self.trace {
            t.push(f());
        }
    }
}
pub fn expand(seed: u64, n: usize) -> Vec<u8> {
    match seed {
        0 => vec![0; n],
        1 => vec![0xFF; n],
        _ => {
            let mut r = Rng(seed);
            let mut v = Vec::with_capacity(n + 8);
            while v.len() < n {
                v.extend(r.next().to_le_bytes());
            }
            v.truncate(n);
            v
        }
    }
}

pub fn hash_of<T: Hash>(t: &T) -> u64 {
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    t.hash(&mut h);
    h.finish()
}

#[derive(Clone, Debug)]
pub struct Failure {
    pub sig: String,
    pub msg: String,
}

/// What one generated case reports.
#[derive(Default)]
pub struct Case {
    pub fail: Option<Failure>,
    /// labels counted in the evidence
    pub labels: Vec<&'static str>,
    /// number of program executions (transactions, or calls of codecs/builders)
    pub steps: u64,
    /// hashes of the non-trivial things this case exercised
    pub nontrivial: Vec<u64>,
    pub known: Vec<&'static str>,
    /// a short description of the case (only asked for on sampled cases)
    pub sample: Option<String>,
}

#[derive(Default)]
pub struct Stats {
    pub cases: u64,
    pub steps: u64,
    pub labels: BTreeMap<&'static str, u64>,
    pub distinct: HashSet<u64>,
    pub known: BTreeMap<&'static str, u64>,
    pub samples: Vec<(u64, String)>,
}
impl Stats {
    pub fn merge(&mut self, o: Stats) {
        self.cases += o.cases;
        self.steps += o.steps;
        for (k, v) in o.labels {
            *self.labels.entry(k).or_default() += v;
        }
        for (k, v) in o.known {
            *self.known.entry(k).or_default() += v;
        }
        self.distinct.extend(o.distinct);
        self.samples.extend(o.samples);
        self.samples.sort();
        self.samples.truncate(6);
    }
}

pub type CaseFn<'a> = dyn Fn(&mut Src) -> Case + Sync + 'a;

pub struct Found {
    pub index: u64,
    pub tape: Vec<u64>,
    pub fail: Failure,
}

/// Where every worker thread is: a file a parent process can read after a crash, and a
/// counter a watchdog can compare.
pub struct Progress {
    file: Option<std::fs::File>,
    component: AtomicU64,
    pub beats: [AtomicU64; 16],
}
pub static PROGRESS: std::sync::OnceLock<Progress> = std::sync::OnceLock::new();

impl Progress {
    pub fn new(file: Option<std::fs::File>) -> Progress {
        Progress { file, component: AtomicU64::new(0), beats: [const { AtomicU64::new(0) }; 16] }
    }
    pub fn component(&self, i: usize) {
        self.component.store(i as u64, Ordering::Relaxed);
    }
    fn chunk(&self, thread: usize, start: u64, len: u64) {
        use std::os::unix::fs::FileExt;
        if let Some(f) = &self.file {
            let mut b = vec![];
            for x in [self.component.load(Ordering::Relaxed), start, len] {
                b.extend(x.to_le_bytes());
            }
            let _ = f.write_all_at(&b, thread as u64 * 24);
        }
    }
    /// (component, first case, number of cases) of every thread.
    pub fn read(b: &[u8]) -> Vec<(usize, u64, u64)> {
        let n = |x: &[u8]| u64::from_le_bytes(x.try_into().unwrap());
        b.chunks_exact(24).map(|c| (n(&c[..8]) as usize, n(&c[8..16]), n(&c[16..]))).filter(|c| c.2 > 0).collect()
    }
}

pub fn case_seed(seed: u64, name: &str, i: u64) -> u64 {
    mix(hash_of(&(seed, name)).wrapping_add(mix(i)))
}

/// Runs `n` cases on all cores; returns statistics and the failing case of lowest index.
pub fn run(name: &str, seed: u64, n: u64, threads: usize, f: &CaseFn) -> (Stats, Option<Found>) {
    let next = AtomicU64::new(0);
    let first_bad = AtomicU64::new(u64::MAX);
    let found: Mutex<Option<Found>> = Mutex::new(None);
    let total: Mutex<Stats> = Mutex::new(Stats::default());
    const CHUNK: u64 = 8;
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (next, first_bad, found, total) = (&next, &first_bad, &found, &total);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, move || {
                    let progress = PROGRESS.get();
                    let mut st = Stats::default();
                    loop {
                        let a = next.fetch_add(CHUNK, Ordering::Relaxed);
                        if a >= n || a > first_bad.load(Ordering::Relaxed) {
                            break;
                        }
                        if let Some(p) = progress {
                            p.chunk(t, a, (a + CHUNK).min(n) - a);
                        }
                        for i in a..(a + CHUNK).min(n) {
                            if let Some(p) = progress {
                                p.beats[t % 16].fetch_add(1, Ordering::Relaxed);
                            }
                            let mut src = Src::random(case_seed(seed, name, i));
                            let sampled = i % 997 == 5 && i < 10_000;
                            if sampled {
                                src.trace = Some(vec![]);
                            }
                            let c = f(&mut src);
                            st.cases += 1;
                            st.steps += c.steps;
                            for l in c.labels {
                                *st.labels.entry(l).or_default() += 1;
                            }
                            for k in c.known {
                                *st.known.entry(k).or_default() += 1;
                            }
                            st.distinct.extend(c.nontrivial);
                            if sampled {
                                let t = src.trace.take().unwrap().join("; ");
                                st.samples.push((i, format!("{name}#{i}: {}", clip(&t, 900))));
                            }
                            if let Some(fail) = c.fail {
                                first_bad.fetch_min(i, Ordering::Relaxed);
                                let mut g = found.lock().unwrap();
                                if g.as_ref().map_or(true, |x| i < x.index) {
                                    *g = Some(Found { index: i, tape: src.tape, fail });
                                }
                                break;
                            }
                        }
                    }
                    if let Some(p) = progress {
                        p.chunk(t, 0, 0);
                        p.beats[t % 16].store(0, Ordering::Relaxed);
                    }
                    total.lock().unwrap().merge(st);
                })
                .unwrap();
        }
    });
    (total.into_inner().unwrap(), found.into_inner().unwrap())
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}…", &s[..e])
}

/// Minimises a failing tape: deletes spans and chunks, zeroes, and lowers values, keeping any
/// failure with the same signature. The number of executions is bounded.
pub fn shrink(f: &CaseFn, start: Found, budget: usize) -> Found {
    let left = std::cell::Cell::new(budget);
    let sig = start.fail.sig.clone();
    let index = start.index;
    let attempt = |t: Vec<u64>| -> Option<(Vec<u64>, Vec<(usize, usize)>, Failure)> {
        if left.get() == 0 {
            return None;
        }
        left.set(left.get() - 1);
        let mut s = Src::replay(t);
        let c = f(&mut s);
        match c.fail {
            Some(x) if x.sig == sig => Some((s.tape, s.spans, x)),
            _ => None,
        }
    };
    let Some(mut best) = attempt(start.tape.clone()) else { return start };
    loop {
        let before = best.0.clone();
        // delete whole spans, largest first
        let mut progress = true;
        while progress && left.get() > 0 {
            progress = false;
            let mut sp = best.1.clone();
            sp.retain(|(a, b)| b > a && *b <= best.0.len());
            sp.sort_by_key(|(a, b)| std::cmp::Reverse(b - a));
            for (a, b) in sp {
                let mut t = best.0.clone();
                t.drain(a..b);
                if t.len() >= best.0.len() {
                    continue;
                }
                // a deleted repetition usually has a count somewhere before it
                let mut cands = vec![t.clone()];
                for j in (0..a).rev().take(40) {
                    if t[j] > 0 && t[j] < 64 {
                        let mut u = t.clone();
                        u[j] -= 1;
                        cands.push(u);
                    }
                }
                if let Some(x) = cands.into_iter().find_map(|c| attempt(c).filter(|x| simpler(&x.0, &best.0))) {
                    best = x;
                    progress = true;
                    break;
                }
            }
        }
        // delete chunks
        let mut w = 8;
        while w >= 1 && left.get() > 0 {
            let mut i = 0;
            while i + w <= best.0.len() && left.get() > 0 {
                let mut t = best.0.clone();
                t.drain(i..i + w);
                match attempt(t) {
                    Some(x) if simpler(&x.0, &best.0) => best = x,
                    _ => i += w,
                }
            }
            w /= 2;
        }
        // zero chunks, then lower single values
        for w in [8usize, 1] {
            let mut i = 0;
            while i < best.0.len() && left.get() > 0 {
                let e = (i + w).min(best.0.len());
                if best.0[i..e].iter().any(|v| *v != 0) {
                    let mut t = best.0.clone();
                    t[i..e].fill(0);
                    if let Some(x) = attempt(t) {
                        if simpler(&x.0, &best.0) {
                            best = x;
                        }
                    }
                }
                i += w;
            }
        }
        let mut i = 0;
        while i < best.0.len() && left.get() > 0 {
            let (mut lo, mut hi) = (0u64, best.0[i]);
            while lo < hi && left.get() > 0 {
                let mid = lo + (hi - lo) / 2;
                let mut t = best.0.clone();
                t[i] = mid;
                match attempt(t) {
                    Some(x) if simpler(&x.0, &best.0) => {
                        best = x;
                        hi = mid;
                        if i >= best.0.len() {
                            break;
                        }
                    }
                    _ => lo = mid + 1,
                }
            }
            i += 1;
        }
        if best.0 == before || left.get() == 0 {
            break;
        }
    }
    Found { index, tape: best.0, fail: best.2 }
}
fn simpler(a: &[u64], b: &[u64]) -> bool {
    (a.len(), a) < (b.len(), b)
}

pub fn tape_json(t: &[u64]) -> Value {
    json!(t.iter().map(|v| v.to_string()).collect::<Vec<_>>())
}
pub fn tape_from(v: &Value) -> Option<Vec<u64>> {
    v.as_array()?.iter().map(|x| x.as_str()?.parse().ok()).collect()
}
