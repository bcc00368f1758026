//! Case runner of the concrete replay: executes the real code on boundary and pseudo-random
//! inputs, compares with the reference, and stops at the first input that breaks the property.
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// numbers for the cases; some byte strings are related to earlier ones, so that what one call leaves behind
/// (a cache, a counter, a buffer) shows in the next
pub struct Rng { s: u64, hist: Vec<Vec<u8>> }
impl Rng {
    pub fn new(seed: u64) -> Rng { Rng { s: seed, hist: vec![] } }
    pub fn u64(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.s;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.u64() % n as u64) as usize }
    fn fresh(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.u64() as u8).collect() }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let v = if n < 4 || self.hist.is_empty() || self.below(5) != 0 { self.fresh(n) } else {
            let same: Vec<usize> = (0..self.hist.len()).filter(|i| self.hist[*i].len() == n).collect();
            let i = if same.is_empty() || self.below(8) == 0 { self.below(self.hist.len()) } else { same[self.below(same.len())] };
            let mut v = self.hist[i].clone(); v.truncate(n);
            let more = self.fresh(n - v.len()); v.extend(more);
            match self.below(8) {
                0 => {}
                1 => { v[n - 1] ^= 1 << self.below(8) }
                2 => { v[0] ^= 1 << self.below(8) }
                3 => { let r = self.fresh(n - n / 2); v.splice(n / 2.., r); }
                4 => { let r = self.fresh(n / 2); v.splice(..n / 2, r); }
                5 => v.reverse(),
                _ => { let i = self.below(n); v[i] ^= 1 << self.below(8) }
            }
            v
        };
        if n >= 4 && n <= 4096 { if self.hist.len() < 12 { self.hist.push(v.clone()) } else { let i = self.below(12); self.hist[i] = v.clone() } }
        v
    }
    /// bytes biased to 00/ff runs, where carries and reductions go wrong
    pub fn edgy(&mut self, n: usize) -> Vec<u8> {
        match self.below(6) {
            0 => vec![0; n],
            1 => vec![0xff; n],
            2 => { let mut v = vec![0xff; n]; if n > 0 { let i = self.below(n); v[i] = self.u64() as u8 } v }
            3 => { let mut v = vec![0; n]; if n > 0 { let i = self.below(n); v[i] = self.u64() as u8 } v }
            _ => self.bytes(n),
        }
    }
    pub fn arr32(&mut self) -> [u8; 32] { let v = self.edgy(32); let mut a = [0; 32]; a.copy_from_slice(&v); a }
    pub fn arr16(&mut self) -> [u8; 16] { let v = self.edgy(16); let mut a = [0; 16]; a.copy_from_slice(&v); a }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len()); &v[i] }
}
pub struct Fail { pub site: String, pub input: String, pub msg: String }
pub struct Ctx {
    pub rng: Rng, pub thorough: bool, pub seed: u64,
    pub evaluations: u64, seen: HashSet<u64>, pub samples: Vec<String>,
    pub fails: Vec<Fail>, pub known: Vec<String>, pub known_hit: Vec<Fail>,
    pub start: Instant, pub budget: Duration,
    pub current: Arc<Mutex<(String, Instant)>>,
    pub per_site: std::collections::BTreeMap<String, u64>,
    /// where to note each case before it runs (used to name the case that ended the process)
    pub trace: Option<String>,
}
pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
impl Ctx {
    pub fn new(seed: u64, thorough: bool, budget: f64, known: Vec<String>) -> Ctx {
        Ctx { rng: Rng::new(seed.wrapping_mul(0x2545F4914F6CDD1D) ^ 0xabcdef), thorough, seed, evaluations: 0, seen: HashSet::new(), samples: vec![], fails: vec![],
            known, known_hit: vec![], start: Instant::now(), budget: Duration::from_secs_f64(budget),
            current: Arc::new(Mutex::new((String::new(), Instant::now()))), per_site: Default::default(), trace: std::env::var("VREPLAY_TRACE").ok() }
    }
    pub fn distinct(&self) -> usize { self.seen.len() }
    /// time left for the pseudo-random part
    pub fn go(&self) -> bool { self.fails.is_empty() && self.start.elapsed() < self.budget }
    pub fn ok(&self) -> bool { self.fails.is_empty() }
    /// `site` identifies the obligation (and the known finding), `input` the concrete case
    pub fn case<F: FnOnce() -> Result<(), String>>(&mut self, site: &str, input: &dyn Fn() -> String, f: F) {
        if !self.fails.is_empty() { return }
        let inp = input();
        self.evaluations += 1;
        *self.per_site.entry(site.to_string()).or_insert(0) += 1;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        site.hash(&mut h); inp.hash(&mut h);
        let fresh = self.seen.insert(h.finish());
        if fresh && self.per_site[site] <= 1 && self.samples.len() < 40 {
            let mut s = format!("{}: {}", site, inp);
            if s.len() > 400 { s.truncate(s.char_indices().take_while(|x| x.0 < 400).last().map(|x| x.0).unwrap_or(0)); s.push_str("...") }
            self.samples.push(s)
        }
        *self.current.lock().unwrap() = (format!("{}: {}", site, inp), Instant::now());
        if let Some(p) = &self.trace { let _ = std::fs::write(p, format!("{}\n{}", site, inp)); }
        let r = catch_unwind(AssertUnwindSafe(f));
        *self.current.lock().unwrap() = (String::new(), Instant::now());
        let msg = match r {
            Ok(Ok(())) => return,
            Ok(Err(m)) => m,
            Err(e) => format!("panic: {}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()),
        };
        let fl = Fail { site: site.to_string(), input: inp, msg };
        if self.known.iter().any(|k| k == site) { if !self.known_hit.iter().any(|x| x.site == site) { self.known_hit.push(fl) } } else { self.fails.push(fl) }
    }
    pub fn eq(&mut self, site: &str, input: &dyn Fn() -> String, real: impl FnOnce() -> Vec<u8>, want: &[u8]) {
        let w = want.to_vec();
        self.case(site, input, move || { let r = real(); if r == w { Ok(()) } else { Err(format!("real code: {} reference: {}", hex(&r), hex(&w))) } });
    }
}
