//! Case context: random choices, observations and verdicts of one worker.
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
  pub fn new(seed: u64) -> Rng { Rng(seed) }
  pub fn next(&mut self) -> u64 {
    self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = self.0;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
  }
  /// uniform in 0..n
  pub fn below(&mut self, n: usize) -> usize {
    if n == 0 { 0 } else { (self.next() % n as u64) as usize }
  }
  /// uniform in lo..=hi
  pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.below(hi - lo + 1) }
  /// true with probability num/den
  pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
  pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { &xs[self.below(xs.len())] }
  pub fn shuffle<T>(&mut self, xs: &mut [T]) {
    for i in (1..xs.len()).rev() {
      xs.swap(i, self.below(i + 1));
    }
  }
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
  // fixed keys: the same value hashes alike in every process
  let mut h = Fnv(0xcbf29ce484222325);
  t.hash(&mut h);
  h.finish()
}
struct Fnv(u64);
impl Hasher for Fnv {
  fn finish(&self) -> u64 { self.0 }
  fn write(&mut self, bytes: &[u8]) {
    for b in bytes {
      self.0 ^= *b as u64;
      self.0 = self.0.wrapping_mul(0x100000001b3);
    }
  }
}

pub struct Viol {
  pub case: u64,
  pub key: String,
  pub detail: String,
}

pub struct Cx {
  pub rng: Rng,
  pub case: u64,
  pub thorough: bool,
  pub evaluations: u64,
  pub distinct: HashSet<u64>,
  pub counters: BTreeMap<String, u64>,
  pub samples: Vec<String>,
  pub viols: Vec<Viol>,
  pub inconclusive: Vec<String>,
  /// what the current case is doing, for reports about panics
  pub doing: String,
  pub scratch: std::path::PathBuf,
}

impl Cx {
  /// One oracle evaluation on an input identified by `id`; `nontrivial` by the property's rule.
  pub fn eval<T: Hash + ?Sized>(&mut self, id: &T, nontrivial: bool) {
    self.evaluations += 1;
    // (counting stops at a bound, for memory's sake)
    if nontrivial && self.distinct.len() < 2_000_000 {
      self.distinct.insert(hash_of(id));
    }
  }
  /// count events the monitor observed
  pub fn seen(&mut self, what: &str, n: u64) {
    if n > 0 {
      *self.counters.entry(what.to_string()).or_insert(0) += n;
    }
  }
  pub fn fail(&mut self, key: &str, detail: String) {
    if self.viols.len() < 50 {
      self.viols.push(Viol { case: self.case, key: key.to_string(), detail });
    }
  }
  pub fn sample(&mut self, f: impl FnOnce() -> String) {
    if self.samples.len() < 3 {
      self.samples.push(clip(&f(), 600));
    }
  }
  pub fn check(&mut self, ok: bool, key: &str, detail: impl FnOnce() -> String) -> bool {
    if !ok {
      let d = detail();
      self.fail(key, d);
    }
    ok
  }
}

pub fn clip(s: &str, n: usize) -> String {
  if s.chars().count() <= n {
    s.to_string()
  } else {
    s.chars().take(n).collect::<String>() + "…"
  }
}
