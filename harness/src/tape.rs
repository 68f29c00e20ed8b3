//! Choice-sequence ("tape") generation with integrated shrinking.
//!
//! Every random decision of every generator is one call of `Src::below`, so a
//! case is fully described by the sequence of numbers drawn. Shrinking edits
//! that sequence and re-runs generator + check; the same generators are driven
//! by libFuzzer through `Src::from_bytes`.

use std::fs::File;
use std::io::Write;

/// xoshiro256** seeded by splitmix64; deterministic, no platform dependence.
pub struct Rng([u64; 4]);

fn splitmix(x: &mut u64) -> u64 {
  *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
  let mut z = *x;
  z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
  z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
  z ^ (z >> 31)
}

impl Rng {
  pub fn new(seed: u64) -> Rng {
    let mut x = seed;
    Rng([splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)])
  }
  pub fn next(&mut self) -> u64 {
    let s = &mut self.0;
    let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
    let t = s[1] << 17;
    s[2] ^= s[0];
    s[3] ^= s[1];
    s[1] ^= s[2];
    s[0] ^= s[3];
    s[2] ^= t;
    s[3] = s[3].rotate_left(45);
    r
  }
}

enum Mode {
  Rand(Rng),
  Replay(Vec<u32>),
  Bytes(Vec<u8>),
}

pub struct Src {
  mode: Mode,
  pos: usize,
  /// the choices made so far
  pub rec: Vec<u32>,
  dump: Option<File>,
  /// the largest size the dictionary may propose (see dict.rs)
  pub cap: u32,
  /// sizes above this are proposed ever more rarely
  pub unit: u32,
  /// a very large part was made already
  pub mega: bool,
  /// the case's theme, once decided (see dict.rs)
  pub theme: Option<Option<usize>>,
  /// texts generated lately, and how many there were
  pub recent: Vec<String>,
  pub kept: usize,
}

const MAX_CHOICES: usize = 400_000;

impl Src {
  fn with(mode: Mode) -> Src {
    Src { mode, pos: 0, rec: Vec::new(), dump: None, cap: 3000, unit: 512, mega: false, theme: None, recent: Vec::new(), kept: 0 }
  }
  pub fn random(seed: u64) -> Src {
    Src::with(Mode::Rand(Rng::new(seed)))
  }
  pub fn replay(choices: Vec<u32>) -> Src {
    Src::with(Mode::Replay(choices))
  }
  pub fn from_bytes(b: &[u8]) -> Src {
    Src::with(Mode::Bytes(b.to_vec()))
  }
  /// Also write each choice to `f` as it is drawn (survives an abort).
  pub fn dump_to(&mut self, f: File) {
    self.dump = Some(f);
  }

  /// A number in 0..n. 0 is the simplest choice.
  pub fn below(&mut self, n: u32) -> u32 {
    debug_assert!(n > 0);
    let v = if n <= 1 || self.rec.len() >= MAX_CHOICES {
      0
    } else {
      match &mut self.mode {
        Mode::Rand(r) => ((r.next() >> 32).wrapping_mul(n as u64) >> 32) as u32,
        Mode::Replay(c) => {
          let v = c.get(self.pos).copied().unwrap_or(0);
          self.pos += 1;
          v.min(n - 1)
        }
        Mode::Bytes(b) => {
          let k = if n <= 256 { 1 } else if n <= 65536 { 2 } else { 4 };
          let mut v = 0u32;
          for _ in 0..k {
            v = (v << 8) | b.get(self.pos).copied().unwrap_or(0) as u32;
            self.pos += 1;
          }
          v % n
        }
      }
    };
    if n > 1 {
      self.rec.push(v);
      if let Some(f) = &mut self.dump {
        let _ = f.write_all(format!("{}\n", v).as_bytes());
      }
    }
    v
  }

  /// True with probability num/den; the simple outcome is false.
  pub fn chance(&mut self, num: u32, den: u32) -> bool {
    self.below(den) >= den - num
  }
  pub fn bool(&mut self) -> bool {
    self.below(2) == 1
  }
  /// a..=b, simplest a
  pub fn range(&mut self, a: u32, b: u32) -> u32 {
    a + self.below(b - a + 1)
  }
  pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
    &xs[self.below(xs.len() as u32) as usize]
  }
  /// Index chosen by weight; index 0 is the simplest.
  pub fn weighted(&mut self, ws: &[u32]) -> usize {
    let total: u32 = ws.iter().sum();
    let mut v = self.below(total);
    for (i, w) in ws.iter().enumerate() {
      if v < *w {
        return i;
      }
      v -= w;
    }
    ws.len() - 1
  }
  /// A count 0..=max, geometric-ish: small values are likely.
  pub fn small(&mut self, max: u32) -> u32 {
    let a = self.below(max + 1);
    let b = self.below(max + 1);
    a.min(b)
  }
}

/// What a case reports besides pass/fail.
#[derive(Default)]
pub struct Ctx {
  pub tags: Vec<&'static str>,
  pub nontrivial: bool,
  /// precondition not met (counted, not a pass of the oracle)
  pub skipped: bool,
  /// the concrete case, for samples, distinctness and replay files
  pub input: String,
  pub thorough: bool,
}

impl Ctx {
  pub fn tag(&mut self, t: &'static str) {
    if !self.tags.contains(&t) {
      self.tags.push(t);
    }
  }
  pub fn tag_if(&mut self, c: bool, t: &'static str) {
    if c {
      self.tag(t)
    }
  }
}

pub type R = Result<(), String>;

#[macro_export]
macro_rules! ensure {
  ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

/// Shrinks a failing choice sequence; `fails` says whether a candidate fails.
pub fn shrink(mut best: Vec<u32>, budget: usize, fails: &mut dyn FnMut(&[u32]) -> Option<Vec<u32>>) -> Vec<u32> {
  let mut evals = 0usize;
  // returns true and updates best if cand still fails and is smaller
  let mut attempt = |best: &mut Vec<u32>, cand: Vec<u32>, evals: &mut usize| -> bool {
    if *evals >= budget {
      return false;
    }
    *evals += 1;
    if let Some(rec) = fails(&cand) {
      // use what was really consumed
      let r = if (rec.len(), &rec) < (cand.len(), &cand) { rec } else { cand };
      if (r.len(), &r) < (best.len(), best) {
        *best = r;
        return true;
      }
    }
    false
  };
  loop {
    let before = best.clone();
    // delete chunks
    let mut size = (best.len() / 2).max(1);
    while size >= 1 {
      let mut i = best.len();
      while i > 0 {
        let start = i.saturating_sub(size);
        if start < best.len() {
          let mut c = best.clone();
          c.drain(start..i.min(best.len()));
          if attempt(&mut best, c, &mut evals) {
            i = start.min(best.len());
            continue;
          }
        }
        i = i.saturating_sub(size.max(1));
      }
      if size == 1 {
        break;
      }
      size /= 2;
    }
    // zero chunks
    for size in [16usize, 4, 1] {
      let mut i = 0;
      while i < best.len() {
        let end = (i + size).min(best.len());
        if best[i..end].iter().any(|v| *v != 0) {
          let mut c = best.clone();
          for v in &mut c[i..end] {
            *v = 0;
          }
          attempt(&mut best, c, &mut evals);
        }
        i += size;
      }
    }
    // lower single values
    let mut i = 0;
    while i < best.len() {
      let mut lo = 0u32;
      while i < best.len() && lo < best[i] {
        let mid = lo + (best[i] - lo) / 2;
        let mut c = best.clone();
        c[i] = mid;
        if !attempt(&mut best, c, &mut evals) {
          lo = mid + 1;
        }
      }
      i += 1;
    }
    // lower a value and delete what follows (counts controlling lists)
    let mut i = 0;
    while i + 1 < best.len() {
      if best[i] > 0 {
        for k in 1..=4usize {
          if i + 1 + k <= best.len() {
            let mut c = best.clone();
            c[i] -= 1;
            c.drain(i + 1..i + 1 + k);
            if attempt(&mut best, c, &mut evals) {
              break;
            }
          }
        }
      }
      i += 1;
    }
    if best == before || evals >= budget {
      return best;
    }
  }
}
