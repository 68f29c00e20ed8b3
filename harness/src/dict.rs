//! A fuzzing dictionary taken from the code under test: the words, characters
//! and sizes its source mentions are worth trying as input. It only steers
//! generation; what is right is decided by the oracles alone.

use crate::tape::Src;
use std::collections::HashSet;
use std::path::{Path, PathBuf};
use std::sync::OnceLock;

#[derive(Default, Debug)]
pub struct Dict {
  /// in the order of the source, with repetitions
  pub seq: Vec<String>,
  pub words: Vec<String>,
  pub chars: Vec<char>,
  pub nums: Vec<u32>,
}

fn files(d: &Path, v: &mut Vec<PathBuf>) {
  if let Ok(r) = std::fs::read_dir(d) {
    for e in r.flatten() {
      let p = e.path();
      if p.is_dir() {
        files(&p, v);
      } else if p.extension().map_or(false, |x| x == "rs" || x == "pest") {
        v.push(p);
      }
    }
  }
}

/// The text of an escape sequence after the backslash at `i`, and the index behind it.
fn escape(c: &[char], mut i: usize) -> (Option<char>, usize) {
  let e = match c.get(i) {
    Some(e) => *e,
    None => return (None, i),
  };
  i += 1;
  match e {
    'n' => (Some('\n'), i),
    't' => (Some('\t'), i),
    'r' => (Some('\r'), i),
    '0' => (Some('\0'), i),
    'x' => {
      let h: String = c[i..c.len().min(i + 2)].iter().collect();
      (u32::from_str_radix(&h, 16).ok().and_then(char::from_u32), i + 2)
    }
    'u' if c.get(i) == Some(&'{') => {
      let end = (i..c.len()).find(|k| c[*k] == '}').unwrap_or(c.len());
      let h: String = c[i + 1..end].iter().collect();
      (u32::from_str_radix(&h, 16).ok().and_then(char::from_u32), end + 1)
    }
    '\n' => {
      while i < c.len() && c[i].is_whitespace() {
        i += 1;
      }
      (None, i)
    }
    e => (Some(e), i),
  }
}

fn scan(text: &str, pest: bool, strings: &mut Vec<String>, nums: &mut Vec<u64>) {
  let text = match text.find("#[cfg(test)]\nmod tests") {
    Some(i) => &text[..i],
    None => text,
  };
  let c: Vec<char> = text.chars().collect();
  let mut i = 0;
  // an operator waiting for its right hand side
  let mut op: Option<(u64, char)> = None;
  let mut last: Option<u64> = None;
  while i < c.len() {
    let at = |k: usize| c.get(i + k).copied().unwrap_or('\0');
    match c[i] {
      '/' if at(1) == '/' => {
        while i < c.len() && c[i] != '\n' {
          i += 1;
        }
        continue;
      }
      '/' if at(1) == '*' => {
        i += 2;
        while i + 1 < c.len() && !(c[i] == '*' && c[i + 1] == '/') {
          i += 1;
        }
        i += 2;
        continue;
      }
      'r' if !pest && (at(1) == '"' || (at(1) == '#' && (at(2) == '"' || at(2) == '#'))) => {
        let mut h = 0;
        i += 1;
        while i < c.len() && c[i] == '#' {
          h += 1;
          i += 1;
        }
        i += 1;
        let start = i;
        while i < c.len() && !(c[i] == '"' && (1..=h).all(|k| c.get(i + k) == Some(&'#'))) {
          i += 1;
        }
        strings.push(c[start..i.min(c.len())].iter().collect());
        i += h + 1;
      }
      '"' => {
        let mut t = String::new();
        i += 1;
        while i < c.len() && c[i] != '"' {
          if c[i] == '\\' {
            let (x, n) = escape(&c, i + 1);
            t.extend(x);
            i = n;
          } else {
            t.push(c[i]);
            i += 1;
          }
        }
        i += 1;
        strings.push(t);
      }
      '\'' if at(1) == '\\' => {
        let (x, n) = escape(&c, i + 2);
        strings.extend(x.map(|x| x.to_string()));
        i = n + 1;
      }
      '\'' if at(2) == '\'' => {
        strings.push(at(1).to_string());
        i += 3;
      }
      x if x.is_ascii_digit() => {
        let start = i;
        while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') {
          i += 1;
        }
        let mut t: String = c[start..i].iter().filter(|x| **x != '_').collect();
        for suffix in ["usize", "isize", "u64", "i64", "u32", "i32", "u16", "i16", "u8", "i8"] {
          if let Some(x) = t.strip_suffix(suffix) {
            t = x.to_string();
          }
        }
        let n = match t.strip_prefix("0x") {
          Some(h) => u64::from_str_radix(h, 16).ok(),
          None => t.parse().ok(),
        };
        if let Some(n) = n {
          nums.push(n);
          if let Some((a, o)) = op {
            nums.extend(match o {
              '<' if n < 40 => a.checked_shl(n as u32),
              '*' => a.checked_mul(n),
              _ => None,
            });
          }
          last = match op {
            Some((a, '*')) => a.checked_mul(n),
            _ => Some(n),
          };
        }
        op = None;
        continue;
      }
      x if x.is_alphabetic() || x == '_' => {
        let start = i;
        while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
          i += 1;
        }
        let t: String = c[start..i].iter().collect();
        match t.as_str() {
          "u8" => nums.push(u8::MAX.into()),
          "i8" => nums.push(i8::MAX as u64),
          "u16" => nums.push(u16::MAX.into()),
          "i16" => nums.push(i16::MAX as u64),
          _ => {}
        }
        last = None;
        op = None;
      }
      '<' if at(1) == '<' => {
        op = last.map(|n| (n, '<'));
        i += 2;
      }
      '*' => {
        op = last.map(|n| (n, '*'));
        i += 1;
      }
      x if x.is_whitespace() => i += 1,
      _ => {
        last = None;
        op = None;
        i += 1;
      }
    }
  }
}

fn load() -> Dict {
  let mut v = Vec::new();
  files(Path::new(env!("REPO_SRC")), &mut v);
  v.sort();
  let (mut strings, mut nums) = (Vec::new(), Vec::new());
  for f in v {
    if let Ok(t) = std::fs::read_to_string(&f) {
      scan(&t, f.extension().map_or(false, |x| x == "pest"), &mut strings, &mut nums);
    }
  }
  // messages and format strings are no input
  strings.retain(|t| {
    let n = t.chars().count();
    n > 0 && n <= 80 && !(n > 20 && t.contains(' ')) && !t.contains("{}") && !t.contains("{:")
  });
  nums.sort();
  nums.dedup();
  make(strings, nums.into_iter().filter(|n| (3..=1 << 25).contains(n)).map(|n| n as u32).collect())
}

fn make(seq: Vec<String>, nums: Vec<u32>) -> Dict {
  let mut seen = HashSet::new();
  let words: Vec<String> = seq.iter().filter(|t| seen.insert(t.as_str())).cloned().collect();
  let chars = words.iter().filter(|t| t.chars().count() == 1).flat_map(|t| t.chars()).collect();
  Dict { seq, words, chars, nums }
}

static D: OnceLock<Dict> = OnceLock::new();

pub fn get() -> &'static Dict {
  D.get_or_init(load)
}

/// The dictionary as a line of a replay file: its choices refer to it.
pub fn line() -> String {
  let d = get();
  let hex = |t: &String| t.bytes().map(|b| format!("{:02x}", b)).collect::<String>();
  let words: Vec<String> = d.seq.iter().map(hex).collect();
  let nums: Vec<String> = d.nums.iter().map(|n| n.to_string()).collect();
  format!("dictionary={} {}", words.join(","), nums.join(","))
}

/// Takes the dictionary of a replay file instead of the source's.
pub fn set(replay: &str) {
  let l = match replay.lines().find_map(|l| l.strip_prefix("dictionary=")) {
    Some(l) => l,
    None => return,
  };
  let (w, n) = l.split_once(' ').unwrap_or((l, ""));
  let word = |w: &str| {
    let b: Vec<u8> = (0..w.len() / 2).filter_map(|i| u8::from_str_radix(&w[2 * i..2 * i + 2], 16).ok()).collect();
    String::from_utf8_lossy(&b).to_string()
  };
  let d = make(w.split(',').filter(|w| !w.is_empty()).map(word).collect(), n.split(',').filter_map(|n| n.parse().ok()).collect());
  let _ = D.set(d);
}

/// How many neighbouring literals a case with a theme draws from.
const THEME: usize = 4;

/// One case in 16 has a theme: a few literals next to each other in the
/// source, which then turn up everywhere in the case.
fn themed(s: &mut Src) -> Option<usize> {
  if s.theme.is_none() {
    let n = get().seq.len();
    let on = n >= THEME && s.chance(1, 16);
    s.theme = Some(if on { Some(s.below((n - THEME + 1) as u32) as usize) } else { None });
  }
  s.theme.unwrap()
}

/// A text made of what the source mentions.
pub fn word(s: &mut Src) -> String {
  let d = get();
  if d.words.is_empty() {
    return "x".into();
  }
  let (w, plain) = match themed(s) {
    Some(i) => (s.pick(&d.seq[i..i + THEME]).clone(), 24),
    None => (s.pick(&d.words).clone(), 6),
  };
  match s.weighted(&[plain, 2, 2, 2, 1, 1, 1]) {
    0 => w,
    1 => {
      let x = tail(s);
      w + &x
    }
    2 => {
      let x = tail(s);
      x + &w
    }
    3 => {
      let x = if s.bool() { tail(s) } else { String::new() };
      let v = s.pick(&d.words).clone();
      w + &x + &v
    }
    4 => w.to_uppercase(),
    5 => w.to_lowercase(),
    _ => {
      let n = 2 + s.small(6);
      w.repeat(n as usize)
    }
  }
}

/// Keeps a generated text for `hint`.
pub fn keep(s: &mut Src, t: &str) {
  if t.is_empty() || t.len() > 60 {
    return;
  }
  if s.recent.len() < 8 {
    s.recent.push(t.to_string());
  } else {
    let i = s.kept % 8;
    s.recent[i] = t.to_string();
  }
  s.kept += 1;
}

/// Now and then a text to use in place of a fresh one: a word of the source,
/// or one that this case used before, as it was or nearly so.
pub fn hint(s: &mut Src) -> Option<String> {
  let k = s.below(40);
  let dictionary = match themed(s) {
    Some(_) => k >= 22 && k < 37,
    None => k >= 36 && k < 38,
  };
  if dictionary {
    return Some(word(s));
  }
  if k < 37 || s.recent.is_empty() {
    return None;
  }
  let r = s.recent.clone();
  let w = s.pick(&r).clone();
  Some(match s.weighted(&[8, 2, 2, 1, 1, 1, 1, 1, 1]) {
    0 => w,
    1 => format!("${}", w),
    2 => format!("${{{}}}", w),
    3 => {
      let x = tail(s);
      format!("${}{}", w, x)
    }
    4 => w.to_uppercase(),
    5 => w.to_lowercase(),
    6 => {
      let x = tail(s);
      w + &x
    }
    7 => {
      let x = tail(s);
      x + &w
    }
    _ => {
      let v = s.pick(&r).clone();
      let x = *s.pick(&["", "=", ":", "/", "-", " "]);
      w + x + &v
    }
  })
}

fn tail(s: &mut Src) -> String {
  let n = 1 + s.small(5);
  (0..n).map(|_| *s.pick(&['a', 'b', 'x', '0', '1', 'A', '-', '_', '.', '/', ':', '='])).collect()
}

pub fn char(s: &mut Src) -> char {
  let d = get();
  if d.chars.is_empty() {
    'x'
  } else {
    *s.pick(&d.chars)
  }
}

/// A size near one the source mentions.
pub fn count(s: &mut Src) -> Option<u32> {
  let d = get();
  if d.nums.is_empty() {
    return None;
  }
  let n = *s.pick(&d.nums);
  if n > s.cap || (s.mega && n > 1000) {
    return None;
  }
  if n > s.unit && !s.chance(1, n / s.unit + 1) {
    return None;
  }
  if n > 1000 {
    s.mega = true;
  }
  Some(match s.below(6) {
    0 => n,
    1 => n + 1,
    2 => n - 1,
    3 => n + 2,
    4 => n + n / 8 + 3,
    _ => n + s.below(n),
  })
}
