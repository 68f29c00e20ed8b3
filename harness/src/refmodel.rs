//! Reference models, each written from the documented rule and sharing no code
//! with the library.

use dockerfile_parser::ImageRef;
use std::collections::{BTreeMap, BTreeSet, HashMap};

/// Registry rule: the part before the first slash, if it is `localhost` or has
/// a dot or colon. Then `@` introduces a hash, else `:` a tag.
pub fn decompose(s: &str) -> ImageRef {
  let mut registry = None;
  let mut rest = s;
  if let Some(p) = s.bytes().position(|b| b == b'/') {
    let head = &s[..p];
    if head == "localhost" || head.bytes().any(|b| b == b'.' || b == b':') {
      registry = Some(head.to_string());
      rest = &s[p + 1..];
    }
  }
  let (mut image, mut tag, mut hash) = (rest.to_string(), None, None);
  if let Some(p) = rest.bytes().position(|b| b == b'@') {
    image = rest[..p].to_string();
    hash = Some(rest[p + 1..].to_string());
  } else if let Some(p) = rest.bytes().position(|b| b == b':') {
    image = rest[..p].to_string();
    tag = Some(rest[p + 1..].to_string());
  }
  ImageRef { registry, image, tag, hash }
}

/// Pieces of a text with variable references.
#[derive(Debug, Clone, PartialEq)]
pub enum Part {
  Text(String),
  Var(String),
}

fn is_name(b: u8) -> bool {
  b.is_ascii_alphanumeric() || b == b'_'
}

pub fn split_vars(s: &str) -> Vec<Part> {
  let b = s.as_bytes();
  let mut out = Vec::new();
  let mut text = String::new();
  let mut i = 0;
  while i < b.len() {
    if b[i] == b'$' {
      let mut j = i + 1;
      while j < b.len() && is_name(b[j]) {
        j += 1;
      }
      if j > i + 1 {
        out.push(Part::Text(std::mem::take(&mut text)));
        out.push(Part::Var(s[i + 1..j].to_string()));
        i = j;
        continue;
      }
      if b.get(i + 1) == Some(&b'{') {
        let mut j = i + 2;
        while j < b.len() && is_name(b[j]) {
          j += 1;
        }
        if j > i + 2 && b.get(j) == Some(&b'}') {
          out.push(Part::Text(std::mem::take(&mut text)));
          out.push(Part::Var(s[i + 2..j].to_string()));
          i = j + 1;
          continue;
        }
      }
    }
    let c = s[i..].chars().next().unwrap();
    text.push(c);
    i += c.len_utf8();
  }
  out.push(Part::Text(text));
  out
}

/// What substitution must give. `Budget` = the expansion is too large to be
/// worth running (exponential fan-out), the case is skipped.
#[derive(Debug, Clone, PartialEq)]
pub enum Sub {
  None,
  Some(String, BTreeSet<String>),
  Budget,
}

/// Memoised by variable, not recursive on the library's scheme: computes for
/// every variable its nesting height, then the expansions bottom-up.
pub fn substitute_model(s: &str, vars: &HashMap<String, String>, limit: usize) -> Sub {
  // height(text) = 0 without variables, else 1 + max height of their values;
  // undefined or cyclic => infinite
  fn height(
    parts: &[Part],
    vars: &HashMap<String, String>,
    memo: &mut BTreeMap<String, Option<usize>>,
    open: &mut Vec<String>,
  ) -> Option<usize> {
    let mut h = 0;
    for p in parts {
      if let Part::Var(v) = p {
        if open.contains(v) {
          return None;
        }
        let hv = match memo.get(v) {
          Some(x) => *x,
          None => {
            let r = match vars.get(v) {
              None => None,
              Some(t) => {
                open.push(v.clone());
                let r = height(&split_vars(t), vars, memo, open);
                open.pop();
                r
              }
            };
            memo.insert(v.clone(), r);
            r
          }
        };
        h = h.max(hv? + 1);
      }
    }
    Some(h)
  }
  let top = split_vars(s);
  let mut memo = BTreeMap::new();
  let h = height(&top, vars, &mut memo, &mut Vec::new());
  // work the library does: number of nested calls, cut at the limit
  fn calls(parts: &[Part], vars: &HashMap<String, String>, left: usize, n: &mut u64) {
    for p in parts {
      if *n > 20_000 || left == 0 {
        return;
      }
      *n += 1;
      if let Part::Var(v) = p {
        if let Some(t) = vars.get(v) {
          calls(&split_vars(t), vars, left - 1, n);
        } else {
          return;
        }
      }
    }
  }
  let mut n = 0;
  calls(&top, vars, limit, &mut n);
  if n > 20_000 {
    return Sub::Budget;
  }
  match h {
    Some(h) if h <= limit => {
      let mut used = BTreeSet::new();
      fn expand(parts: &[Part], vars: &HashMap<String, String>, used: &mut BTreeSet<String>, out: &mut String) {
        for p in parts {
          match p {
            Part::Text(t) => out.push_str(t),
            Part::Var(v) => {
              used.insert(v.clone());
              expand(&split_vars(&vars[v]), vars, used, out);
            }
          }
        }
      }
      let mut out = String::new();
      expand(&top, vars, &mut used, &mut out);
      Sub::Some(out, used)
    }
    _ => Sub::None,
  }
}

/// Docker's line processing of the source text of one multi-line string:
/// comment lines dropped, trailing backslash (+blanks) of a line dropped,
/// remaining pieces joined with nothing between.
pub fn logical_line(src: &str) -> String {
  let mut out = String::new();
  let lines = split_lines(src);
  for (i, line) in lines.iter().enumerate() {
    // the first line is the rest of the instruction's own line
    if i > 0 && line.trim_start_matches([' ', '\t']).starts_with('#') {
      continue;
    }
    if i + 1 == lines.len() {
      out.push_str(line);
      continue;
    }
    // backslash, then blanks up to the line break
    out.push_str(match line.trim_end_matches([' ', '\t']).strip_suffix('\\') {
      Some(c) => c,
      None => line,
    });
  }
  out
}

/// Lines at LF, CRLF or CR.
pub fn split_lines(src: &str) -> Vec<&str> {
  let b = src.as_bytes();
  let mut v = Vec::new();
  let (mut a, mut i) = (0, 0);
  while i < b.len() {
    if b[i] == b'\n' || b[i] == b'\r' {
      v.push(&src[a..i]);
      i += if src[i..].starts_with("\r\n") { 2 } else { 1 };
      a = i;
    } else {
      i += 1;
    }
  }
  v.push(&src[a..]);
  v
}

/// (line, byte column) of an offset: line feeds before it.
pub fn line_col(text: &str, at: usize) -> (usize, usize) {
  let head = &text.as_bytes()[..at];
  let line = head.iter().filter(|b| **b == b'\n').count();
  let col = match head.iter().rposition(|b| *b == b'\n') {
    Some(p) => at - p - 1,
    None => at,
  };
  (line, col)
}

#[derive(Debug, Clone, PartialEq)]
pub enum Parent {
  Scratch,
  Stage(usize),
  Image(String),
}

#[derive(Debug, Clone, PartialEq)]
pub struct StageModel {
  pub name: Option<String>,
  pub parent: Parent,
  pub root: Parent,
  /// indexes into the instruction list
  pub members: std::ops::Range<usize>,
}

/// froms: (instruction index, image text, alias); total: instruction count.
pub fn stages(froms: &[(usize, String, Option<String>)], total: usize) -> Vec<StageModel> {
  let lower = |s: &str| -> String { s.chars().map(|c| c.to_ascii_lowercase()).collect() };
  let mut v: Vec<StageModel> = Vec::new();
  for (k, (at, image, alias)) in froms.iter().enumerate() {
    let end = froms.get(k + 1).map_or(total, |n| n.0);
    let img = lower(image);
    let mut parent = if img == "scratch" { Parent::Scratch } else { Parent::Image(image.clone()) };
    if parent != Parent::Scratch {
      for (j, f) in froms[..k].iter().enumerate() {
        if f.2.as_ref().map(|a| lower(a)) == Some(img.clone()) {
          parent = Parent::Stage(j);
          break;
        }
      }
    }
    let mut root = parent.clone();
    while let Parent::Stage(j) = root {
      root = v[j].parent.clone();
    }
    v.push(StageModel { name: alias.as_ref().map(|a| lower(a)), parent, root, members: *at..end });
  }
  v
}

/// Splicing model: the original text plus the latest replacement per span.
pub struct SpliceModel {
  orig: String,
  /// maximal replaced spans in original coordinates, disjoint; zero-width
  /// spans come before a span starting at the same place
  done: BTreeMap<(usize, usize), String>,
}

impl SpliceModel {
  pub fn new(s: &str) -> SpliceModel {
    SpliceModel { orig: s.to_string(), done: BTreeMap::new() }
  }
  pub fn splice(&mut self, a: usize, b: usize, r: &str) {
    // an enclosing replacement swallows the ones inside it
    self.done.retain(|k, _| {
      let inside = k.0 >= a && k.1 <= b && a < b && !(k.0 == k.1 && (k.0 == a || k.0 == b));
      !inside
    });
    self.done.insert((a, b), r.to_string());
  }
  pub fn content(&self) -> String {
    let mut o = String::new();
    let mut p = 0;
    for ((a, b), r) in &self.done {
      o.push_str(&self.orig[p..*a]);
      o.push_str(r);
      p = *b;
    }
    o.push_str(&self.orig[p..]);
    o
  }
}

impl SpliceModel {
  pub fn entries(&self) -> Vec<((usize, usize), String)> {
    self.done.iter().map(|(k, r)| (*k, r.clone())).collect()
  }
}
