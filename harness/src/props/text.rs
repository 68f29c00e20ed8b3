//! C01 totality, C02 cost, C03 entry points, C04 span geometry, C05 span text,
//! C26 malformed files, C27 differential against the reference parser, C28
//! displayed commands.

use super::Prop;
use crate::astio::{self, Dec, Node};
use crate::dict;
use crate::gen::{self, ALL_KINDS};
use crate::meter;
use crate::refmodel::{self, Sub};
use crate::refparse::{self, Rej, P};
use crate::tape::{Ctx, Src, R};
use crate::textgen;
use dockerfile_parser::*;
use std::collections::HashMap;
use std::io::{self, Read};

pub fn show(t: &str) -> String {
  if t.len() > 3000 {
    let mut n = 3000;
    while !t.is_char_boundary(n) {
      n -= 1;
    }
    format!("{:?}... ({} bytes)", &t[..n], t.len())
  } else {
    format!("{:?}", t)
  }
}

// ------------------------------------------------------------------- C01

/// Runs every read-only operation; only a panic, abort or hang can fail.
fn exercise(s: &mut Src, d: &Dockerfile) {
  let mut sink = 0usize;
  sink += format!("{:?}", d).len();
  let c = d.clone();
  assert!(c == *d);
  let vars: HashMap<String, String> = d
    .global_args
    .iter()
    .filter_map(|a| a.value.as_ref().map(|v| (a.name.content.clone(), v.content.clone())))
    .collect();
  let mut spans = Vec::new();
  for i in d.instructions.iter().take(2000) {
    sink += i.span().end;
    let t = astio::tree(i);
    astio::all_spans(&t, &mut spans);
    match i {
      Instruction::From(f) => {
        sink += format!("{} {}", f.image_parsed, f.image).len();
        if refmodel::substitute_model(&f.image.content, &vars, 16) != Sub::Budget {
          sink += f.image_parsed.resolve_vars(d).map_or(0, |i| i.to_string().len());
          sink += f.image_parsed.resolve_vars_with_context(d).map_or(0, |i| i.1.len());
        }
      }
      Instruction::Env(e) => e.vars.iter().for_each(|v| sink += v.value.to_string().len()),
      Instruction::Misc(m) => sink += m.arguments.to_string().len(),
      _ => {}
    }
    match astio::expr_of(i) {
      Some(ShellOrExecExpr::Shell(b)) => sink += b.to_string().len() + b.iter_components().count(),
      Some(ShellOrExecExpr::Exec(a)) => sink += a.as_str_vec().len(),
      None => {}
    }
    sink += i.as_from().is_some() as usize + i.as_env().is_some() as usize;
  }
  // relative positions walk the text: bound the total work
  let every = (spans.len() * d.content.len() / 2_000_000).max(1);
  for (_, sp) in spans.iter().step_by(every) {
    let (l, r) = sp.relative_span(d);
    sink += l + r.end;
  }
  let st = d.stages();
  sink += format!("{:?}", st.stages.len()).len();
  for g in st.iter().take(300) {
    sink += g.arg_index("a").unwrap_or(0);
    sink += format!("{} {}", g.parent, g.root).len();
    sink += g.name.as_ref().map_or(0, |n| st.get(n).map_or(0, |g| g.index));
    sink += g.name.as_ref().map_or(0, |n| st.get_by_name(n).map_or(0, |g| g.index));
  }
  for n in ["0", "1", "18446744073709551615", "18446744073709551616", "-1", "", "build", "é", "99999999999999999999999"] {
    sink += st.get(n).map_or(0, |g| g.index);
  }
  sink += d.iter_stages().count();
  for a in ["", "a", "FOO"] {
    sink += d.get_global_arg(a).map_or(0, |a| a.span.end);
  }
  if !spans.is_empty() && d.content.len() < 100_000 {
    let mut sp = d.splicer();
    let mut last = usize::MAX;
    for (_, span) in spans.iter().rev().take(40) {
      if span.end <= last {
        sp.splice(span, s.pick::<&str>(&["", "x", "é", "longer text"]));
        last = span.start;
      }
    }
    sink += sp.content.len();
  }
  std::hint::black_box(sink);
}

fn deep(s: &mut Src, big: bool) -> String {
  let n = if big { s.range(20_000, 60_000) } else { s.range(500, 6000) } as usize;
  let (head, unit, tail): (&str, String, &str) = match s.below(14) {
    0 => ("RUN a \\\n", " b \\\n".into(), " c\n"),
    1 => ("RUN a \\\n", "# c\n".into(), "b\n"),
    2 => ("ENV a b \\\n", "c \\\n".into(), "d"),
    3 => ("USER a \\\n", "c \\\n# d\n".into(), "e"),
    4 => ("RUN \\\n", "# c\n".into(), "b\n"),
    5 => ("FROM \\\n", "\\\n\n".into(), "b\n"),
    6 => ("LABEL a=\"", "\\n".into(), "\"\n"),
    7 => ("RUN [\"a\"", ",\n".replace('\n', "\"b\""), "]"),
    8 => ("CMD [\"", "\\\"".into(), "\"]"),
    9 => ("", "FROM a as b\n".into(), ""),
    10 => ("ARG a='", "\\\\".into(), "'"),
    11 => ("LABEL ", "a=b ".into(), "\n"),
    12 => ("COPY a", " b".into(), "\n"),
    _ => ("RUN ", "[".into(), "\n"),
  };
  // building the stages compares each with all earlier ones: not a hang
  let n = if unit.starts_with("FROM") { n.min(4000) } else { n };
  let mut t = String::with_capacity(n * unit.len() + 32);
  t.push_str(head);
  for _ in 0..n {
    t.push_str(&unit);
  }
  t.push_str(tail);
  t
}

fn render_error(e: &Error) -> usize {
  use std::error::Error as _;
  format!("{} {:?} {}", e, e, e.source().map_or(String::new(), |s| s.to_string())).len()
}

fn c01(s: &mut Src, c: &mut Ctx) -> R {
  let mode = s.weighted(&[2400, 500, 200, 150, 25, 1]);
  let text = match mode {
    0 => textgen::any(s),
    1 => {
      let n = s.range(1, 60) as usize;
      textgen::repetitive(s, n)
    }
    2 => {
      let n = s.range(60, 3000) as usize;
      textgen::repetitive(s, n)
    }
    3 => {
      // bytes, often not UTF-8
      let mut b = textgen::any(s).into_bytes();
      for _ in 0..=s.small(3) {
        let k = s.below(b.len() as u32 + 1) as usize;
        if s.bool() && k < b.len() {
          b[k] = s.below(256) as u8;
        } else {
          b.insert(k, s.below(256) as u8);
        }
      }
      let ok = std::str::from_utf8(&b).is_ok();
      c.input = String::from_utf8_lossy(&b).to_string();
      c.nontrivial = true;
      c.tag(if ok { "bytes, valid UTF-8" } else { "bytes, invalid UTF-8" });
      match Dockerfile::from_reader(&b[..]) {
        Ok(d) => {
          ensure!(ok, "invalid UTF-8 accepted: {:?}", b);
          exercise(s, &d);
        }
        Err(e) => {
          std::hint::black_box(render_error(&e));
        }
      }
      return Ok(());
    }
    4 => deep(s, false),
    _ => deep(s, true),
  };
  c.input = text;
  c.nontrivial = c.input.len() > 3;
  c.tag(["arbitrary text", "short repetition", "repetition up to 3000 bytes", "", "500-6000 repeated units", "20000-60000 repeated units"][mode]);
  match Dockerfile::parse(&c.input) {
    Ok(d) => {
      c.tag("accepted");
      exercise(s, &d);
    }
    Err(e) => {
      c.tag("rejected");
      c.tag_if(e.to_string().contains("stack limit"), "rejected by the parser's own stack limit");
      std::hint::black_box(render_error(&e));
    }
  }
  Ok(())
}

// ------------------------------------------------------------------- C02

pub const STEP_LEN: usize = 16384;
/// steps allowed per byte of a text of STEP_LEN bytes
pub const STEPS_PER_BYTE: usize = 400;

pub fn set_limit(per_byte: usize) {
  pest::set_call_limit(std::num::NonZeroUsize::new(per_byte * STEP_LEN));
}

/// bytes allocated while parsing, per byte of a text of STEP_LEN bytes
pub const ALLOC_PER_BYTE: u64 = 1600;

fn at_boundary(t: &str, mut k: usize, down: bool) -> usize {
  k = k.min(t.len());
  while !t.is_char_boundary(k) {
    if down {
      k -= 1
    } else {
      k += 1
    }
  }
  k
}

/// The first `len` bytes of `t`, the last few replaced by its ending, which often decides about backtracking.
fn cut(t: &str, len: usize, ending: usize) -> String {
  if t.len() <= len {
    return t.to_string();
  }
  let tail = &t[at_boundary(t, t.len() - ending.min(t.len()), false)..];
  let mut o = t[..at_boundary(t, len - tail.len().min(len), true)].to_string();
  o.push_str(tail);
  o
}

/// CPU time of one parse; the steps must stay below the call limit.
fn parse_time(t: &str) -> Option<u64> {
  let a = meter::cpu_us();
  let r = Dockerfile::parse(t);
  let b = meter::cpu_us() - a;
  match r {
    Err(e) if e.to_string().contains("call limit") => None,
    _ => Some(b.max(1)),
  }
}

fn c02(s: &mut Src, c: &mut Ctx) -> R {
  static ONCE: std::sync::Once = std::sync::Once::new();
  ONCE.call_once(|| {
    let k = std::env::var("VHARNESS_STEPS").ok().and_then(|v| v.parse().ok()).unwrap_or(STEPS_PER_BYTE);
    set_limit(k);
    // whatever is set up on first use is not the text's cost
    let _ = Dockerfile::parse("FROM a@sha256:0\nLABEL a=\"b\\\nc\"\n");
    let _ = Dockerfile::parse("LABEL a=\"b\\\nc\"\n");
  });
  let mode = s.weighted(&[10, 3, 2, 2, 2]);
  let growth = s.chance(1, if mode == 4 { 6 } else { 30 });
  let len = if growth { 8 * STEP_LEN } else { STEP_LEN };
  let mut again = None;
  let t = match mode {
    0 => textgen::repetitive(s, len),
    1 => {
      // one short random line again and again
      let unit = textgen::line_soup(s);
      let unit = if unit.is_empty() { "x".to_string() } else { unit };
      unit.repeat(len / unit.len().max(1) + 1)
    }
    2 => {
      let mut t = String::new();
      while t.len() < STEP_LEN {
        t.push_str(&gen::doc(s, &ALL_KINDS, 2, 6).1.text);
        t.push('\n');
      }
      let n = len / t.len() + 1;
      let mut t = t.repeat(n);
      textgen::mutate(s, &mut t);
      t
    }
    4 => {
      let mark = s.rec.len();
      let t = textgen::listy(s, STEP_LEN, true);
      let choices = s.rec[mark..].to_vec();
      again = growth.then(|| textgen::listy(&mut Src::replay(choices), len, true));
      t
    }
    _ => {
      let mut t = String::new();
      while t.len() < STEP_LEN {
        t.push_str(&textgen::any(s));
      }
      let n = len / t.len() + 1;
      t.repeat(n)
    }
  };
  let ending = s.below(24) as usize;
  c.input = if mode == 4 { t.clone() } else { cut(&t, STEP_LEN, ending) };
  c.nontrivial = c.input.len() > STEP_LEN / 2;
  c.tag(["repetition of one to three units", "one random line repeated", "valid file, mutated", "concatenated random texts", "one list, or many alike"][mode]);
  let before = meter::allocated();
  let r = Dockerfile::parse(&c.input);
  let used = meter::allocated() - before;
  match r {
    Ok(_) => c.tag("accepted"),
    Err(e) => {
      let m = e.to_string();
      c.tag("rejected");
      ensure!(
        !m.contains("call limit"),
        "over {} grammar steps for a text of {} bytes: {}",
        STEPS_PER_BYTE * STEP_LEN,
        c.input.len(),
        show(&c.input)
      );
      c.tag_if(m.contains("stack limit"), "rejected by the parser's own stack limit");
    }
  }
  ensure!(
    used <= ALLOC_PER_BYTE * STEP_LEN as u64,
    "{} bytes allocated for a text of {} bytes: {}",
    used,
    c.input.len(),
    show(&c.input)
  );
  if growth {
    c.tag("processor time compared with that of a text eight times as long");
    let small = c.input.clone();
    let large = again.unwrap_or_else(|| cut(&t, 8 * STEP_LEN, ending));
    // linear: 8 times as long. Allowed: 32 times, and only a lasting excess counts
    let slow = |a: u64, b: u64| b > 32 * a.max(500);
    if let (Some(a), Some(b)) = (parse_time(&small), parse_time(&large)) {
      if slow(a, b) {
        let mut a = a;
        let mut b = b;
        for _ in 0..4 {
          a = a.max(parse_time(&small).unwrap_or(a));
          b = b.min(parse_time(&large).unwrap_or(b));
        }
        ensure!(!slow(a, b), "{} us of processor time for {} bytes but {} us for {} bytes of {}", a, small.len(), b, large.len(), show(&small));
      }
    }
  }
  Ok(())
}

// ------------------------------------------------------------------- C03

/// A reader following a script of chunk sizes, interruptions and a failure.
struct Chunks {
  data: Vec<u8>,
  pos: usize,
  sizes: Vec<usize>,
  k: usize,
  fail_at: Option<(usize, io::ErrorKind)>,
  interrupts: bool,
  flip: bool,
}

impl Read for Chunks {
  fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
    if self.interrupts {
      self.flip = !self.flip;
      if self.flip {
        return Err(io::Error::new(io::ErrorKind::Interrupted, "again"));
      }
    }
    if let Some((at, k)) = self.fail_at {
      if self.pos >= at {
        return Err(io::Error::new(k, "broken"));
      }
    }
    let mut n = self.sizes[self.k % self.sizes.len()].min(buf.len()).min(self.data.len() - self.pos);
    if let Some((at, _)) = self.fail_at {
      n = n.min(at - self.pos);
    }
    self.k += 1;
    buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
    self.pos += n;
    Ok(n)
  }
}

fn outcome(r: &Result<Dockerfile>) -> String {
  match r {
    Ok(d) => format!("{:?}", d),
    Err(e) => format!("error {:?}", e),
  }
}

fn c03(s: &mut Src, c: &mut Ctx) -> R {
  let mut text = if s.chance(1, 3) { textgen::any(s) } else { textgen::likely(s) };
  if s.chance(1, 60) {
    // larger than any buffer
    let pad = *s.pick(&["# padding é\n", "RUN x\r\n", "\n \t"]);
    let mut n = s.range(8000, 40_000) as usize;
    if s.chance(1, 20) {
      s.cap = 1 << 22;
      s.unit = 1 << 16;
      n = dict::count(s).map_or(n, |n| n as usize);
    }
    let mut t = String::new();
    while t.len() < n {
      t.push_str(pad);
    }
    text = if s.bool() { format!("{}{}", t, text) } else { format!("{}\n{}", text, t) };
    c.tag("over 8 KiB");
  }
  if s.chance(1, 6) {
    textgen::edges(s, &mut text);
    c.tag("special characters at the edges");
  }
  if s.chance(1, 25) {
    // as long as a buffer, or a byte off
    let k = *s.pick(&[64usize, 128, 256, 512, 1024, 1024, 4096, 4096, 8192, 8192, 16384, 32768, 65536]);
    let end = *s.pick(&["", "\n", "\n", "\r\n", "\r", " ", "\t", "\\\n", "\u{e9}"]);
    let room = k * s.range(1, 3) as usize + *s.pick(&[0usize, 0, 0, 1, 2]) - *s.pick(&[0usize, 0, 0, 1, 2]);
    if text.len() + end.len() + 2 <= room {
      let fill = room - text.len() - end.len() - 2;
      let pad = s.pick::<&str>(&["#", "x", " ", "\n"]).repeat(fill);
      text = match s.below(3) {
        0 => format!("#{}\n{}{}", pad, text, end),
        1 => format!("{}\n#{}{}", text, pad, end),
        _ => format!("{}{}\n\n{}", pad, text, end),
      };
      c.tag("as long as a buffer");
    }
  }
  c.input = text.clone();
  c.nontrivial = text.len() > 3;
  c.tag_if(!text.is_ascii(), "non-ASCII");
  c.tag_if(text.contains('\r'), "carriage returns");
  let sizes: Vec<usize> = (0..s.range(1, 5)).map(|_| [1, 2, 3, 7, 100, 8191, 8192, 8193][s.below(8) as usize]).collect();
  let interrupts = s.chance(1, 4);
  let data = text.clone().into_bytes();
  if s.chance(1, 4) {
    // the reader fails, or the data is not UTF-8
    if s.bool() {
      let at = s.below(data.len() as u32 + 1) as usize;
      let kind = *s.pick(&[io::ErrorKind::Other, io::ErrorKind::UnexpectedEof, io::ErrorKind::WouldBlock, io::ErrorKind::TimedOut]);
      c.tag("reader fails");
      let r = Chunks { data, pos: 0, sizes, k: 0, fail_at: Some((at, kind)), interrupts, flip: false };
      match Dockerfile::from_reader(r) {
        Err(Error::ReadError { source }) => ensure!(source.kind() == kind, "read error of kind {:?} instead of {:?}", source.kind(), kind),
        x => return Err(format!("reader failing at byte {} of {} gives {}", at, show(&text), outcome(&x))),
      }
    } else {
      c.tag("invalid UTF-8");
      let bad: &[u8] = *s.pick::<&[u8]>(&[b"\xff", b"\xc3", b"\xe4\xb8", b"\xed\xa0\x80", b"\xf0\x9f\x98", b"\xc0\x80", b"\x80", b"\xf4\x90\x80\x80"]);
      let mut at = s.below(data.len() as u32 + 1) as usize;
      while !text.is_char_boundary(at) {
        at -= 1;
      }
      let mut b = data[..at].to_vec();
      b.extend_from_slice(bad);
      b.extend_from_slice(&data[at..]);
      let r = Chunks { data: b.clone(), pos: 0, sizes, k: 0, fail_at: None, interrupts, flip: false };
      match Dockerfile::from_reader(r) {
        Err(Error::ReadError { source }) => {
          ensure!(source.kind() == io::ErrorKind::InvalidData, "invalid UTF-8 gives {:?}", source)
        }
        x => return Err(format!("invalid UTF-8 {:?} gives {}", b, outcome(&x))),
      }
    }
    return Ok(());
  }
  let a = Dockerfile::parse(&text);
  let oa = outcome(&a);
  let again = Dockerfile::parse(&text);
  ensure!(outcome(&again) == oa, "parsing {} twice gives\n {}\n {}", show(&text), oa, outcome(&again));
  let b = text.parse::<Dockerfile>();
  ensure!(outcome(&b) == oa, "FromStr on {} gives\n {}\n instead of {}", show(&text), outcome(&b), oa);
  let r = Chunks { data: data.clone(), pos: 0, sizes: sizes.clone(), k: 0, fail_at: None, interrupts, flip: false };
  let e = Dockerfile::from_reader(r);
  ensure!(
    outcome(&e) == oa,
    "reader with chunks {:?} on {} gives\n {}\n instead of {}",
    sizes,
    show(&text),
    outcome(&e),
    oa
  );
  if let (Ok(a), Ok(b), Ok(e)) = (&a, &b, &e) {
    c.tag("accepted");
    ensure!(a == b && a == e, "results of {} differ by ==", show(&text));
    ensure!(a.content == text, "content is {} instead of {}", show(&a.content), show(&text));
    ensure!(a.splicer().content == text, "splicer of {}", show(&text));
  }
  if s.chance(1, 60) {
    c.tag("four threads");
    let outs: Vec<String> = std::thread::scope(|sc| {
      let hs: Vec<_> = (0..4)
        .map(|_| {
          std::thread::Builder::new().stack_size(4 << 20).spawn_scoped(sc, || outcome(&Dockerfile::parse(&text))).unwrap()
        })
        .collect();
      hs.into_iter().map(|h| h.join().unwrap_or_else(|_| "panic".into())).collect()
    });
    ensure!(outs.iter().all(|o| *o == oa), "threads disagree on {}: {:?}", show(&text), outs);
  }
  Ok(())
}

// ------------------------------------------------------------------- C04

/// An accepted text, its parse; sets skipped if rejected.
fn accepted(s: &mut Src, c: &mut Ctx) -> Option<Dockerfile> {
  let t = textgen::likely(s);
  c.input = t;
  match Dockerfile::parse(&c.input) {
    Ok(d) => {
      c.tag("accepted");
      c.nontrivial = !d.instructions.is_empty();
      c.tag_if(d.instructions.len() > 1, "several instructions");
      c.tag_if(c.input.contains("\\\n") || c.input.contains("\\\r"), "continuations");
      c.tag_if(!c.input.is_ascii(), "non-ASCII");
      c.tag_if(c.input.contains("\r\n"), "CRLF");
      Some(d)
    }
    Err(_) => {
      c.tag("rejected");
      c.skipped = true;
      None
    }
  }
}

fn check_node(n: &Node, text: &str) -> R {
  let sp = n.span;
  ensure!(sp.start <= sp.end, "{} span {:?} is backwards", n.role, sp);
  ensure!(sp.end <= text.len(), "{} span {:?} ends after the text ({} bytes)", n.role, sp, text.len());
  ensure!(
    text.is_char_boundary(sp.start) && text.is_char_boundary(sp.end),
    "{} span {:?} cuts a character",
    n.role,
    sp
  );
  let mut at = sp.start;
  for k in &n.kids {
    check_node(k, text)?;
    ensure!(at <= k.span.start, "{} span {:?} overlaps what precedes it in {} {:?}", k.role, k.span, n.role, sp);
    at = k.span.end;
  }
  ensure!(at <= sp.end, "a part of {} {:?} ends at {}", n.role, sp, at);
  Ok(())
}

/// What is left of the text between two parts after removing blanks,
/// continuations and comment and blank lines that follow one. `cont`: comment
/// lines may come right away.
fn strip_gap(t: &str, mut cont: bool) -> String {
  let p = P::new(t);
  let mut o = String::new();
  let mut i = 0;
  while i < t.len() {
    if cont {
      let k = p.ws(i);
      if t[k..].starts_with('#') {
        let e = p.line_end(k);
        i = p.nl(e).unwrap_or(e);
        continue;
      }
      if let Some(e) = p.nl(k) {
        i = e;
        continue;
      }
      cont = false;
    }
    if p.is_ws(i) {
      i += 1;
    } else if let Some(e) = p.cont(i) {
      i = e;
      cont = true;
    } else {
      let c = t[i..].chars().next().unwrap();
      o.push(c);
      i += c.len_utf8();
    }
  }
  o
}

/// What must separate two neighbouring parts (None: before the first, after
/// the last), lower case, alternatives.
fn between(a: Option<&str>, b: Option<&str>, kw: &str) -> Vec<String> {
  let k = kw.to_string();
  let v = |x: &[&str]| x.iter().map(|s| s.to_string()).collect::<Vec<_>>();
  match (a, b) {
    (None, Some("flag name")) => vec![k + "--"],
    (None, Some("word")) => v(&[""]),
    (None, Some("element")) => vec![k + "["],
    (None, Some(_)) => vec![k],
    // no parts at all: an empty list, or LABEL and ENV without pairs
    (None, None) => vec![k.clone() + "[]", k],
    (Some("flag name"), _) | (Some("arg name"), Some(_)) => v(&["="]),
    (Some("label name"), _) | (Some("env key"), _) => v(&["=", ""]),
    (Some(_), Some("flag name")) => v(&["--"]),
    (Some("image"), Some("alias")) => v(&["as"]),
    (Some("element"), Some(_)) => v(&[","]),
    (Some("element"), None) => v(&["]", ",]"]),
    _ => v(&[""]),
  }
}

fn residue(text: &str, ins: &Instruction) -> R {
  let t = astio::tree(ins);
  let mut l = Vec::new();
  astio::leaves(&t, &mut l);
  let kw = astio::kind(ins);
  let mut at = t.span.start;
  let mut prev: Option<&str> = None;
  for i in 0..=l.len() {
    let (end, role) = match l.get(i) {
      Some(x) => (x.span.start, Some(x.role)),
      None => (t.span.end, None),
    };
    let mut src = text[at..end].to_string();
    if prev == Some("comment") {
      // the comment's own line break
      if let Some(e) = P::new(&src).nl(0) {
        src = src[e..].to_string();
      }
    }
    let rest = strip_gap(&src, prev == Some("comment")).to_ascii_lowercase();
    let ok = between(prev, role, kw);
    ensure!(
      ok.contains(&rest),
      "between {:?} and {:?} of {:?} at {}..{} there is {:?}, which is neither reported nor punctuation (expected {:?})",
      prev,
      role,
      &text[t.span.start..t.span.end],
      at,
      end,
      &text[at..end],
      ok
    );
    if let Some(x) = l.get(i) {
      at = x.span.end;
      prev = Some(x.role);
    }
  }
  Ok(())
}

fn c04(s: &mut Src, c: &mut Ctx) -> R {
  let d = match accepted(s, c) {
    Some(d) => d,
    None => return Ok(()),
  };
  let text = &d.content;
  ensure!(*text == c.input, "content differs from the input {}", show(&c.input));
  let inner = || -> R {
    let mut at = 0;
    for (n, i) in d.instructions.iter().enumerate() {
      let t = astio::tree(i);
      check_node(&t, text)?;
      ensure!(t.span == i.span(), "span() of {:?}", i);
      ensure!(at <= t.span.start, "instruction {} overlaps the one before", n);
      outside(&text[at..t.span.start], n > 0, true)?;
      let word = match i {
        Instruction::Misc(m) => m.instruction.content.clone(),
        _ => astio::kind(i).to_string(),
      };
      let head = text[t.span.start..].get(..word.len()).unwrap_or("");
      ensure!(head.eq_ignore_ascii_case(&word), "instruction {} starts with {:?}, not with {:?}", n, head, word);
      residue(text, i)?;
      at = t.span.end;
    }
    outside(&text[at..], !d.instructions.is_empty(), false)?;
    for a in &d.global_args {
      check_node(&astio::tree(&Instruction::Arg(a.clone())), text)?;
    }
    Ok(())
  };
  inner().map_err(|m| format!("{}\n in {}", m, show(text)))
}

/// Text outside of instructions: blank lines and comment lines. After an
/// instruction the rest of its line is blank, before one its line is.
fn outside(t: &str, after: bool, before: bool) -> R {
  let lines = refmodel::split_lines(t);
  let blank = |l: &str| l.trim_matches([' ', '\t']).is_empty();
  let n = lines.len();
  for (i, l) in lines.iter().enumerate() {
    let must_blank = (i == 0 && after) || (i + 1 == n && before);
    let ok = blank(l) || (!must_blank && l.trim_start_matches([' ', '\t']).starts_with('#'));
    ensure!(ok, "{:?} between instructions is neither blank nor a comment", l);
  }
  ensure!(!(after && before) || n > 1, "two instructions on one line");
  Ok(())
}

// ------------------------------------------------------------------- C05

fn check_leaf(l: &astio::Leaf, text: &str) -> R {
  let src = text.get(l.span.start..l.span.end).ok_or_else(|| format!("{} span {:?}", l.role, l.span))?;
  let want: Option<String> = match l.dec {
    Dec::Raw => Some(src.to_string()),
    Dec::Token => refparse::token_content(src),
    Dec::LabelToken => {
      if src.starts_with(['"', '\'']) {
        refparse::decode_quoted(&refparse::strip_breaks(src))
      } else {
        refparse::token_content(src)
      }
    }
    // a complete quoted string is decoded, anything else is literal
    Dec::EnvToken => match P::new(src).string(0) {
      Some(e) if e == src.len() => refparse::decode_quoted(src),
      _ if src.starts_with('`') => None,
      _ => Some(src.to_string()),
    },
    Dec::Comment => {
      ensure!(src.starts_with('#'), "comment {:?} does not start with #", src);
      ensure!(!src.contains(['\n', '\r']), "comment {:?} spans lines", src);
      let next = text[l.span.end..].chars().next();
      ensure!(matches!(next, None | Some('\n') | Some('\r')), "comment {:?} is cut off", src);
      Some(src.to_string())
    }
  };
  if l.dec == Dec::EnvToken && want.is_none() {
    // "`" in a pair is an escape error or decoded, in a single value literal
    ensure!(
      l.content == src || refparse::decode_quoted(src).as_deref() == Some(&l.content),
      "{} {:?} has content {:?}",
      l.role,
      src,
      l.content
    );
    return Ok(());
  }
  ensure!(
    want.as_deref() == Some(&l.content),
    "{} at {:?} reads {:?} and has content {:?} (expected {:?})",
    l.role,
    l.span,
    src,
    l.content,
    want
  );
  Ok(())
}

fn flag_span(text: &str, f: Span, name: Span, value: Span) -> R {
  ensure!(
    f.end == value.end && f.start + 2 == name.start && &text[f.start..name.start] == "--" && &text[name.end..value.start] == "=",
    "flag span {:?} covers {:?}",
    f,
    text.get(f.start..f.end)
  );
  Ok(())
}

/// `outer` runs from `first` to `last` but for blanks and continuations.
fn hugs(text: &str, what: &str, outer: Span, first: usize, last: usize) -> R {
  let a = text.get(outer.start..first).map(|t| strip_gap(t, false));
  let b = text.get(last..outer.end).map(|t| strip_gap(t, false));
  ensure!(
    a.as_deref() == Some("") && b.as_deref() == Some(""),
    "{} span {:?} does not run from its first part at {} to its last part's end at {}",
    what,
    outer,
    first,
    last
  );
  Ok(())
}

fn brk_span(text: &str, b: &BreakableString) -> R {
  let f = b.components.first().ok_or("empty multi-line string")?;
  let l = b.components.last().unwrap();
  let sp = |c: &BreakableStringComponent| match c {
    BreakableStringComponent::String(s) => s.span,
    BreakableStringComponent::Comment(s) => s.span,
  };
  let mut end = sp(l).end;
  if let BreakableStringComponent::Comment(_) = l {
    // the comment's line break may belong to the string
    end = P::new(text).nl(end).filter(|e| *e <= b.span.end).unwrap_or(end);
  }
  hugs(text, "multi-line string", b.span, sp(f).start, end)
}

fn c05(s: &mut Src, c: &mut Ctx) -> R {
  let d = match accepted(s, c) {
    Some(d) => d,
    None => return Ok(()),
  };
  let text = &c.input;
  let mut n = 0;
  let mut quoted = 0;
  for i in &d.instructions {
    let inner = |n: &mut usize, quoted: &mut usize| -> R {
      let t = astio::tree(i);
      let mut l = Vec::new();
      astio::leaves(&t, &mut l);
      for x in &l {
        check_leaf(x, text)?;
        *n += 1;
        *quoted += (text[x.span.start..].starts_with(['"', '\''])) as usize;
      }
      // composite parts
      let last = l.last().map(|x| x.span.end);
      match i {
        Instruction::From(x) => {
          for f in &x.flags {
            flag_span(text, f.span, f.name.span, f.value.span)?;
          }
          ensure!(x.span.end == last.unwrap(), "FROM span {:?}", x.span);
          ensure!(x.image_parsed == refmodel::decompose(&x.image.content), "image {:?} decomposed as {:?}", x.image, x.image_parsed);
        }
        Instruction::Copy(x) => {
          for f in &x.flags {
            flag_span(text, f.span, f.name.span, f.value.span)?;
          }
          ensure!(x.span.end == last.unwrap(), "COPY span {:?}", x.span);
        }
        Instruction::Arg(x) => ensure!(x.span.end == last.unwrap(), "ARG span {:?}", x.span),
        Instruction::Label(x) => {
          for p in &x.labels {
            hugs(text, "label", p.span, p.name.span.start, p.value.span.end)?;
            ensure!(p.span.end == p.value.span.end, "label span {:?}", p.span);
          }
          hugs(text, "LABEL", Span::new(x.span.start + 5, x.span.end), x.labels.first().map_or(x.span.end, |p| p.name.span.start), last.unwrap_or(x.span.end))?;
        }
        Instruction::Env(x) => {
          for p in &x.vars {
            ensure!(p.span.start == p.key.span.start && p.span.end == p.value.span.end, "variable span {:?} of {:?}", p.span, p);
            brk_span(text, &p.value)?;
          }
          let end = x.vars.last().map_or(x.span.end, |v| v.span.end);
          hugs(text, "ENV", Span::new(x.span.start + 3, x.span.end), x.vars.first().map_or(x.span.end, |p| p.span.start), end)?;
        }
        Instruction::Misc(x) => {
          ensure!(x.span.start == x.instruction.span.start && x.span.end == x.arguments.span.end, "span {:?} of {:?}", x.span, x);
          ensure!(x.arguments.span.start == x.instruction.span.end, "arguments span {:?} of {:?}", x.arguments.span, x);
          brk_span(text, &x.arguments)?;
        }
        _ => {}
      }
      match astio::expr_of(i) {
        Some(ShellOrExecExpr::Shell(b)) => {
          brk_span(text, b)?;
          ensure!(i.span().end == b.span.end, "span {:?} of {:?}", i.span(), i);
        }
        Some(ShellOrExecExpr::Exec(a)) => {
          let src = &text[a.span.start..a.span.end];
          ensure!(src.starts_with('[') && src.ends_with(']'), "exec array span covers {:?}", src);
          ensure!(i.span().end == a.span.end, "span {:?} of {:?}", i.span(), i);
        }
        None => {}
      }
      Ok(())
    };
    inner(&mut n, &mut quoted).map_err(|m| format!("{}\n in {}", m, show(text)))?;
  }
  for (a, g) in d.instructions.iter().filter_map(|i| i.as_arg()).zip(&d.global_args) {
    ensure!(a == g, "global ARG {:?} is not the file's {:?} in {}", g, a, show(text));
  }
  c.nontrivial = n > 0;
  c.tag_if(quoted > 0, "quoted elements");
  c.tag_if(n > 20, "over 20 elements");
  Ok(())
}

// ------------------------------------------------------------------- C26

/// A string with something wrong in its escapes, in quotes.
pub fn bad_quoted(s: &mut Src) -> String {
  let q = if s.bool() { '"' } else { '\'' };
  let mut t = String::from(q);
  let plain = |s: &mut Src, t: &mut String| {
    if s.chance(1, 8) {
      let w: String = dict::hint(s).unwrap_or_default().chars().filter(|c| !matches!(c, '"' | '\'' | '\\') && *c >= ' ').collect();
      t.push_str(&w);
      return;
    }
    if s.chance(1, 10) {
      t.push_str(s.pick::<&str>(&["C:", "c:\\\\", "/usr/", "$x", "a=", "http:", "\\\\", "%", "-"]));
    }
    for _ in 0..s.small(5) {
      t.push(*s.pick(&['a', 'b', ' ', 'é', '0', '=', '#', '[', '/']));
    }
  };
  plain(s, &mut t);
  t.push_str(s.pick::<&str>(&[
    "\\q", "\\c", "\\e", "\\ ", "\\ud800", "\\uDFFF", "\\U00110000", "\\u12g4", "\\u00", "\\xg0", "\\x4", "\\U0001F60", "\\999", "\\888", "\\-", "\\$", "\\#", "\\é",
    "\\uD83D\\uDE00", "\\ ", "\\[", "\\z", "\\UFFFFFFFF", "\\N", "\\A", "\\400",
  ]));
  if t.ends_with("\\u00") || t.ends_with("\\x4") || t.ends_with("\\U0001F60") {
    t.push(q);
    return t;
  }
  plain(s, &mut t);
  t.push(q);
  t
}

fn junk_word(s: &mut Src) -> String {
  let t = gen::token(s);
  if t.starts_with('#') {
    format!("x{}", t)
  } else {
    t
  }
}

fn c26(s: &mut Src, c: &mut Ctx) -> R {
  // well-formed beginning
  let mut text = String::new();
  if s.chance(3, 4) {
    let r = gen::doc(s, &ALL_KINDS, 0, 3).1;
    if super::instr::gen_closed(&r) {
      text = r.text;
      text.push_str(s.pick::<&str>(&["\n", "\n", "\r\n"]));
    }
  }
  if s.chance(1, 5) {
    text.push_str("  ");
  }
  let a = text.len();
  let sp = |s: &mut Src| s.pick::<&str>(&[" ", " ", "  ", "\t", " \\\n", " \\\r\n  "]).to_string();
  let inline = |s: &mut Src| s.pick::<&str>(&[" ", "  ", "\t"]).to_string();
  let kw = |s: &mut Src, k: &str| match s.below(3) {
    0 => k.to_lowercase(),
    _ => k.to_string(),
  };
  let quoted = |s: &mut Src| {
    let v = gen::value(s);
    gen::quote(s, &v, gen::Q::Plain, 1)
  };
  let label_word = |s: &mut Src| loop {
    let t = junk_word(s);
    if !t.contains('=') && !t.contains('\\') {
      return t;
    }
  };
  // no quote characters may follow an unterminated one
  let mut open = false;
  let mut suffix_ok = true;
  let fam = s.below(24);
  let body = match fam {
    0 => {
      // something after a complete FROM, other than AS name
      let k = kw(s, "FROM");
      let g = sp(s);
      let img = gen::image(s);
      let al = if s.bool() { format!(" AS {}", gen::alias(s)) } else { String::new() };
      let mut j = junk_word(s);
      if al.is_empty() && j.eq_ignore_ascii_case("as") {
        j.push('x');
      }
      // an "as..." junk word could still read as AS with a later word; none follows
      format!("{}{}{}{}{}{}", k, g, img, al, inline(s), j)
    }
    1 => format!("{}{}{}{}{}", kw(s, "FROM"), sp(s), gen::image(s), inline(s), s.pick::<&str>(&["as", "AS", "As "])),
    2 => {
      let v = if s.bool() { format!("={}", quoted(s)) } else { String::new() };
      format!("{}{}{}{}{}{}", kw(s, "ARG"), sp(s), gen::arg_name(s), v, inline(s), junk_word(s))
    }
    3 => format!("{}{}{}={}", kw(s, "ARG"), sp(s), gen::arg_name(s), s.pick::<&str>(&["", " ", " x", "\t\"a\""])),
    4 => {
      // more text glued to a closed quotation
      let q = quoted(s);
      let w = label_word(s);
      let w = format!("x{}", w);
      format!("{}{}{}={}{}", kw(s, "ARG"), sp(s), gen::arg_name(s), q, w)
    }
    5 => {
      open = true;
      let q = *s.pick(&['"', '\'']);
      let k = *s.pick(&["ARG a=", "arg a=", "LABEL a=", "LABEL a ", "label x=y a="]);
      let n = s.small(6);
      let v: String = (0..n).map(|_| *s.pick(&['a', ' ', 'é', '=', '#', '[', '-'])).collect();
      format!("{}{}{}", k, q, v)
    }
    6 => format!("{}{}{}=", kw(s, "LABEL"), sp(s), label_word(s)),
    7 => {
      // a name alone
      let w = label_word(s);
      format!("{}{}{}", kw(s, "LABEL"), sp(s), w)
    }
    8 => {
      // a pair, then a bare word
      let w = label_word(s);
      format!("{}{}a={}{}{}", kw(s, "LABEL"), sp(s), gen::token(s), inline(s), w)
    }
    9 => {
      // single form, then more
      let v = gen::token(s);
      let w = junk_word(s);
      format!("{}{}{}{}{}{}{}", kw(s, "LABEL"), sp(s), label_word(s), inline(s), v, inline(s), w)
    }
    10 => format!("{}{}{}=", kw(s, "ENV"), sp(s), gen::ident(s)),
    11 => format!("{}{}{}", kw(s, "ENV"), sp(s), gen::ident(s)),
    12 => {
      // a pair, then a bare word
      format!("{}{}{}={}{}{}", kw(s, "ENV"), sp(s), gen::ident(s), gen::token(s), inline(s), gen::ident(s))
    }
    13 => {
      // quoted single value, then more
      format!("{}{}{} {}{}{}", kw(s, "ENV"), sp(s), gen::ident(s), quoted(s), inline(s), junk_word(s))
    }
    14 => {
      let k = *s.pick(&["RUN", "CMD", "ENTRYPOINT", "run"]);
      let n = s.small(3);
      let els: Vec<String> = (0..n).map(|_| quoted(s)).collect();
      format!("{}{}[{}]{}{}", k, sp(s), els.join(","), s.pick::<&str>(&["", " ", "\t"]), junk_word(s))
    }
    15 => {
      // escapes
      let b = bad_quoted(s);
      if s.bool() {
        // among right ones
        let n = 1 + s.small(9) as usize;
        let at = s.below(n as u32) as usize;
        let quote = |s: &mut Src, i: usize| if i == at { b.clone() } else { quoted(s) };
        let good = |s: &mut Src, i: usize| if i == at { b.clone() } else if s.bool() { quoted(s) } else { label_word(s) };
        match s.below(5) {
          0 => {
            let v: Vec<String> = (0..n).map(|i| format!("{}={}", gen::ident(s), good(s, i))).collect();
            format!("{} {}", kw(s, "ENV"), v.join(s.pick::<&str>(&[" ", " \\\n  "])))
          }
          1 => {
            let key = s.chance(1, 4);
            let v: Vec<String> = (0..n)
              .map(|i| {
                let (w, g) = (label_word(s), good(s, i));
                if key && i == at {
                  format!("{}={}", g, w)
                } else {
                  format!("{}={}", w, g)
                }
              })
              .collect();
            format!("{} {}", kw(s, "LABEL"), v.join(s.pick::<&str>(&[" ", " \\\n  "])))
          }
          2 => {
            let v: Vec<String> = (0..n).map(|i| quote(s, i)).collect();
            format!("{} [{}]", s.pick::<&str>(&["RUN", "CMD", "ENTRYPOINT", "cmd"]), v.join(s.pick::<&str>(&[",", ", ", ", \\\n"])))
          }
          3 => (0..n).map(|i| format!("{} {}={}", kw(s, "ARG"), gen::arg_name(s), good(s, i))).collect::<Vec<_>>().join("\n"),
          _ => (0..n).map(|i| format!("{} {} {}", s.pick::<&str>(&["ENV", "LABEL"]), gen::ident(s), quote(s, i))).collect::<Vec<_>>().join("\n"),
        }
      } else {
        match s.below(9) {
          0 => format!("ARG a={}", b),
          1 => format!("LABEL a={}", b),
          2 => format!("LABEL {}=a", b),
          3 => format!("LABEL a {}", b),
          4 => format!("ENV a={}", b),
          5 => format!("ENV a {}", b),
          6 => format!("RUN [{}]", b),
          7 => format!("CMD [\"a\", {}]", b),
          _ => format!("ENTRYPOINT [{}, 'x']", b),
        }
      }
    }
    16 => {
      // a line that is no instruction
      let mut t = String::from(*s.pick(&['1', '-', '"', '=', '[', '/', '$', '\'', '.', '\\', '&', '_', 'é', '\u{feff}', '\u{a0}', '\u{b}', '\u{0}', '{', '@', '!']));
      open = t == "\"" || t == "'";
      t.push_str(&gen::ident(s));
      if s.bool() {
        t.push_str(" RUN x");
      }
      t
    }
    17 => {
      // a word without anything
      s.pick::<&str>(&["FROM", "RUN", "ARG", "LABEL", "COPY", "ENTRYPOINT", "CMD", "ENV", "USER", "x", "workdir", "run"]).to_string()
    }
    18 => {
      // a continuation that leads nowhere
      suffix_ok = false;
      let k = match s.below(11) {
        0 => format!("{} {}", kw(s, "FROM"), gen::image(s)),
        1 => format!("{} {}", kw(s, "ARG"), gen::arg_name(s)),
        2 => format!("{} {} x", kw(s, "COPY"), "y"),
        3 => format!("{} {}", kw(s, "RUN"), gen::ident(s)),
        4 => format!("{} {}", kw(s, "CMD"), gen::ident(s)),
        5 => format!("{} {}", kw(s, "ENTRYPOINT"), gen::ident(s)),
        7 => format!("{} a {}", kw(s, "LABEL"), gen::ident(s)),
        9 => format!("{} a {}", kw(s, "ENV"), gen::ident(s)),
        10 => format!("{} [{}]", s.pick::<&str>(&["RUN", "CMD", "entrypoint"]), quoted(s)),
        11 => format!("{} {} \\\n {}", s.pick::<&str>(&["RUN", "CMD", "entrypoint"]), gen::ident(s), gen::ident(s)),
        _ => format!("{} {}", gen::misc_word(s), gen::ident(s)),
      };
      let nl = *s.pick(&["\n", "\n", "\r\n"]);
      format!("{}{}\\{}{}", k, inline(s), s.pick::<&str>(&["", " "]), nl)
    }
    19 => {
      // FROM digest
      let h = gen::hex64(s);
      let h = match s.below(3) {
        0 => h[1..].to_string(),
        1 => format!("{}a", h),
        _ => format!("{}g", &h[1..]),
      };
      format!("{}{}img@sha256:{}", kw(s, "FROM"), sp(s), h)
    }
    20 => {
      // two instructions on one line
      let i = *s.pick(&["FROM a", "ARG a", "ARG a=b", "LABEL a=b", "LABEL a b", "ENV a=b", "RUN [\"a\"]", "CMD []", "FROM a AS b"]);
      let j = *s.pick(&["FROM b", "RUN y", "ARG c", "USER z", "COPY p q", "CMD r"]);
      format!("{}{}{}", i, inline(s), j)
    }
    21 => {
      // a comment is not allowed after an instruction
      let i = *s.pick(&["FROM a", "ARG a", "ARG a=b", "LABEL a=b", "LABEL a b", "ENV a=b", "RUN [\"a\"]", "CMD []", "FROM a AS b"]);
      format!("{}{}# c", i, inline(s))
    }
    22 => {
      // flags of FROM need a value
      format!("FROM --platform{} {}", s.pick::<&str>(&["", "="]), "--x y z")
    }
    _ => {
      // alias with forbidden characters
      format!("FROM {} AS {}{}", gen::image(s), gen::alias(s), s.pick::<&str>(&["/", ".", ":x", "\"", "é", "$", "@", "=", "{"]))
    }
  };
  c.tag(
    [
      "junk after FROM", "missing alias", "junk after ARG", "missing ARG value", "text glued to a quotation", "unterminated quotation", "missing label value", "label name alone",
      "bare word after label pair", "junk after single label", "missing ENV value", "ENV name alone", "bare word after ENV pair", "junk after quoted ENV value",
      "junk after exec array", "wrong escape", "line that starts with no word", "bare word", "continuation at the end of the file", "wrong digest", "two instructions on a line",
      "comment after an instruction", "FROM flag without value", "alias with wrong characters",
    ][fam as usize],
  );
  text.push_str(&body);
  let b = text.len();
  if suffix_ok && s.bool() {
    text.push_str(s.pick::<&str>(&["\n", "\n", "\r\n"]));
    if open {
      text.push_str(s.pick::<&str>(&["", "RUN x\n", "FROM a\nCMD b", "# c\n"]));
    } else {
      let r = gen::doc(s, &ALL_KINDS, 0, 2).1;
      text.push_str(&r.text);
    }
  }
  c.input = text.clone();
  c.nontrivial = true;
  c.tag_if(a > 0, "after well-formed instructions");
  // the generator must not have produced something valid
  if refparse::parse(&text).is_ok() {
    return Err(format!("HARNESS: not malformed: {}", show(&text)));
  }
  match Dockerfile::parse(&text) {
    Ok(d) => Err(format!("malformed {:?} accepted in {} as {:?}", body, show(&text), d.instructions)),
    Err(Error::ParseError { source }) => {
      let at = match source.location {
        pest::error::InputLocation::Pos(p) => p,
        pest::error::InputLocation::Span((p, _)) => p,
      };
      c.tag("located syntax error");
      ensure!(
        a <= at && (at <= b || open),
        "malformed {:?} at {}..{} is reported at {} in {}",
        body,
        a,
        b,
        at,
        show(&text)
      );
      // the rendered line agrees with the offset
      let (line, _) = refmodel::line_col(&text, at);
      let l = match source.line_col {
        pest::error::LineColLocation::Pos(p) => p.0,
        pest::error::LineColLocation::Span(p, _) => p.0,
      };
      ensure!(l == line + 1, "error at byte {} is said to be on line {} in {}", at, l, show(&text));
      Ok(())
    }
    Err(_) => {
      c.tag("other error");
      Ok(())
    }
  }
}

// ------------------------------------------------------------------- C27

fn c27(s: &mut Src, c: &mut Ctx) -> R {
  let text = textgen::any(s);
  c.input = text.clone();
  c.nontrivial = text.len() > 2;
  let want = refparse::parse(&text);
  let got = Dockerfile::parse(&text);
  match (want, got) {
    (Ok(w), Ok(g)) => {
      c.tag("accepted");
      c.tag_if(!w.instructions.is_empty(), "accepted with instructions");
      for i in &w.instructions {
        c.tag(match astio::kind(i) {
          "from" => "has FROM",
          "arg" => "has ARG",
          "label" => "has LABEL",
          "run" => "has RUN",
          "entrypoint" => "has ENTRYPOINT",
          "cmd" => "has CMD",
          "copy" => "has COPY",
          "env" => "has ENV",
          _ => "has other",
        });
      }
      ensure!(
        w.instructions == g.instructions,
        "{}\n expected {:?}\n found    {:?}",
        show(&text),
        w.instructions,
        g.instructions
      );
      ensure!(w.global_args == g.global_args, "global args of {}: {:?}", show(&text), g.global_args);
      ensure!(g.content == text, "content of {}", show(&text));
      Ok(())
    }
    (Err(_), Err(_)) => {
      c.tag("rejected");
      Ok(())
    }
    (Ok(w), Err(e)) => Err(format!("valid text rejected: {}\n expected {:?}\n error: {}", show(&text), w.instructions, e)),
    (Err(r), Ok(g)) => Err(format!("invalid text ({:?}) accepted: {}\n as {:?}", r, show(&text), g.instructions)),
  }
}

// ------------------------------------------------------------------- C33

fn rejected_text(s: &mut Src) -> String {
  match s.weighted(&[5, 4, 3]) {
    0 => textgen::any(s),
    1 => {
      // a well-formed beginning, then anything
      let mut t = gen::doc(s, &ALL_KINDS, 1, 3).1.text;
      t.push_str(s.pick::<&str>(&["\n", "\r\n", " ", ""]));
      t.push_str(&textgen::any(s));
      t
    }
    _ => {
      // wrong strings and digests among good instructions
      let mut t = String::new();
      for _ in 0..1 + s.below(4) {
        match s.below(3) {
          0 => t.push_str(&gen::doc(s, &ALL_KINDS, 1, 2).1.text),
          1 => {
            let b = bad_quoted(s);
            t.push_str(&match s.below(5) {
              0 => format!("ARG a={}", b),
              1 => format!("LABEL é={}", b),
              2 => format!("ENV a={}", b),
              3 => format!("ENV a {}", b),
              _ => format!("RUN [{}]", b),
            });
          }
          _ => t.push_str(&format!("FROM é@sha256:{}", gen::hex64(s)).replace('é', s.pick::<&str>(&["a", "a", "é", ""])).replace("sha256", s.pick::<&str>(&["sha256", "sha512", "SHA256"]))),
        }
        t.push_str(s.pick::<&str>(&["\n", "\n", "\r\n", ""]));
      }
      t
    }
  }
}

fn c33(s: &mut Src, c: &mut Ctx) -> R {
  let text = rejected_text(s);
  c.input = text.clone();
  let rej = match refparse::parse(&text) {
    Ok(_) => {
      // acceptance is C27's business
      c.skipped = true;
      return Ok(());
    }
    Err(r) => r,
  };
  c.nontrivial = true;
  let e = match Dockerfile::parse(&text) {
    Err(e) => e,
    Ok(_) => {
      c.skipped = true;
      return Ok(());
    }
  };
  let m = e.to_string();
  ensure!(!m.trim().is_empty(), "empty message for {}", show(&text));
  c.tag(match rej {
    Rej::Syntax => "syntax error",
    Rej::Escape => "wrong escape",
    Rej::Digest => "wrong digest",
  });
  let source = std::error::Error::source(&e).map(|x| x.to_string());
  match (&rej, &e) {
    (Rej::Syntax, Error::ParseError { source: p }) => {
      let at = match p.location {
        pest::error::InputLocation::Pos(p) => p,
        pest::error::InputLocation::Span((p, _)) => p,
      };
      let (l, col) = match p.line_col {
        pest::error::LineColLocation::Pos(p) => p,
        pest::error::LineColLocation::Span(p, _) => p,
      };
      let bad = P::new(&text).bad_line().unwrap_or(0);
      c.tag_if(bad > 0, "syntax error behind something well-formed");
      ensure!(at <= text.len() && text.is_char_boundary(at), "error at byte {} of {}", at, show(&text));
      ensure!(bad <= at, "the text is well-formed up to byte {} but the error is at byte {} in {}\n {}", bad, at, show(&text), m);
      let (line, column) = refmodel::line_col(&text, at);
      ensure!(l == line + 1, "error at byte {} is said to be on line {} in {}", at, l, show(&text));
      // columns count characters; a lone carriage return is one of them
      let chars = text[at - column..at].chars().count();
      ensure!(col == chars + 1, "error at byte {} is said to be in column {} instead of {} in {}", at, col, chars + 1, show(&text));
      ensure!(m.contains(&format!("{}:{}", l, col)), "message {:?} does not give {}:{}", m, l, col);
      ensure!(source.is_some(), "no source for {:?}", e);
    }
    (Rej::Escape, Error::UnescapeError { .. }) => ensure!(source.is_some(), "no source for {:?}", e),
    (Rej::Digest, Error::GenericParseError { message }) => ensure!(m.contains(message.as_str()), "message {:?} misses {:?}", m, message),
    _ => return Err(format!("{} is rejected because of {:?}, but the error is {:?}", show(&text), rej, e)),
  }
  Ok(())
}

// ------------------------------------------------------------------- C28

fn c28(s: &mut Src, c: &mut Ctx) -> R {
  let d = match accepted(s, c) {
    Some(d) => d,
    None => return Ok(()),
  };
  let text = c.input.clone();
  let mut v: Vec<&BreakableString> = Vec::new();
  for i in &d.instructions {
    match i {
      Instruction::Env(e) => v.extend(e.vars.iter().map(|x| &x.value).filter(|b| {
        let t = &text[b.span.start..b.span.end];
        // quoted values are no multi-line strings
        P::new(t).string(0) != Some(t.len()) && !t.starts_with('`')
      })),
      Instruction::Misc(m) => v.push(&m.arguments),
      _ => {}
    }
    if let Some(ShellOrExecExpr::Shell(b)) = astio::expr_of(i) {
      v.push(b);
    }
  }
  c.nontrivial = v.iter().any(|b| b.components.len() > 1);
  c.tag_if(c.nontrivial, "several lines");
  let mut comments = false;
  for b in v {
    let src = &text[b.span.start..b.span.end];
    let want = refmodel::logical_line(src);
    comments |= b.components.iter().any(|x| matches!(x, BreakableStringComponent::Comment(_)));
    ensure!(b.to_string() == want, "{:?} is shown as {:?}, Docker sees {:?}", src, b.to_string(), want);
    // building the same string by hand shows the same
    let mut h = BreakableString::new(b.span);
    for x in b.iter_components() {
      h = match x {
        BreakableStringComponent::String(s) => h.add_string(s.span, s.content.clone()),
        BreakableStringComponent::Comment(s) => h.add_comment(s.span, s.content.clone()),
      };
    }
    ensure!(h == *b && h.to_string() == want, "rebuilt {:?} differs from {:?}", h, b);
  }
  c.tag_if(comments, "comment lines inside");
  Ok(())
}

pub const PROPS: &[Prop] = &[
  Prop {
    id: "C01",
    rule: "any text (mutated valid files, line-shaped and free token soup, random code points), raw bytes, repetitions of 1-3 units up to 3000 bytes, and towers of 500 to 60000 repeated units; parse, then every read-only operation; fails only on a panic, an abort, a signal or 90 s of CPU on one case; non-trivial if over 3 bytes; distinct by text",
    f: c01, quick: 410_000, thorough: 8_200_000,
    assumptions: &["8 MiB stack per thread", "variable definitions whose expansion is exponentially wide are not expanded", "texts up to about 1 MB"],
  },
  Prop {
    id: "C02",
    rule: "texts of 16384 bytes (repetitions of 1-3 units after a head and before a tail, a random line repeated, valid files mutated, random texts joined, one list or very many alike) parsed under a budget of 400 grammar steps per byte (over ten times the highest cost seen) and 1600 allocated bytes per byte (over twice the highest seen); for one text in 30 (lists: in 6) the processor time of its continuation to 131072 bytes is compared (allowed: 32 times, highest seen: 13 times); non-trivial if over 8192 bytes; distinct by text",
    f: c02, quick: 50_000, thorough: 1_000_000,
    assumptions: &["one grammar step is one counted call in pest (rule, sequence, repetition, optional, lookahead)", "super-linear cost shows at 16384 bytes as over 400 steps or 1600 allocated bytes per byte, or at 131072 bytes as over 32 times the processor time"],
  },
  Prop {
    id: "C03",
    rule: "arbitrary and mostly valid texts, some over 8 KiB; string, FromStr and readers with scripted chunk sizes and interruptions compared (result, error, content); one case in four has a failing reader or invalid UTF-8; one in 60 parses on four threads; non-trivial if over 3 bytes; distinct by text",
    f: c03, quick: 330_000, thorough: 6_600_000,
    assumptions: &["errors compare by their debug output"],
  },
  Prop {
    id: "C04",
    rule: "mostly valid texts (generated files, mutants, line soup, corpus); rejected ones are skipped; non-trivial if there is an instruction; distinct by text",
    f: c04, quick: 2_430_000, thorough: 48_600_000,
    assumptions: &["the list of punctuation allowed between parts, per instruction kind"],
  },
  Prop {
    id: "C05",
    rule: "as C04; every leaf element's text decoded by the reference decoder and compared with its content, composite spans against their parts; non-trivial if there is an element; distinct by text",
    f: c05, quick: 3_000_000, thorough: 60_000_000,
    assumptions: &["reference decoder of quoted strings"],
  },
  Prop {
    id: "C26",
    rule: "one malformed instruction of 24 families, generated with random contents, after 0-3 and before 0-2 well-formed instructions; the reference parser confirms that it is malformed; the reported position of a syntax error must lie on it; every case is non-trivial; distinct by text",
    f: c26, quick: 4_500_000, thorough: 90_000_000,
    assumptions: &["an unterminated quotation may be reported anywhere behind its start"],
  },
  Prop {
    id: "C27",
    rule: "arbitrary texts (mutated valid files, line-shaped and free token soup, generated files, random code points, mutated corpus) parsed by the library and by the reference parser; verdicts, instructions with all spans, global args and content compared; non-trivial if over 2 bytes; distinct by text",
    f: c27, quick: 6_000_000, thorough: 120_000_000,
    assumptions: &["the hand-written reference parser states the supported syntax"],
  },
  Prop {
    id: "C33",
    rule: "arbitrary texts, well-formed beginnings with anything behind, wrong strings and digests among good instructions; those the reference parser rejects: error variant, source, message, and for syntax errors offset, line and the well-formed part before it; the others are skipped; every rejected text is non-trivial; distinct by text",
    f: c33, quick: 4_090_000, thorough: 81_800_000, assumptions: &["the reference parser tells the cause; texts on which it and the library disagree about acceptance are C27's"],
  },
  Prop {
    id: "C28",
    rule: "as C04; every multi-line string displayed and compared with the logical line computed from the text under its span; non-trivial if one has several components; distinct by text",
    f: c28, quick: 2_810_000, thorough: 56_200_000,
    assumptions: &["Docker's line processing as stated in the property; the instruction's own first line is never a comment"],
  },
];
