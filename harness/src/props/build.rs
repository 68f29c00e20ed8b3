//! C19 image decomposition, C20 variable substitution, C29 quoting.

use super::text::{bad_quoted, show};
use super::Prop;
use crate::astio;
use crate::dict;
use crate::gen::{self, Q};
use crate::refmodel::{self, substitute_model, Sub};
use crate::tape::{Ctx, Src, R};
use dockerfile_parser::*;
use std::collections::{BTreeSet, HashMap, HashSet};

// ------------------------------------------------------------------- C19

fn ref_text(s: &mut Src) -> String {
  if s.chance(1, 8) {
    return gen::composed(s);
  }
  match s.weighted(&[10, 4, 3, 2]) {
    0 => {
      let n = s.small(9);
      (0..n)
        .map(|_| {
          if let Some(t) = dict::hint(s) {
            return t;
          }
          s.pick::<&str>(&[
            "/", ":", "@", ".", "localhost", "a", "foo", "//", "::", "@@", "sha256:", "0", "LOCALHOST", "-", "_", "$x", "${x}", " ", "é", "http://", "localhost/",
            "a.b", "5000", "\n", "😀", "localhosts", "xlocalhost", "", "%", "[::1]", "library", "docker.io", "docker.io/", "index.docker.io/", "registry.hub.docker.com/", "quay.io/", "ghcr.io/", "gcr.io/", "mcr.microsoft.com/", "library/",
            "latest", ":latest", "registry-1.docker.io/", "sha512:", "127.0.0.1", "https://", "docker://", "a_b.c", ".:", "-.-",
          ])
          .to_string()
        })
        .collect()
    }
    1 => gen::image(s),
    2 => gen::value(s),
    _ => {
      let n = s.small(12);
      (0..n).map(|_| char::from_u32(s.below(0x11_0000)).unwrap_or('/')).collect()
    }
  }
}

fn c19(s: &mut Src, c: &mut Ctx) -> R {
  let t = ref_text(s);
  c.input = t.clone();
  c.nontrivial = t.contains(['/', ':', '@']);
  let r = ImageRef::parse(&t);
  let want = refmodel::decompose(&t);
  c.tag_if(want.registry.is_some(), "registry");
  c.tag_if(want.tag.is_some(), "tag");
  c.tag_if(want.hash.is_some(), "hash");
  c.tag_if(want.hash.is_some() && t.matches('@').count() > 1, "several @");
  ensure!(r == want, "{} decomposes into {:?} instead of {:?}", show(&t), r, want);
  let d = r.to_string();
  ensure!(d == t, "{} prints back as {:?}", show(&t), d);
  ensure!(ImageRef::parse(&d) == r, "{} does not survive printing", show(&t));
  // the same inside a file
  if !t.is_empty() && t.chars().all(|c| c.is_ascii_alphanumeric() || "_-.:/${}@".contains(c)) {
    c.tag("also checked inside a FROM");
    if let Ok(f) = Dockerfile::parse(&format!("FROM {}", t)) {
      let f = f.instructions[0].as_from().ok_or("not a FROM")?.clone();
      ensure!(f.image_parsed == want && f.image.content == t, "FROM {} has image {:?}", t, f);
    } else {
      ensure!(want.hash.is_some(), "FROM {} rejected", t);
    }
  }
  Ok(())
}

// ------------------------------------------------------------------- C20

const NAMES: &[&str] = &["a", "b", "c", "A", "_", "0", "a_b", "aa", "tag", "IMG", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q"];

/// Text with references to a few names.
fn var_text(s: &mut Src, pool: usize, plain: &[&str]) -> String {
  var_text_of(s, &NAMES[..pool], plain)
}

fn var_text_of(s: &mut Src, names: &[&str], plain: &[&str]) -> String {
  let n = s.small(4) + 1;
  let mut t = String::new();
  for _ in 0..n {
    match s.weighted(&[6, 5, 3]) {
      0 => {
        let v = s.pick(names).to_string();
        if s.bool() {
          t.push_str(&format!("${}", v));
        } else {
          t.push_str(&format!("${{{}}}", v));
        }
      }
      1 => match dict::hint(s) {
        Some(mut w) => {
          if !plain.contains(&"@") {
            w.retain(|c| c.is_ascii_alphanumeric() || "_-.:/${}".contains(c));
          }
          t.push_str(&w)
        }
        None => t.push_str(s.pick::<&str>(plain)),
      },
      _ if s.chance(1, 12) => {
        let (v, x) = (gen::ident(s), if s.bool() { "" } else { "}" });
        t.push_str(&format!("${}{}{}", if x.is_empty() { "" } else { "{" }, v, x));
      }
      _ => {}
    }
  }
  t
}

const PLAIN: &[&str] = &["x", "alpine", ":", "/", "@", ".", "$", "${", "}", "$$", "${}", "$-", "${a", "{a}", "é", "😀", " ", "-", "3.10", "${a:-b}", "$é", "\\$", "中", "${a b}", "\n", "${é}"];
const PLAIN_IMG: &[&str] = &["x", "alpine", ":", "/", ".", "$", "${", "}", "$$", "${}", "$-", "${a", "{a}", "-", "3.10", "localhost/", "a.b/", "a:1/"];

/// Names an ARG can have.
const ARGS: &[&str] = &["a", "b", "c", "A", "x_", "z0", "a_b", "aa", "tag", "IMG", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q"];

/// Variables: 0 random, 1 a chain of exactly some length, 2 with a cycle
fn var_map(s: &mut Src, img: bool) -> (usize, Vec<(String, String)>, Option<usize>) {
  let plain = if img && s.bool() { PLAIN_IMG } else { PLAIN };
  let mut names = if img { ARGS } else { NAMES }.to_vec();
  let own = if s.chance(1, 15) { if img { gen::arg_name(s) } else { gen::ident(s) } } else { String::new() };
  if !own.is_empty() && !names.contains(&own.as_str()) {
    names[0] = &own;
  }
  if s.chance(1, 3) {
    // a chain around the depth limit
    let n = s.range(1, 20) as usize;
    let mut v: Vec<(String, String)> = (0..n)
      .map(|i| {
        let end = if i + 1 < n {
          let r = if s.bool() { format!("${}", names[i + 1]) } else { format!("${{{}}}", names[i + 1]) };
          format!("{}{}{}", s.pick::<&str>(&["", "x-", "é", "x:"]), r, s.pick::<&str>(&["", "-y", "é", "@y"]))
        } else {
          match s.below(4) {
            0 => "$missing".to_string(),
            1 => format!("${}", names[s.below(n as u32) as usize]),
            _ => "end".to_string(),
          }
        };
        (names[i].to_string(), end)
      })
      .collect();
    for i in (1..v.len()).rev() {
      let j = s.below(i as u32 + 1) as usize;
      v.swap(i, j);
    }
    return (n, v, Some(n));
  }
  let pool = s.range(1, 6) as usize;
  let n = s.small(8);
  let v = (0..n)
    .map(|_| {
      let k = s.pick(&names[..pool]).to_string();
      let t = match s.weighted(&[8, 12, 2, 2]) {
        3 => {
          // a variable's name as the value, also of the other case
          let n = if s.bool() { k.as_str() } else { *s.pick(&names[..pool]) };
          match s.below(4) {
            0 => n.to_string(),
            1 => n.to_lowercase(),
            2 => n.to_uppercase(),
            _ => format!("{}{}", n, n),
          }
        }
        // long values (also with a reference in them)
        0 | 1 if s.chance(1, 60) => {
          let n = s.range(1, 9) * s.range(1, 600);
          let n = if s.chance(1, 8) { dict::count(s).unwrap_or(n) } else { n };
          let mut t: String = (0..n).map(|i| (b'a' + (i % 23) as u8) as char).collect();
          if s.bool() {
            let at = s.below(t.len() as u32 + 1) as usize;
            t.insert_str(at, &format!("${{{}}}", names[s.below(pool as u32) as usize]));
          }
          t
        }
        0 => dict::hint(s).unwrap_or_else(|| s.pick::<&str>(plain).to_string()),
        1 => var_text_of(s, &names[..pool], plain),
        _ => String::new(),
      };
      dict::keep(s, &k);
      dict::keep(s, &t);
      (k, t)
    })
    .collect();
  (pool, v, None)
}

fn sub_tags(c: &mut Ctx, m: &Sub, chain: Option<usize>) {
  c.tag(match m {
    Sub::None => "unresolvable",
    Sub::Some(..) => "resolvable",
    Sub::Budget => "too wide, skipped",
  });
  if let Sub::Some(_, u) = m {
    c.tag_if(u.len() > 1, "several variables used");
  }
  c.tag_if(chain.map_or(false, |n| n >= 15 && n <= 18), "chain near the depth limit");
}

fn compare(what: &str, got: &Option<(String, BTreeSet<String>)>, want: &Sub) -> R {
  let ok = match (got, want) {
    (None, Sub::None) => true,
    (Some((t, u)), Sub::Some(w, v)) => t == w && u == v,
    _ => false,
  };
  ensure!(ok, "{}\n gives    {:?}\n expected {:?}", what, got, want);
  Ok(())
}

fn c20(s: &mut Src, c: &mut Ctx) -> R {
  if s.bool() {
    // the substitution itself, any text and depth
    let (pool, list, chain) = var_map(s, false);
    let vars: HashMap<String, String> = list.into_iter().collect();
    let text = if chain.is_some() && s.bool() { format!("${}", NAMES[0]) } else { var_text(s, pool, PLAIN) };
    let depth = match s.weighted(&[4, 4, 1]) {
      0 => 16,
      1 => s.below(21) as u8,
      _ => *s.pick(&[255, 0, 1, 2]),
    };
    let m = substitute_model(&text, &vars, depth as usize);
    let sorted: std::collections::BTreeMap<_, _> = vars.iter().collect();
    c.input = format!("{:?} with {:?} depth {}", text, sorted, depth);
    c.nontrivial = text.contains('$');
    c.tag("substitute()");
    sub_tags(c, &m, chain);
    if m == Sub::Budget {
      c.skipped = true;
      return Ok(());
    }
    let r: HashMap<&str, &str> = vars.iter().map(|(k, v)| (k.as_str(), v.as_str())).collect();
    let mut used = HashSet::new();
    let got = substitute(&text, &r, &mut used, depth).map(|t| (t, used.into_iter().collect()));
    return compare(&c.input, &got, &m);
  }
  // through a file
  let (pool, list, chain) = var_map(s, true);
  let mut file = String::new();
  let mut vars: HashMap<String, String> = HashMap::new();
  for (k, v) in &list {
    if chain.map_or(s.chance(1, 8), |_| s.chance(1, 80)) {
      // a declaration without a value does not define it
      file.push_str(&format!("ARG {}\n", k));
      continue;
    }
    let sp = if gen::rawable(v) && s.bool() { v.clone() } else { gen::quote(s, v, Q::Plain, 1) };
    file.push_str(&format!("ARG {}={}\n", k, sp));
    vars.insert(k.clone(), v.clone());
  }
  if s.chance(1, 5) {
    file.push_str("RUN x\n");
  }
  let mut img = if chain.is_some() && s.bool() { format!("${}", ARGS[0]) } else { var_text_of(s, &ARGS[..pool], PLAIN_IMG) };
  if img.is_empty() {
    img.push('x');
  }
  let two = s.bool();
  let img1 = if two { "first" } else { &img };
  let from = |s: &mut Src, i: &str| -> String {
    let f: String = gen::from_flags(s).iter().filter(|(_, v)| !v.is_empty() && gen::rawable(v)).map(|(n, v)| format!("--{}={} ", n, v)).collect();
    let a = if s.chance(1, 6) { format!(" AS {}", gen::alias(s)) } else { String::new() };
    format!("FROM {}{}{}", f, i, a)
  };
  let t = from(s, img1);
  file.push_str(&t);
  file.push('\n');
  // later ARGs do not count
  if s.bool() {
    file.push_str(&format!("ARG {}=late\n", ARGS[s.below(pool as u32) as usize]));
  }
  if two {
    let t = from(s, &img);
    file.push_str(&t);
    file.push('\n');
  }
  let m = substitute_model(&img, &vars, 16);
  c.input = file.clone();
  c.nontrivial = img.contains('$');
  c.tag("through a file");
  sub_tags(c, &m, chain);
  if m == Sub::Budget {
    c.skipped = true;
    return Ok(());
  }
  let d = Dockerfile::parse(&file).map_err(|e| format!("rejected: {}: {}", show(&file), e))?;
  let f = d.instructions.iter().filter_map(|i| i.as_from()).last().ok_or("no FROM")?;
  let got = f.image_parsed.resolve_vars_with_context(&d);
  let want = match &m {
    Sub::Some(t, u) => Some((refmodel::decompose(t), u.iter().cloned().collect::<HashSet<_>>())),
    _ => None,
  };
  ensure!(got == want, "resolving {:?} in {}\n gives    {:?}\n expected {:?}", img, show(&file), got, want);
  ensure!(
    f.image_parsed.resolve_vars(&d) == want.map(|x| x.0),
    "resolve_vars and resolve_vars_with_context disagree on {}",
    show(&file)
  );
  // an image reference made by hand
  let other = var_text_of(s, &ARGS[..pool], PLAIN);
  let m = substitute_model(&other, &vars, 16);
  if m != Sub::Budget {
    let got = ImageRef::parse(&other).resolve_vars(&d);
    let want = match &m {
      Sub::Some(t, _) => Some(refmodel::decompose(t)),
      _ => None,
    };
    ensure!(got == want, "resolving {:?} by hand in {}\n gives    {:?}\n expected {:?}", other, show(&file), got, want);
  }
  Ok(())
}

// ------------------------------------------------------------------- C32

fn image_ok(t: &str) -> bool {
  !t.is_empty()
    && t.chars().all(|c| c.is_ascii_alphanumeric() || "_-.:/${}@".contains(c))
    && !t.contains("@")
    || t.split_once('@').map_or(false, |(a, h)| image_ok(a) && crate::refparse::digest_ok(h) && !a.is_empty())
}

fn c32(s: &mut Src, c: &mut Ctx) -> R {
  use gen::Sem;
  let arg_names: Vec<&str> = NAMES.iter().filter(|n| n.as_bytes()[0].is_ascii_alphabetic()).copied().collect();
  let mut ms: Vec<Sem> = Vec::new();
  // names an image may refer to: mostly declared ones
  let mut names: Vec<&str> = Vec::new();
  let text = |s: &mut Src, names: &[&str]| -> String {
    let mut t = String::new();
    for _ in 0..1 + s.small(3) {
      if !names.is_empty() && s.chance(3, 5) {
        let n = s.pick(names).to_string();
        t.push_str(&if s.bool() { format!("${}", n) } else { format!("${{{}}}", n) });
      } else if s.chance(1, 25) {
        t.push_str(s.pick::<&str>(&["$nope", "${", "$", "${}", "$$", "}", "${A", "$-"]));
      } else {
        match dict::hint(s) {
          Some(mut w) => {
            w.retain(|c| c.is_ascii_alphanumeric() || "_-.:/${}".contains(c));
            t.push_str(&w);
          }
          None if s.chance(1, 8) => t.push_str(&gen::composed(s)),
          None => t.push_str(s.pick::<&str>(&["x", ":", "/", ".", "-", "3.10", "localhost/", "a.b/", "a:1/", "b", "alpine", "_"])),
        }
      }
    }
    if t.is_empty() {
      t.push('x');
    }
    t
  };
  for i in 0..2 + s.small(9) {
    let global = !ms.iter().any(|m| matches!(m, Sem::From { .. }));
    ms.push(match s.weighted(&[if i < 2 { 20 } else { 6 }, 6, 2]) {
      0 => {
        let name: &str = *s.pick(&arg_names[..6]);
        let v = match s.weighted(&[6, 4, 1, 2]) {
          3 => gen::composed(s),
          0 => s.pick(&["alpine", "3.10", "b", "localhost/x", "a.b:1/c", "x:y", "scratch", "@sha256:", "/", ":", "é", " ", "a b", "\"", "-"]).to_string(),
          1 => text(s, &names),
          _ => String::new(),
        };
        let v = if v == "@sha256:" { format!("@sha256:{}", gen::hex64(s)) } else { dict::hint(s).unwrap_or(v) };
        dict::keep(s, &v);
        let value = if s.chance(9, 10) { Some(v) } else { None };
        if global || s.chance(1, 10) {
          names.push(name);
        }
        Sem::Arg { name: name.to_string(), value }
      }
      1 => {
        let image = text(s, &names);
        Sem::From { flags: gen::from_flags(s), image, alias: if s.chance(1, 12) { Some(gen::alias(s)) } else if s.bool() { Some(s.pick(&["b", "B", "alpine", "x", "3"]).to_string()) } else { None } }
      }
      _ => gen::sem(s, &gen::ALL_KINDS),
    });
  }
  let l = gen::lay(s);
  let r = gen::render(s, &ms, l);
  c.input = r.text.clone();
  let inner = |s: &mut Src, c: &mut Ctx| -> R {
    let d = Dockerfile::parse(&r.text).map_err(|e| format!("rejected: {}", e))?;
    ensure!(d.instructions.len() == ms.len(), "{} instructions instead of {}", d.instructions.len(), ms.len());
    let mut vars: HashMap<String, String> = HashMap::new();
    for m in &ms {
      match m {
        Sem::Arg { name, value: Some(v) } => {
          vars.insert(name.clone(), v.clone());
        }
        Sem::From { .. } => break,
        _ => {}
      }
    }
    let mut want: Vec<Instruction> = d.instructions.iter().map(astio::spanless).collect();
    let mut edits: Vec<(Span, String)> = Vec::new();
    let mut plain: Vec<Option<ImageRef>> = Vec::new();
    for (k, m) in ms.iter().enumerate() {
      let image = match m {
        Sem::From { image, .. } => image,
        _ => continue,
      };
      let f = d.instructions[k].as_from().ok_or("not a FROM")?;
      plain.push(None);
      let got = f.image_parsed.resolve_vars(&d);
      match substitute_model(image, &vars, 16) {
        Sub::Budget => c.tag("too wide, left alone"),
        Sub::None => {
          c.tag("unresolvable, left alone");
          ensure!(got.is_none(), "{:?} resolves to {:?}", image, got);
        }
        Sub::Some(t, used) => {
          let g = got.ok_or_else(|| format!("{:?} does not resolve, expected {:?}", image, t))?;
          ensure!(g == refmodel::decompose(&t) && g.to_string() == t, "{:?} resolves to {:?}, expected {:?}", image, g, t);
          if !image_ok(&t) {
            c.tag("resolved to what FROM does not accept");
            continue;
          }
          c.tag(if used.is_empty() { "nothing to resolve" } else { "resolved and written back" });
          c.nontrivial |= !used.is_empty();
          edits.push((f.image.span, g.to_string()));
          if let Instruction::From(w) = &mut want[k] {
            w.image.content = t.clone();
            w.image_parsed = refmodel::decompose(&t);
          }
          if refmodel::split_vars(&t).iter().all(|p| matches!(p, refmodel::Part::Text(_))) {
            *plain.last_mut().unwrap() = Some(refmodel::decompose(&t));
          }
        }
      }
    }
    c.tag_if(edits.len() > 1, "several images written back");
    let mut sp = d.splicer();
    for i in (1..edits.len()).rev() {
      let j = s.below(i as u32 + 1) as usize;
      edits.swap(i, j);
    }
    for (span, t) in &edits {
      sp.splice(span, t);
    }
    let d2 = Dockerfile::parse(&sp.content).map_err(|e| format!("resolved file {:?} rejected: {}", sp.content, e))?;
    let found: Vec<Instruction> = d2.instructions.iter().map(astio::spanless).collect();
    ensure!(found == want, "resolved file {:?}\n expected {:?}\n found    {:?}", sp.content, want, found);
    // nothing left to resolve
    let again: Vec<&FromInstruction> = d2.instructions.iter().filter_map(|i| i.as_from()).collect();
    for (f, p) in again.iter().zip(&plain) {
      if let Some(p) = p {
        let got = f.image_parsed.resolve_vars_with_context(&d2);
        ensure!(got == Some((p.clone(), HashSet::new())), "resolved image {:?} resolves again to {:?}", f.image, got);
      }
    }
    // stages follow the resolved names
    let froms: Vec<(usize, String, Option<String>)> = want
      .iter()
      .enumerate()
      .filter_map(|(i, x)| x.as_from().map(|f| (i, f.image.content.clone(), f.alias.as_ref().map(|a| a.content.clone()))))
      .collect();
    let st = d2.stages();
    for (k, m) in refmodel::stages(&froms, want.len()).iter().enumerate() {
      let ok = match (&st[k].parent, &m.parent) {
        (StageParent::Scratch, refmodel::Parent::Scratch) => true,
        (StageParent::Stage(a), refmodel::Parent::Stage(b)) => a == b,
        (StageParent::Image(i), refmodel::Parent::Image(t)) => i.to_string() == *t,
        _ => false,
      };
      ensure!(ok, "stage {} of resolved file {:?} has parent {:?} instead of {:?}", k, sp.content, st[k].parent, m.parent);
    }
    Ok(())
  };
  inner(s, c).map_err(|m| format!("{}\n in {}", m, show(&r.text)))
}

// ------------------------------------------------------------------- C29

fn any_value(s: &mut Src) -> String {
  match s.weighted(&[24, 12, 8, 1]) {
    3 => {
      let x = *s.pick(&["", "\\", "\\\\", "\"", "'", "\n"]);
      format!("{}{}{}", x, dict::word(s), s.pick(&["", "0", "0041", "\\", "\"", "x"]))
    }
    0 => gen::value(s),
    1 => {
      let n = s.small(10);
      (0..n).map(|_| char::from_u32(s.below(0x11_0000)).unwrap_or('\\')).collect()
    }
    _ => {
      let n = s.small(8);
      (0..n).map(|_| *s.pick(&['\\', '"', '\'', '`', '\n', '\r', ' ', 'n', 'u', '\t', '=', ',', ']', '#', 'x', '0'])).collect()
    }
  }
}

fn c29(s: &mut Src, c: &mut Ctx) -> R {
  let bad = s.chance(1, 6);
  let v = any_value(s);
  let pos = s.below(8) as usize;
  let label = matches!(pos, 1..=4);
  let q = if bad { bad_quoted(s) } else { gen::quote(s, &v, if label { Q::Label } else { Q::Plain }, 2) };
  // other quoted values around it, often the same one
  let near = |s: &mut Src, q: Q| {
    let w = match s.below(4) {
      0 => gen::value(s),
      1 => v.chars().rev().collect(),
      _ => v.clone(),
    };
    gen::quote(s, &w, q, 2)
  };
  let mut text = String::new();
  let mut lines = 0;
  if s.chance(1, 4) {
    for _ in 0..1 + s.small(2) {
      let t = match s.below(6) {
        0 => format!("ARG b={}", near(s, Q::Plain)),
        1 => format!("LABEL b={}", near(s, Q::Label)),
        2 => format!("LABEL {} {}", near(s, Q::Label), near(s, Q::Label)),
        3 => format!("ENV b={} c={}", near(s, Q::Plain), near(s, Q::Plain)),
        4 => format!("ENV b {}", near(s, Q::Plain)),
        _ => format!("CMD [{}, {}]", near(s, Q::Plain), near(s, Q::Plain)),
      };
      text.push_str(&t);
      text.push_str(s.pick::<&str>(&["\n", "\n", "\r\n", "\n\n# c\n"]));
      lines += 1;
    }
  }
  let side = |s: &mut Src, q: Q, plain: &str| if s.chance(1, 4) { near(s, q) } else { plain.to_string() };
  let mut at = 0;
  let find: fn(&Instruction) -> Option<String>;
  match pos {
    0 => {
      text.push_str(&format!("ARG a={}", q));
      find = |i| Some(i.as_arg()?.value.as_ref()?.content.clone());
    }
    1 => {
      text.push_str(&format!("LABEL a={}", q));
      find = |i| Some(i.as_label()?.labels.get(0)?.value.content.clone());
    }
    2 => {
      let x = side(s, Q::Label, "b");
      text.push_str(&format!("LABEL {}={}", q, x));
      find = |i| Some(i.as_label()?.labels.get(0)?.name.content.clone());
    }
    3 => {
      let x = side(s, Q::Label, "a");
      text.push_str(&format!("LABEL {} {}", x, q));
      find = |i| Some(i.as_label()?.labels.get(0)?.value.content.clone());
    }
    4 => {
      let (x, y, z) = (side(s, Q::Label, "x"), side(s, Q::Label, "\"y\""), side(s, Q::Label, "'z'"));
      text.push_str(&format!("LABEL {}={} {}={} d=e", x, y, q, z));
      find = |i| Some(i.as_label()?.labels.get(1)?.name.content.clone());
    }
    5 => {
      let x = side(s, Q::Plain, "c");
      text.push_str(&format!("ENV a={} b={}", q, x));
      find = |i| Some(i.as_env()?.vars.get(0)?.value.to_string());
    }
    6 => {
      text.push_str(&format!("ENV a {}", q));
      find = |i| Some(i.as_env()?.vars.get(0)?.value.to_string());
    }
    _ => {
      let k = *s.pick(&["RUN", "CMD", "ENTRYPOINT"]);
      text.push_str(k);
      text.push_str(" [");
      for _ in 0..s.below(3) {
        let x = side(s, Q::Plain, "\"p\"");
        text.push_str(&format!("{} , ", x));
      }
      at = text.len();
      text.push_str(&q);
      let x = side(s, Q::Plain, "'z'");
      text.push_str(&match s.below(3) {
        0 => String::new(),
        1 => format!(", {}", x),
        _ => " ".to_string(),
      });
      text.push(']');
      find = |i| astio::expr_of(i)?.as_exec().map(|_| String::new());
    }
  }
  c.input = text.clone();
  c.nontrivial = bad || !v.is_empty();
  c.tag(["ARG value", "LABEL value", "LABEL name", "single LABEL value", "second LABEL name", "ENV value", "single ENV value", "exec element"][pos]);
  let r = Dockerfile::parse(&text);
  if bad {
    c.tag("wrong escape");
    ensure!(r.is_err(), "wrong escape accepted in {} as {:?}", show(&text), r);
    return Ok(());
  }
  c.tag_if(q.contains('\\'), "escapes");
  c.tag_if(!v.is_ascii(), "non-ASCII value");
  c.tag_if(v.contains(['\n', '\r']), "line break in the value");
  let d = r.map_err(|e| format!("{} rejected: {}", show(&text), e))?;
  ensure!(d.instructions.len() == lines + 1, "{} parses as {:?}", show(&text), d.instructions);
  let last = &d.instructions[lines];
  let mut got = find(last).ok_or_else(|| format!("{} parses as {:?}", show(&text), d.instructions))?;
  if pos == 7 {
    let a = astio::expr_of(last).and_then(|e| e.as_exec()).ok_or("exec")?;
    // position of our element: by its span
    got = match a.elements.iter().find(|e| e.span == Span::new(at, at + q.len())) {
      Some(e) => e.content.clone(),
      None => return Err(format!("no element at {}..{} in {:?}", at, at + q.len(), a)),
    };
  }
  ensure!(got == v, "{} gives {:?} instead of {:?}", show(&text), got, v);
  Ok(())
}

pub const PROPS: &[Prop] = &[
  Prop {
    id: "C19",
    rule: "strings joined from reference-like fragments, FROM images, arbitrary values and random code points; decomposition compared with the rule and printed back, also inside a FROM where allowed; non-trivial if there is a slash, colon or at sign; distinct by text",
    f: c19, quick: 12_000_000, thorough: 120_000_000, assumptions: &["decomposition model written from the property text"],
  },
  Prop {
    id: "C20",
    rule: "text and variable map (random references, or a shuffled chain of 1-20 ending plainly, at a missing name or in a cycle), depth 0-20 or 255; substitute() directly or through ARGs and FROMs of a file; compared with a height-based model; non-trivial if the text has a '$'; distinct by input; maps expanding to over 20000 calls are skipped",
    f: c20, quick: 1_620_000, thorough: 32_400_000, assumptions: &["expansions of over 20000 nested calls are not run"],
  },
  Prop {
    id: "C29",
    rule: "any value quoted with random quote character and escape spellings in one of 8 positions, also beside and behind the same or other quoted values, must parse back; one case in six has a wrong escape and must be rejected; non-trivial if the value is not empty; distinct by text",
    f: c29, quick: 9_000_000, thorough: 120_000_000, assumptions: &["the list of wrong escapes"],
  },
  Prop {
    id: "C32",
    rule: "generated files of 1-10 global and local ARGs, FROMs with variables and other instructions; every resolvable image written back through one splicer in random order, the result re-parsed and compared instruction by instruction, resolved again, its stages compared with the model; non-trivial if an image used a variable; distinct by text",
    f: c32, quick: 1_040_000, thorough: 20_800_000, assumptions: &["images resolving to what a FROM does not accept are left alone", "expansions that are exponentially wide are left alone"],
  },
];
