//! C30 construction, equality and order of values; C31 purity of queries.

use super::text::show;
use super::Prop;
use crate::astio;
use crate::gen::{self, ALL_KINDS};
use crate::refmodel::{self, Sub};
use crate::refparse;
use crate::tape::{Ctx, Src, R};
use crate::textgen;
use dockerfile_parser::*;
use std::collections::{BTreeSet, HashMap, HashSet};

// ------------------------------------------------------------------- C30

fn put(o: &mut String, n: &astio::Node) {
  o.push_str(&format!("({} {} {}", n.role, n.span.start, n.span.end));
  if let Some(l) = &n.leaf {
    o.push_str(&format!(" {:?}", l.content));
  }
  for k in &n.kids {
    put(o, k);
  }
  o.push(')');
}

/// Every field of an instruction, read one by one.
pub fn canon(i: &Instruction) -> String {
  let mut o = String::new();
  put(&mut o, &astio::tree(i));
  if let Instruction::From(f) = i {
    let p = &f.image_parsed;
    o.push_str(&format!(" {} {:?} {:?} {:?} {:?}", f.index, p.registry, p.image, p.tag, p.hash));
  }
  o
}

fn canon_brk(b: &BreakableString) -> String {
  let mut o = format!("{} {}", b.span.start, b.span.end);
  for c in &b.components {
    match c {
      BreakableStringComponent::String(s) => o.push_str(&format!(" s {} {} {:?}", s.span.start, s.span.end, s.content)),
      BreakableStringComponent::Comment(s) => o.push_str(&format!(" c {} {} {:?}", s.span.start, s.span.end, s.content)),
    }
  }
  o
}

fn spanned(sp: Span, t: &str) -> SpannedString {
  SpannedString { span: sp, content: t.to_string() }
}

/// Rebuilds a multi-line string by random constructors.
fn rebuild(s: &mut Src, b: &BreakableString) -> BreakableString {
  let pair = |x: Span| (x.start, x.end);
  if let ([BreakableStringComponent::String(x)], true) = (&b.components[..], s.bool()) {
    if pair(x.span) == pair(b.span) {
      return BreakableString::from((pair(b.span), x.content.as_str()));
    }
  }
  let mut r = if s.bool() { BreakableString::new(b.span) } else { BreakableString::new(pair(b.span)) };
  for c in &b.components {
    r = match c {
      BreakableStringComponent::String(x) => match s.below(7) {
        0 => r.add(spanned(x.span, &x.content)),
        1 => r.add((pair(x.span), x.content.as_str())),
        2 => r.add_string(x.span, x.content.as_str()),
        3 => r.add_string(pair(x.span), x.content.clone()),
        4 => r.add(BreakableStringComponent::from(spanned(x.span, &x.content))),
        5 => r.add(BreakableStringComponent::from((pair(x.span), x.content.as_str()))),
        _ => r.add(c.clone()),
      },
      BreakableStringComponent::Comment(x) => match s.below(5) {
        0 => r.add(SpannedComment { span: x.span, content: x.content.clone() }),
        1 => r.add_comment(x.span, x.content.as_str()),
        2 => r.add_comment(pair(x.span), x.content.clone()),
        3 => r.add(BreakableStringComponent::from(x.clone())),
        _ => r.add(c.clone()),
      },
    };
  }
  r
}

fn joined(b: &BreakableString) -> String {
  b.components
    .iter()
    .map(|c| match c {
      BreakableStringComponent::String(x) => x.content.as_str(),
      BreakableStringComponent::Comment(_) => "",
    })
    .collect()
}

fn check_brk(s: &mut Src, b: &BreakableString) -> R {
  let r = rebuild(s, b);
  let (x, y) = (canon_brk(b), canon_brk(&r));
  ensure!(x == y, "{:?} built by hand is {:?}", b, r);
  ensure!(r == *b && *b == r && !(r != *b), "{:?} built by hand is {:?}, which is not equal", b, r);
  ensure!(r.to_string() == joined(b), "{:?} is displayed as {:?}", r, r.to_string());
  ensure!(b.to_string() == joined(b), "{:?} is displayed as {:?}", b, b.to_string());
  let it: Vec<&BreakableStringComponent> = r.iter_components().collect();
  ensure!(
    it.len() == b.components.len() && it.iter().zip(&b.components).all(|(p, q)| *p == q && std::mem::discriminant(*p) == std::mem::discriminant(q)),
    "components of {:?} by iteration: {:?}",
    r,
    it
  );
  // one difference anywhere makes it another value
  let mut z = b.clone();
  let n = z.components.len();
  match s.below(7) {
    0 => z.span.end = z.span.end.wrapping_add(1),
    1 => z.span.start = z.span.start.wrapping_sub(1),
    2 => z = z.add_string((0, 0), ""),
    3 => z = z.add_comment((0, 0), ""),
    4 if n > 0 => {
      z.components.pop();
    }
    5 if n > 0 => {
      let k = s.below(n as u32) as usize;
      z.components[k] = match z.components[k].clone() {
        BreakableStringComponent::String(x) => SpannedComment { span: x.span, content: x.content }.into(),
        BreakableStringComponent::Comment(x) => spanned(x.span, &x.content).into(),
      };
    }
    _ if n > 0 => {
      let k = s.below(n as u32) as usize;
      let (sp, t) = match &mut z.components[k] {
        BreakableStringComponent::String(x) => (&mut x.span, &mut x.content),
        BreakableStringComponent::Comment(x) => (&mut x.span, &mut x.content),
      };
      match s.below(4) {
        0 => sp.start = sp.start.wrapping_add(1),
        1 => sp.end = sp.end.wrapping_add(1),
        2 => t.push(' '),
        _ => t.insert(0, 'x'),
      }
    }
    _ => z.span.end = z.span.end.wrapping_add(1),
  }
  ensure!(z != *b && *b != z && !(z == *b), "{:?} equals {:?}", z, b);
  Ok(())
}

/// Values made from nothing: spans need not fit the texts.
fn check_free(s: &mut Src) -> R {
  fn sp(s: &mut Src) -> (usize, usize) {
    let pick = |s: &mut Src| match s.below(4) {
      0 => s.below(4) as usize,
      1 => s.below(300) as usize,
      2 => 1usize << s.below(63),
      _ => usize::MAX - s.below(3) as usize,
    };
    (pick(s), pick(s))
  }
  fn text(s: &mut Src) -> String {
    s.pick(&["", " ", "a", "#", "# c", "a\n", "\\\n", "a b", "é", "\0", "[\"a\"]", "abcdefghijklmnop"]).to_string()
  }
  let whole = sp(s);
  let mut b = BreakableString::new(whole);
  let mut want: Vec<(bool, (usize, usize), String)> = Vec::new();
  let mut whole = whole;
  if s.chance(1, 4) {
    let (x, t) = (sp(s), text(s));
    b = BreakableString::from((x, t.as_str()));
    whole = x;
    want.push((true, x, t));
  }
  for _ in 0..s.below(7) {
    let (x, t) = match want.last().cloned() {
      Some((_, x, t)) if s.chance(1, 4) => (x, t),
      _ => (sp(s), text(s)),
    };
    let kind = s.chance(2, 3);
    b = match (kind, s.below(4)) {
      (true, 0) => b.add((x, t.as_str())),
      (true, 1) => b.add_string(x, t.as_str()),
      (true, 2) => b.add(spanned(Span::new(x.0, x.1), &t)),
      (true, _) => b.add(BreakableStringComponent::from((x, t.as_str()))),
      (false, 0) => b.add_comment(Span::from(x), t.as_str()),
      (false, 1) => b.add_comment(x, t.clone()),
      (false, _) => b.add(SpannedComment { span: x.into(), content: t.clone() }),
    };
    want.push((kind, x, t));
  }
  let got: Vec<(bool, (usize, usize), String)> = b
    .iter_components()
    .map(|c| match c {
      BreakableStringComponent::String(x) => (true, (x.span.start, x.span.end), x.content.clone()),
      BreakableStringComponent::Comment(x) => (false, (x.span.start, x.span.end), x.content.clone()),
    })
    .collect();
  ensure!(got == want && (b.span.start, b.span.end) == whole, "string built with span {:?} from {:?} is {:?}", whole, want, b);
  let t: String = want.iter().filter(|w| w.0).map(|w| w.2.as_str()).collect();
  ensure!(b.to_string() == t, "string built from {:?} is displayed as {:?}", want, b.to_string());
  check_brk(s, &b)?;
  let (x, k) = (sp(s), spanned(Span::from(sp(s)), &text(s)));
  let v = EnvVar::new(x.into(), k.clone(), b.clone());
  ensure!((v.span.start, v.span.end) == x && v.key == k && canon_brk(&v.value) == canon_brk(&b), "variable built from {:?}, {:?} and {:?} is {:?}", x, k, b, v);
  let (y, t) = (sp(s), text(s));
  let v = EnvVar::new(x.into(), k.clone(), (y, t.as_str()));
  ensure!((v.span.start, v.span.end) == x && v.key == k && (v.value.span.start, v.value.span.end) == y && v.value.to_string() == t && v.value.components.len() == 1, "variable built from {:?}, {:?}, {:?} and {:?} is {:?}", x, k, y, t, v);
  let w = spanned(y.into(), &t);
  let l = Label::new(x.into(), k.clone(), w.clone());
  ensure!((l.span.start, l.span.end) == x && l.name == k && l.value == w, "label built from {:?}, {:?} and {:?} is {:?}", x, k, w, l);
  let mut l2 = l.clone();
  match s.below(3) {
    0 => std::mem::swap(&mut l2.name.content, &mut l2.value.content),
    1 => l2.name = l2.value.clone(),
    _ => l2.span = l2.value.span,
  }
  let same = l2.span.start == l.span.start && l2.span.end == l.span.end && canon_sp(&l2.name) == canon_sp(&l.name) && canon_sp(&l2.value) == canon_sp(&l.value);
  ensure!((l2 == l) == same, "{:?} and {:?}: equality is {}", l2, l, l2 == l);
  Ok(())
}

fn canon_sp(x: &SpannedString) -> (usize, usize, &str) {
  (x.span.start, x.span.end, &x.content)
}

fn breakables(i: &Instruction) -> Vec<BreakableString> {
  match i {
    Instruction::Env(e) => e.vars.iter().map(|v| v.value.clone()).collect(),
    Instruction::Misc(m) => vec![m.arguments.clone()],
    _ => match astio::expr_of(i) {
      Some(ShellOrExecExpr::Shell(b)) => vec![b.clone()],
      _ => vec![],
    },
  }
}

/// The instruction again, its composite parts made by the constructors.
fn remade(s: &mut Src, i: &Instruction) -> Instruction {
  let mut i = i.clone();
  match &mut i {
    Instruction::Label(l) => {
      for x in &mut l.labels {
        *x = Label::new(x.span, x.name.clone(), x.value.clone());
      }
    }
    Instruction::Env(e) => {
      for v in &mut e.vars {
        let one = match &v.value.components[..] {
          [BreakableStringComponent::String(x)] if x.span == v.value.span => Some(((x.span.start, x.span.end), x.content.clone())),
          _ => None,
        };
        *v = match one {
          Some((sp, t)) if s.bool() => EnvVar::new(v.span, v.key.clone(), (sp, t.as_str())),
          _ => EnvVar::new(v.span, v.key.clone(), rebuild(s, &v.value)),
        };
      }
    }
    Instruction::Misc(m) => m.arguments = rebuild(s, &m.arguments),
    Instruction::Run(RunInstruction { expr: ShellOrExecExpr::Shell(b), .. })
    | Instruction::Cmd(CmdInstruction { expr: ShellOrExecExpr::Shell(b), .. })
    | Instruction::Entrypoint(EntrypointInstruction { expr: ShellOrExecExpr::Shell(b), .. }) => *b = rebuild(s, b),
    Instruction::From(f) => f.image_parsed = ImageRef::parse(&f.image.content),
    _ => {}
  }
  i
}

/// Two different elements of a list swapped, one taken out, or one put in
/// again elsewhere. False if that changes nothing.
fn shuffled<T: Clone>(s: &mut Src, v: &mut Vec<T>, same: impl Fn(&T, &T) -> bool) -> bool {
  let n = v.len() as u32;
  if n == 0 {
    return false;
  }
  let (a, b) = (s.below(n) as usize, s.below(n) as usize);
  match s.below(5) {
    0 => {
      v.remove(a);
      true
    }
    1 => {
      let x = v[b].clone();
      v.insert(a, x);
      true
    }
    2 if !same(&v[a], &v[b]) => {
      v[a] = v[b].clone();
      true
    }
    _ => {
      v.swap(a, b);
      !same(&v[a], &v[b])
    }
  }
}

/// A change of one of the instruction's lists; false if there is none.
fn relisted(s: &mut Src, i: &mut Instruction) -> bool {
  let text = |a: &SpannedString, b: &SpannedString| a.span == b.span && a.content == b.content;
  let expr = |s: &mut Src, e: &mut ShellOrExecExpr| match e {
    ShellOrExecExpr::Exec(a) => shuffled(s, &mut a.elements, text),
    ShellOrExecExpr::Shell(b) => shuffled(s, &mut b.components, |x, y| format!("{:?}", x) == format!("{:?}", y)),
  };
  match i {
    Instruction::From(f) => shuffled(s, &mut f.flags, |x, y| format!("{:?}", x) == format!("{:?}", y)),
    Instruction::Copy(c) => {
      if s.bool() {
        shuffled(s, &mut c.flags, |x, y| format!("{:?}", x) == format!("{:?}", y))
      } else {
        shuffled(s, &mut c.sources, text)
      }
    }
    Instruction::Label(l) => shuffled(s, &mut l.labels, |x, y| format!("{:?}", x) == format!("{:?}", y)),
    Instruction::Env(e) => {
      let k = s.below(e.vars.len() as u32 + 1) as usize;
      match e.vars.get_mut(k) {
        Some(v) => shuffled(s, &mut v.value.components, |x, y| format!("{:?}", x) == format!("{:?}", y)),
        None => shuffled(s, &mut e.vars, |x, y| format!("{:?}", x) == format!("{:?}", y)),
      }
    }
    Instruction::Misc(m) => shuffled(s, &mut m.arguments.components, |x, y| format!("{:?}", x) == format!("{:?}", y)),
    Instruction::Run(x) => expr(s, &mut x.expr),
    Instruction::Cmd(x) => expr(s, &mut x.expr),
    Instruction::Entrypoint(x) => expr(s, &mut x.expr),
    Instruction::Arg(_) => false,
  }
}

/// One random difference; None if there is nothing to change.
fn altered(s: &mut Src, i: &Instruction) -> Instruction {
  let mut z = i.clone();
  if s.chance(1, 3) && relisted(s, &mut z) {
    return z;
  }
  match s.below(4) {
    0 => {
      // one end of one span
      let mut n = 0;
      astio::map_spans(&mut z.clone(), &mut |x| {
        n += 1;
        x
      });
      let k = s.below(n);
      let start = s.bool();
      let mut m = 0;
      astio::map_spans(&mut z, &mut |x| {
        m += 1;
        if m - 1 != k {
          x
        } else if start {
          Span::new(x.start + 1, x.end)
        } else {
          Span::new(x.start, x.end + 1)
        }
      });
    }
    1 => match &mut z {
      // structure
      Instruction::From(f) => match s.below(5) {
        0 => f.index += 1,
        1 => f.alias = if f.alias.is_some() { None } else { Some(f.image.clone()) },
        2 => f.image_parsed.tag = if f.image_parsed.tag.is_some() { None } else { Some("x".into()) },
        3 => f.image_parsed.registry = if f.image_parsed.registry.is_some() { None } else { Some("x".into()) },
        _ => f.image_parsed.hash = if f.image_parsed.hash.is_some() { None } else { Some("x".into()) },
      },
      Instruction::Arg(a) => a.value = if a.value.is_some() { None } else { Some(a.name.clone()) },
      Instruction::Label(l) => match l.labels.last().cloned() {
        Some(x) if s.bool() => l.labels.push(x),
        Some(_) => {
          l.labels.pop();
        }
        None => l.span.end += 1,
      },
      Instruction::Copy(c) => match (s.below(3), c.flags.last().cloned()) {
        (0, Some(f)) => c.flags.push(f),
        (1, Some(_)) => {
          c.flags.pop();
        }
        _ => {
          let x = c.sources.last().cloned().unwrap_or_else(|| c.destination.clone());
          c.sources.push(x)
        }
      },
      Instruction::Env(e) => match e.vars.last().cloned() {
        Some(x) if s.bool() => e.vars.push(x),
        Some(_) => {
          e.vars.pop();
        }
        None => e.span.end += 1,
      },
      Instruction::Run(RunInstruction { span, expr }) => {
        let (span, expr) = (*span, expr.clone());
        z = CmdInstruction { span, expr }.into();
      }
      Instruction::Cmd(CmdInstruction { span, expr }) => {
        let (span, expr) = (*span, expr.clone());
        z = EntrypointInstruction { span, expr }.into();
      }
      Instruction::Entrypoint(EntrypointInstruction { span, expr }) => {
        let (span, expr) = (*span, expr.clone());
        z = RunInstruction { span, expr }.into();
      }
      Instruction::Misc(m) => m.arguments = m.arguments.clone().add_comment((0, 0), "#"),
    },
    _ => {
      let mut v = super::splice::contents(&mut z);
      if v.is_empty() {
        drop(v);
        astio::map_spans(&mut z, &mut |x| Span::new(x.start, x.end + 1));
      } else {
        let k = s.below(v.len() as u32) as usize;
        let t = &mut v[k];
        let up = t.to_uppercase();
        if s.bool() && up != **t {
          **t = up;
        } else {
          t.push(*s.pick(&[' ', 'x', '\n', '\0']));
        }
      }
    }
  }
  z
}

fn c30(s: &mut Src, c: &mut Ctx) -> R {
  let (_, r) = gen::doc(s, &ALL_KINDS, 1, 4);
  c.input = r.text.clone();
  let d = Dockerfile::parse(&r.text).map_err(|e| format!("rejected: {}: {}", show(&r.text), e))?;
  let inner = |s: &mut Src, c: &mut Ctx| -> R {
    check_free(s)?;
    for i in &d.instructions {
      for b in breakables(i) {
        c.tag("multi-line string rebuilt");
        c.tag_if(b.components.len() > 1, "multi-line string of several pieces rebuilt");
        c.nontrivial = true;
        check_brk(s, &b)?;
      }
      let m = remade(s, i);
      ensure!(canon(&m) == canon(i) && m == *i && *i == m, "{:?} built by hand is {:?}", i, m);
      let cl = i.clone();
      ensure!(canon(&cl) == canon(i) && cl == *i, "clone of {:?} is {:?}", i, cl);
      let z = altered(s, i);
      ensure!(canon(&z) != canon(i), "harness: no difference in {:?}", z);
      ensure!(z != *i && *i != z && !(z == *i), "{:?} equals {:?}", z, i);
    }
    // whole files
    let e = d.clone();
    let same = |x: &Dockerfile| -> bool {
      x.content == d.content
        && x.instructions.iter().map(canon).eq(d.instructions.iter().map(canon))
        && x.global_args.iter().map(|a| canon(&a.clone().into())).eq(d.global_args.iter().map(|a| canon(&a.clone().into())))
    };
    ensure!(same(&e) && e == d, "clone of {:?} is {:?}", d, e);
    let mut z = d.clone();
    let list = |a: &Instruction, b: &Instruction| canon(a) == canon(b);
    match s.below(6) {
      4 if shuffled(s, &mut z.instructions, list) => {}
      5 if shuffled(s, &mut z.global_args, |a, b| canon(&a.clone().into()) == canon(&b.clone().into())) => {}
      0 => z.content.push('\n'),
      1 => {
        z.instructions.pop();
      }
      2 => match z.global_args.pop() {
        Some(_) => {}
        None => z.content.insert(0, '\n'),
      },
      _ => {
        let k = s.below(z.instructions.len() as u32) as usize;
        z.instructions[k] = altered(s, &z.instructions[k].clone());
      }
    }
    ensure!(z != d && d != z, "{:?} equals {:?}", z, d);
    // order of spans and spanned texts: by start, then end, then text
    let mut v = Vec::new();
    for i in &d.instructions {
      let mut l = Vec::new();
      astio::leaves(&astio::tree(i), &mut l);
      v.extend(l.into_iter().map(|l| (l.span, l.content)));
    }
    for _ in 0..4 {
      let n = d.content.len() as u32 + 2;
      v.push((Span::new(s.below(n) as usize, s.below(n) as usize), s.pick(&["", "a", "b", "A", "é"]).to_string()));
    }
    for _ in 0..12 {
      let a = v[s.below(v.len() as u32) as usize].clone();
      let mut b = v[s.below(v.len() as u32) as usize].clone();
      match s.below(4) {
        0 => b.0.start = a.0.start,
        1 => b.0 = a.0,
        _ => {}
      }
      let key = |x: &(Span, String)| (x.0.start, x.0.end);
      let want = key(&a).cmp(&key(&b));
      ensure!(a.0.cmp(&b.0) == want && a.0.partial_cmp(&b.0) == Some(want) && (a.0 == b.0) == want.is_eq(), "{:?} and {:?} compare as {:?}", a.0, b.0, a.0.cmp(&b.0));
      let want = want.then(a.1.as_bytes().cmp(b.1.as_bytes()));
      let (x, y) = (spanned(a.0, &a.1), spanned(b.0, &b.1));
      ensure!(x.cmp(&y) == want && x.partial_cmp(&y) == Some(want) && (x == y) == want.is_eq(), "{:?} and {:?} compare as {:?}", x, y, x.cmp(&y));
      ensure!(x.to_string() == a.1 && x.as_ref() == a.1, "text of {:?}", x);
      let (x, y) = (SpannedComment { span: a.0, content: a.1.clone() }, SpannedComment { span: b.0, content: b.1.clone() });
      ensure!(x.cmp(&y) == want && (x == y) == want.is_eq(), "{:?} and {:?} compare as {:?}", x, y, x.cmp(&y));
      let p = Span::from((a.0.start, a.0.end));
      ensure!(p.start == a.0.start && p.end == a.0.end && p == Span::new(a.0.start, a.0.end), "span {:?} made from a pair is {:?}", a.0, p);
      let q = p;
      ensure!(q == p && Span::clone(&p) == p, "copy of {:?}", p);
    }
    // lists of them: field by field, the first difference decides
    let mut brks: Vec<BreakableString> = d.instructions.iter().flat_map(breakables).take(4).collect();
    brks.push(BreakableString::new(v[s.below(v.len() as u32) as usize].0));
    for _ in 0..6 {
      let mut x = brks[s.below(brks.len() as u32) as usize].clone();
      for _ in 0..1 + s.below(3) {
        let y = v[s.below(v.len() as u32) as usize].clone();
        match s.below(6) {
          0 => x.span = y.0,
          1 => x = x.add_string(y.0, y.1),
          2 => x = x.add_comment(y.0, y.1),
          3 => {
            x.components.pop();
          }
          _ if x.components.is_empty() => {}
          4 => {
            // a comment instead of a string, or the reverse
            let k = s.below(x.components.len() as u32) as usize;
            x.components[k] = match x.components[k].clone() {
              BreakableStringComponent::String(t) => SpannedComment { span: t.span, content: t.content }.into(),
              BreakableStringComponent::Comment(t) => spanned(t.span, &t.content).into(),
            };
          }
          _ => {
            let k = s.below(x.components.len() as u32) as usize;
            match &mut x.components[k] {
              BreakableStringComponent::String(t) if s.bool() => t.span = y.0,
              BreakableStringComponent::Comment(t) if s.bool() => t.span = y.0,
              BreakableStringComponent::String(t) => t.content = y.1,
              BreakableStringComponent::Comment(t) => t.content = y.1,
            }
          }
        }
      }
      brks.push(x);
    }
    type Piece = (u8, usize, usize, Vec<u8>);
    let piece = |x: &BreakableStringComponent| -> Piece {
      match x {
        BreakableStringComponent::String(t) => (0, t.span.start, t.span.end, t.content.as_bytes().to_vec()),
        BreakableStringComponent::Comment(t) => (1, t.span.start, t.span.end, t.content.as_bytes().to_vec()),
      }
    };
    let key = |x: &BreakableString| (x.span.start, x.span.end, x.components.iter().map(piece).collect::<Vec<_>>());
    for _ in 0..6 {
      let a = &brks[s.below(brks.len() as u32) as usize];
      let b = &brks[s.below(brks.len() as u32) as usize];
      let want = key(a).cmp(&key(b));
      ensure!(a.cmp(b) == want && a.partial_cmp(b) == Some(want) && (a == b) == want.is_eq(), "{:?} and {:?} compare as {:?}", a, b, a.cmp(b));
      if let (Some(x), Some(y)) = (a.components.first(), b.components.last()) {
        let want = piece(x).cmp(&piece(y));
        ensure!(x.cmp(y) == want && x.partial_cmp(y) == Some(want) && (x == y) == want.is_eq(), "{:?} and {:?} compare as {:?}", x, y, x.cmp(y));
      }
      let list = |x: &BreakableString| StringArray {
        span: x.span,
        elements: x
          .components
          .iter()
          .map(|c| match c {
            BreakableStringComponent::String(t) => t.clone(),
            BreakableStringComponent::Comment(t) => spanned(t.span, &t.content),
          })
          .collect(),
      };
      let (a, b) = (list(a), list(b));
      let key = |x: &StringArray| (x.span.start, x.span.end, x.elements.iter().map(|t| (t.span.start, t.span.end, t.content.as_bytes().to_vec())).collect::<Vec<_>>());
      let want = key(&a).cmp(&key(&b));
      ensure!(a.cmp(&b) == want && a.partial_cmp(&b) == Some(want) && (a == b) == want.is_eq(), "{:?} and {:?} compare as {:?}", a, b, a.cmp(&b));
      ensure!(a.as_str_vec().iter().copied().eq(a.elements.iter().map(|t| t.content.as_str())), "texts of {:?} are {:?}", a, a.as_str_vec());
    }
    Ok(())
  };
  inner(s, c).map_err(|m| format!("{}\n in {}", m, show(&r.text)))
}

// ------------------------------------------------------------------- C31

/// A document with everything the models say about it.
struct Known {
  text: String,
  want: Result<refparse::Doc, refparse::Rej>,
  stages: Vec<refmodel::StageModel>,
  vars: HashMap<String, String>,
  canon: Vec<String>,
  names: Vec<String>,
}

fn known(text: String) -> Known {
  let want = refparse::parse(&text);
  let mut k = Known { text, stages: vec![], vars: HashMap::new(), canon: vec![], names: ["nope", "0", "1", "7", "a", "B", "", "2", " "].map(String::from).to_vec(), want };
  if let Ok(w) = &k.want {
    let mut froms = Vec::new();
    for (i, x) in w.instructions.iter().enumerate() {
      match x {
        Instruction::From(f) => {
          froms.push((i, f.image.content.clone(), f.alias.as_ref().map(|a| a.content.clone())));
          k.names.push(f.image.content.clone());
          k.names.extend(f.alias.iter().map(|a| a.content.to_uppercase()));
        }
        Instruction::Arg(a) => k.names.push(a.name.content.clone()),
        _ => {}
      }
    }
    for a in &w.global_args {
      if let Some(v) = &a.value {
        k.vars.insert(a.name.content.clone(), v.content.clone());
      }
    }
    k.stages = refmodel::stages(&froms, w.instructions.len());
    k.canon = w.instructions.iter().map(canon).collect();
  }
  k
}

fn parsed(k: &Known) -> Result<Option<Dockerfile>, String> {
  match (&k.want, Dockerfile::parse(&k.text)) {
    (Ok(_), Ok(d)) => {
      unchanged(k, &d, "after parsing")?;
      Ok(Some(d))
    }
    (Err(_), Err(_)) => Ok(None),
    (Ok(_), Err(e)) => Err(format!("{} rejected: {}", show(&k.text), e)),
    (Err(_), Ok(_)) => Err(format!("{} accepted", show(&k.text))),
  }
}

fn unchanged(k: &Known, d: &Dockerfile, when: &str) -> R {
  ensure!(d.content == k.text, "{}: content of {} is {}", when, show(&k.text), show(&d.content));
  ensure!(d.instructions.iter().map(canon).eq(k.canon.iter().cloned()), "{}: instructions of {} are {:?}", when, show(&k.text), d.instructions);
  if let Ok(w) = &k.want {
    ensure!(d.global_args == w.global_args, "{}: global ARGs of {} are {:?}", when, show(&k.text), d.global_args);
  }
  Ok(())
}

/// One query, its answer compared with the models'.
fn query(op: u32, arg: u32, k: &Known, d: &Dockerfile) -> R {
  let w = match &k.want {
    Ok(w) => w,
    Err(_) => return Ok(()),
  };
  let name = &k.names[arg as usize % k.names.len()];
  match op {
    0 => {
      let st = d.stages();
      ensure!(st.stages.len() == k.stages.len(), "{} stages instead of {}", st.stages.len(), k.stages.len());
      for (g, m) in st.iter().zip(&k.stages) {
        ensure!(g.name == m.name, "stage {} is named {:?} instead of {:?}", g.index, g.name, m.name);
        ensure!(g.instructions.iter().map(|i| canon(i)).eq(k.canon[m.members.clone()].iter().cloned()), "stage {} holds {:?}", g.index, g.instructions);
        for (p, q) in [(&g.parent, &m.parent), (&g.root, &m.root)] {
          let ok = match (p, q) {
            (StageParent::Scratch, refmodel::Parent::Scratch) => true,
            (StageParent::Stage(a), refmodel::Parent::Stage(b)) => a == b,
            (StageParent::Image(i), refmodel::Parent::Image(t)) => i.to_string() == *t,
            _ => false,
          };
          ensure!(ok, "stage {} has parent or root {:?} instead of {:?}", g.index, p, q);
        }
      }
    }
    1 => {
      let st = d.stages();
      let want = k.stages.iter().position(|x| x.name.as_deref() == Some(&name.to_ascii_lowercase()));
      let got = st.get_by_name(name).map(|g| g.index);
      ensure!(got == want, "get_by_name({:?}) gives {:?} instead of {:?}", name, got, want);
      // by name or number, several in a row
      for j in 0..3usize {
        let name = &k.names[(arg as usize / 11 + j * (1 + arg as usize % 5)) % k.names.len()];
        let want = match name.parse::<usize>() {
          Ok(_) if !name.bytes().all(|b| b.is_ascii_digit()) => continue,
          Ok(i) => Some(i).filter(|i| *i < k.stages.len()),
          Err(_) if !name.is_empty() && name.bytes().all(|b| b.is_ascii_digit()) => continue,
          Err(_) => k.stages.iter().position(|x| x.name.as_deref() == Some(&name.to_ascii_lowercase())),
        };
        let got = st.get(name).map(|g| g.index);
        ensure!(got == want, "get({:?}) gives {:?} instead of {:?}", name, got, want);
      }
      for (g, m) in st.iter().zip(&k.stages) {
        let want = w.instructions[m.members.clone()].iter().position(|i| matches!(i, Instruction::Arg(a) if a.name.content == *name));
        ensure!(g.arg_index(name) == want, "arg_index({:?}) of stage {} gives {:?} instead of {:?}", name, g.index, g.arg_index(name), want);
      }
    }
    2 => {
      let want = w.global_args.iter().find(|a| a.name.content == *name);
      let got = d.get_global_arg(name);
      ensure!(got.map(|a| canon(&a.clone().into())) == want.map(|a| canon(&a.clone().into())), "get_global_arg({:?}) gives {:?} instead of {:?}", name, got, want);
    }
    3 => {
      let text = [name.clone(), format!("${}", name), format!("x:${{{}}}", name), format!("$a/${}", name)][arg as usize / 7 % 4].clone();
      let m = refmodel::substitute_model(&text, &k.vars, 16);
      if m == Sub::Budget {
        return Ok(());
      }
      let want = match &m {
        Sub::Some(t, u) => Some((refmodel::decompose(t), u.clone())),
        _ => None,
      };
      let got = ImageRef::parse(&text).resolve_vars_with_context(d).map(|(i, u): (ImageRef, HashSet<String>)| (i, u.into_iter().collect::<BTreeSet<String>>()));
      ensure!(got == want, "resolving {:?} gives {:?} instead of {:?}", text, got, want);
    }
    4 => {
      for (i, x) in d.instructions.iter().enumerate().skip(arg as usize % 3).step_by(3) {
        let sp = x.span();
        let (l, r) = sp.relative_span(d);
        let (a, b) = refmodel::line_col(&k.text, sp.start);
        ensure!(l == a && r.start == b && r.end == b + (sp.end - sp.start), "instruction {} at {:?} is on line {} {:?} instead of {} {}", i, sp, l, r, a, b);
      }
    }
    5 => {
      // edits made through a splicer stay in the splicer
      let mut sp = d.splicer();
      let mut m = refmodel::SpliceModel::new(&k.text);
      for (i, x) in d.instructions.iter().enumerate() {
        if (arg >> (i % 16)) & 1 == 1 {
          sp.splice(&x.span(), "Y z");
          m.splice(x.span().start, x.span().end, "Y z");
        }
      }
      ensure!(sp.content == m.content(), "splicing gives {} instead of {}", show(&sp.content), show(&m.content()));
    }
    6 => {
      let again = parsed(k)?;
      ensure!(again.as_ref() == Some(d), "parsing again gives {:?}", again);
    }
    _ => {
      for x in &d.instructions {
        for b in breakables(x) {
          ensure!(b.to_string() == joined(&b), "{:?} is displayed as {:?}", b, b.to_string());
        }
        if let Some(f) = x.as_from() {
          ensure!(f.image_parsed.to_string() == f.image.content, "image of {:?} is displayed as {}", f, f.image_parsed);
        }
      }
    }
  }
  Ok(())
}

/// ARGs that refer to each other, and images that refer to them.
fn chain_text(s: &mut Src) -> String {
  let n = s.range(1, 19) as usize;
  let mut lines: Vec<String> = (0..n)
    .map(|i| match i + 1 < n {
      true => format!("ARG v{}=${}{}{}", i, s.pick(&["{v", "{v"]), i + 1, "}"),
      false => format!("ARG v{}={}", i, s.pick(&["a", "x", "$v0", "$no", "1"])),
    })
    .collect();
  if s.bool() {
    lines.reverse();
  }
  for _ in 0..s.range(1, 3) {
    lines.push(format!("FROM {}$v{}", s.pick(&["", "x:", "r.io/"]), s.below(n as u32)));
  }
  lines.join("\n")
}

/// Another text of the same length that a weak hash may take for the same:
/// two characters changed so that sums and the usual polynomials agree, or
/// their places exchanged.
fn twin(s: &mut Src, t: &str) -> String {
  let mut v: Vec<char> = t.chars().collect();
  let word = |c: char| c.is_ascii_alphanumeric();
  let at: Vec<usize> = (1..v.len()).filter(|i| word(v[i - 1]) && word(v[*i])).collect();
  if at.is_empty() {
    return t.to_string();
  }
  let k = at[s.below(at.len() as u32) as usize];
  let by = *s.pick(&[0i32, 1, 31, 33, 31, 37, 131]);
  if by == 0 {
    v.swap(k - 1, k);
    return v.into_iter().collect();
  }
  for sign in [1, -1] {
    let (x, y) = (v[k - 1] as i32 + sign, v[k] as i32 - sign * by);
    if let (Ok(x), Ok(y)) = (u8::try_from(x), u8::try_from(y)) {
      if word(x as char) && word(y as char) {
        v[k - 1] = x as char;
        v[k] = y as char;
        break;
      }
    }
  }
  v.into_iter().collect()
}

fn swap_some(s: &mut Src, t: &str) -> String {
  if s.chance(1, 3) {
    return twin(s, t);
  }
  // the same text but for a character or two: same length, same shape
  let mut v: Vec<char> = t.chars().collect();
  let args: Vec<usize> = t.match_indices("=").map(|(i, _)| t[..i].chars().count() + 1).filter(|i| *i < v.len()).collect();
  if !args.is_empty() && s.bool() {
    // another value
    let k = *s.pick(&args);
    if v[k].is_ascii_alphanumeric() {
      v[k] = *s.pick(&['a', 'b', 'A', '0', '1']);
      return v.into_iter().collect();
    }
  }
  for _ in 0..1 + s.below(3) {
    if v.is_empty() {
      break;
    }
    let k = s.below(v.len() as u32) as usize;
    if v[k].is_ascii_alphanumeric() {
      v[k] = *s.pick(&['a', 'b', 'A', '0', '1']);
    } else if s.chance(1, 8) {
      v[k] = *s.pick(&[' ', '\n', '\\', '"', '=']);
    }
  }
  v.into_iter().collect()
}

fn c31(s: &mut Src, c: &mut Ctx) -> R {
  let n = s.range(2, 4) as usize;
  let mut docs: Vec<Known> = Vec::new();
  for i in 0..n {
    let t = match s.weighted(&[6, 5, 2, 1]) {
      3 => chain_text(s),
      1 if i > 0 => {
        let k = s.below(i as u32) as usize;
        let t = docs[k].text.clone();
        swap_some(s, &t)
      }
      2 if i > 0 => {
        let k = s.below(i as u32) as usize;
        let mut t = docs[k].text.clone();
        textgen::mutate(s, &mut t);
        t
      }
      _ => {
        let m = super::stages::family(s);
        let l = gen::lay(s);
        gen::render(s, &m, l).text
      }
    };
    let mut k = known(t);
    if s.bool() {
      // names and others like them, side by side
      let names = std::mem::take(&mut k.names);
      for n in names {
        let t = twin(s, &n);
        k.names.extend([n, t]);
      }
    }
    docs.push(k);
  }
  let mut log = String::new();
  let mut ops: Vec<(u32, u32, u32)> = Vec::new();
  for _ in 0..4 + s.below(12) {
    let o = (s.below(n as u32), s.below(8), s.below(1 << 16));
    match ops.last() {
      // the same question about another document
      Some(p) if s.chance(1, 3) => ops.push((o.0, p.1, p.2)),
      // a like name in the same one
      Some(p) if s.chance(1, 4) => ops.push((p.0, p.1, p.2 ^ 1)),
      _ => ops.push(o),
    }
  }
  for o in &ops {
    log.push_str(&format!(" {}:{}:{}", o.0, o.1, o.2));
  }
  c.input = format!("{:?}{}", docs.iter().map(|k| &k.text).collect::<Vec<_>>(), log);
  c.nontrivial = docs.iter().filter(|k| k.canon.len() > 1).count() > 1;
  c.tag_if(docs.iter().any(|k| k.want.is_err()), "with a rejected text");
  let inner = |s: &mut Src, c: &mut Ctx| -> R {
    let mut live: Vec<Option<Dockerfile>> = Vec::new();
    for k in &docs {
      live.push(parsed(k)?);
    }
    let threads = s.chance(1, 60);
    if threads {
      c.tag("queried from three threads");
      let r: Vec<R> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..3usize)
          .map(|t| {
            let (docs, live, ops) = (&docs, &live, &ops);
            sc.spawn(move || -> R {
              let m = ops.len();
              for j in 0..m {
                let (x, op, arg) = ops[(j * (t + 1) + t) % m];
                if let Some(d) = &live[x as usize] {
                  query(op, arg, &docs[x as usize], d)?;
                }
              }
              Ok(())
            })
          })
          .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a query panicked".into()))).collect()
      });
      for x in r {
        x?;
      }
    } else {
      for (j, (x, op, arg)) in ops.iter().enumerate() {
        if let Some(d) = &live[*x as usize] {
          query(*op, *arg, &docs[*x as usize], d).map_err(|e| format!("query {}: {}", j, e))?;
        }
      }
    }
    for (k, d) in docs.iter().zip(&live) {
      if let Some(d) = d {
        unchanged(k, d, "after the queries")?;
      }
    }
    Ok(())
  };
  inner(s, c).map_err(|m| format!("{}\n in the history {}", m, c_show(&log, &docs)))
}

fn c_show(log: &str, docs: &[Known]) -> String {
  let mut o = log.to_string();
  for k in docs {
    o.push_str("\n ");
    o.push_str(&show(&k.text));
  }
  o
}

pub const PROPS: &[Prop] = &[
  Prop {
    id: "C30",
    rule: "generated files of 1-5 instructions; every multi-line string and composite part rebuilt through randomly chosen public constructors, cloned, and altered in one random field; equality judged field by field; spans and texts compared pairwise; non-trivial if there is a multi-line string; distinct by text",
    f: c30, quick: 690_000, thorough: 13_800_000, assumptions: &["fields are public and read directly"],
  },
  Prop {
    id: "C31",
    rule: "histories of 4-15 queries (stages, stage and ARG lookups, image resolution, positions, splicing, parsing again, display) over 2-4 documents, often near-copies of each other, interleaved, one in 60 from three threads; each answer compared with the reference parser and models, all documents re-read at the end; non-trivial if two documents have several instructions; distinct by documents and history",
    f: c31, quick: 340_000, thorough: 6_800_000, assumptions: &["thread schedules are whatever the machine gives"],
  },
];
