//! C22 splicer model, C23 splice and re-parse.

use super::Prop;
use crate::astio::{self, spanless};
use crate::dict;
use crate::gen::{self, ALL_KINDS};
use crate::refmodel::{self, SpliceModel};
use crate::tape::{Ctx, Src, R};
use crate::textgen;
use dockerfile_parser::*;

fn boundary(t: &str, mut i: usize) -> usize {
  i = i.min(t.len());
  while !t.is_char_boundary(i) {
    i -= 1;
  }
  i
}

/// relation of two different spans; a zero-width span at the edge of another
/// is outside of it
#[derive(PartialEq, Debug)]
enum Rel {
  Disjoint,
  /// first inside second
  Inside,
  Around,
  Cross,
}

fn rel(a: (usize, usize), b: (usize, usize)) -> Rel {
  if a.0 == a.1 {
    return if b.0 < a.0 && a.0 < b.1 { Rel::Inside } else { Rel::Disjoint };
  }
  if b.0 == b.1 {
    return if a.0 < b.0 && b.0 < a.1 { Rel::Around } else { Rel::Disjoint };
  }
  if a.1 <= b.0 || b.1 <= a.0 {
    Rel::Disjoint
  } else if b.0 <= a.0 && a.1 <= b.1 {
    Rel::Inside
  } else if a.0 <= b.0 && b.1 <= a.1 {
    Rel::Around
  } else {
    Rel::Cross
  }
}

fn replacement(s: &mut Src, own: &str) -> String {
  match s.weighted(&[12, 9, 9, 6, 6, 3, 4]) {
    6 => {
      if s.chance(4, 5) {
        dict::word(s)
      } else {
        "r".repeat(dict::count(s).unwrap_or(1) as usize)
      }
    }
    0 => String::new(),
    1 => s.pick(&["x", "é", "😀😀", "long replacement text", "\n", "a b", "中"]).to_string(),
    2 => gen::token(s),
    3 => own.to_string(),
    4 => own.chars().rev().collect::<String>() + own,
    _ => "r".repeat(s.below(300) as usize),
  }
}

fn c22(s: &mut Src, c: &mut Ctx) -> R {
  s.cap = 70_000;
  let text = match s.weighted(&[5, 3, 3]) {
    0 => s.pick(&["abcdefghij", "FROM alpine:3.10\nRUN x\n", "aé中😀b", "", "a"]).to_string(),
    1 => textgen::soup(s),
    _ => gen::doc(s, &ALL_KINDS, 1, 3).1.text,
  };
  let parsed = Dockerfile::parse(&text).ok();
  // candidate spans: elements of the parsed file and arbitrary ones
  let mut pool: Vec<(usize, usize)> = Vec::new();
  if let Some(d) = &parsed {
    let mut v = Vec::new();
    for i in &d.instructions {
      astio::all_spans(&astio::tree(i), &mut v);
    }
    pool.extend(v.iter().map(|x| (x.1.start, x.1.end)));
  }
  let d = parsed.unwrap_or(Dockerfile { content: text.clone(), global_args: vec![], instructions: vec![] });
  let mut cands: Vec<(usize, usize)> = Vec::new();
  let many = s.chance(1, 100);
  let ncands = if many { s.range(10, 200) } else { s.range(1, 7) };
  for _ in 0..ncands {
    let sp = if !pool.is_empty() && s.bool() {
      *s.pick(&pool)
    } else {
      let a = boundary(&text, s.below(text.len() as u32 + 1) as usize);
      let len = match s.weighted(&[5, 2, 2]) {
        0 => s.below(4) as usize,
        1 => 0,
        _ => s.below(text.len() as u32 + 1) as usize,
      };
      (a, boundary(&text, a + len).max(a))
    };
    // adjacent ones are the delicate case
    let sp = if !cands.is_empty() && s.chance(1, 3) {
      let q = *s.pick(&cands);
      if s.bool() {
        (q.1, boundary(&text, q.1 + s.below(3) as usize).max(q.1))
      } else {
        let a = boundary(&text, q.0.saturating_sub(s.below(3) as usize));
        (a, q.0)
      }
    } else {
      sp
    };
    if cands.iter().all(|q| *q == sp || rel(sp, *q) != Rel::Cross) {
      cands.push(sp);
    }
  }
  let mut sp = d.splicer();
  ensure!(sp.content == text, "a fresh splicer's content differs from the source {:?}", text);
  let mut model = SpliceModel::new(&text);
  let mut log = format!("{:?}", text);
  let mut done: Vec<(usize, usize)> = Vec::new();
  let nops = if many { if s.chance(1, 4) { dict::count(s).unwrap_or(20).min(3000) } else { s.range(20, 300) } } else { s.range(1, 9) };
  let mut repeated = 0;
  let mut adjacent = false;
  let mut nested = false;
  for _ in 0..nops {
    let k = *s.pick(&cands);
    // allowed unless an enclosing span was replaced already
    if done.iter().any(|q| *q != k && rel(k, *q) == Rel::Inside) {
      continue;
    }
    repeated += done.contains(&k) as u32;
    adjacent |= done.iter().any(|q| *q != k && (q.1 == k.0 || q.0 == k.1));
    nested |= done.iter().any(|q| *q != k && rel(k, *q) == Rel::Around);
    let r = replacement(s, &text[k.0..k.1]);
    log.push_str(&format!(" {:?}->{:?}", k, r));
    sp.splice(&Span::new(k.0, k.1), &r);
    model.splice(k.0, k.1, &r);
    done.push(k);
    if sp.content != model.content() {
      c.input = log.clone();
    }
    ensure!(
      sp.content == model.content(),
      "after {}\n splicer {:?}\n model   {:?}",
      log,
      sp.content,
      model.content()
    );
  }
  c.input = log;
  c.nontrivial = done.len() > 1;
  c.tag_if(repeated > 0, "span replaced again");
  c.tag_if(adjacent, "adjacent spans");
  c.tag_if(nested, "enclosing span after inner one");
  c.tag_if(done.iter().any(|k| k.0 == k.1), "insertion");
  c.tag_if(done.len() > 4, "over 4 splices");
  c.tag_if(done.len() > 60, "over 60 splices");
  // the order of disjoint replacements does not matter
  if repeated == 0 && !nested {
    let mut sp2 = d.splicer();
    let mut order: Vec<((usize, usize), String)> = Vec::new();
    for (k, r) in model_entries(&model) {
      order.push((k, r));
    }
    for i in (1..order.len()).rev() {
      let j = s.below(i as u32 + 1) as usize;
      order.swap(i, j);
    }
    for (k, r) in &order {
      sp2.splice(&Span::new(k.0, k.1), r);
    }
    ensure!(
      sp2.content == sp.content,
      "order matters: {} gives {:?}, in order {:?} it gives {:?}",
      c.input,
      sp.content,
      order,
      sp2.content
    );
  }
  Ok(())
}

fn model_entries(m: &SpliceModel) -> Vec<((usize, usize), String)> {
  m.entries()
}

/// Pointers to all leaf contents, in the order of `astio::leaves`.
pub fn contents(i: &mut Instruction) -> Vec<&mut String> {
  fn brk<'a>(b: &'a mut BreakableString, v: &mut Vec<&'a mut String>) {
    for c in &mut b.components {
      match c {
        BreakableStringComponent::String(s) => v.push(&mut s.content),
        BreakableStringComponent::Comment(s) => v.push(&mut s.content),
      }
    }
  }
  let mut v: Vec<&mut String> = Vec::new();
  match i {
    Instruction::From(x) => {
      for f in &mut x.flags {
        v.push(&mut f.name.content);
        v.push(&mut f.value.content);
      }
      v.push(&mut x.image.content);
      if let Some(a) = &mut x.alias {
        v.push(&mut a.content);
      }
    }
    Instruction::Arg(x) => {
      v.push(&mut x.name.content);
      if let Some(a) = &mut x.value {
        v.push(&mut a.content);
      }
    }
    Instruction::Label(x) => {
      for l in &mut x.labels {
        v.push(&mut l.name.content);
        v.push(&mut l.value.content);
      }
    }
    Instruction::Run(RunInstruction { expr, .. })
    | Instruction::Cmd(CmdInstruction { expr, .. })
    | Instruction::Entrypoint(EntrypointInstruction { expr, .. }) => match expr {
      ShellOrExecExpr::Shell(b) => brk(b, &mut v),
      ShellOrExecExpr::Exec(a) => v.extend(a.elements.iter_mut().map(|e| &mut e.content)),
    },
    Instruction::Copy(x) => {
      for f in &mut x.flags {
        v.push(&mut f.name.content);
        v.push(&mut f.value.content);
      }
      v.extend(x.sources.iter_mut().map(|e| &mut e.content));
      v.push(&mut x.destination.content);
    }
    Instruction::Env(x) => {
      for e in &mut x.vars {
        v.push(&mut e.key.content);
        brk(&mut e.value, &mut v);
      }
    }
    Instruction::Misc(x) => {
      v.push(&mut x.instruction.content);
      brk(&mut x.arguments, &mut v);
    }
  }
  v
}

/// New text for an element: (spelling, content). None: not rewritten.
fn rewrite(s: &mut Src, role: &str, src: &str, single_line: bool, first_path: bool) -> Option<(String, String)> {
  // never starts a comment line or a flag
  let tok = |s: &mut Src| {
    let t = gen::token(s);
    if t.starts_with('#') || t.starts_with("--") {
      format!("x{}", t)
    } else {
      t
    }
  };
  let either = |s: &mut Src, q: gen::Q| {
    if s.bool() {
      let t = tok(s);
      (t.clone(), t)
    } else {
      let v = gen::value(s);
      (gen::quote(s, &v, q, 1), v)
    }
  };
  let quoted = |s: &mut Src, q: gen::Q| {
    let v = gen::value(s);
    (gen::quote(s, &v, q, 1), v)
  };
  let _ = first_path;
  Some(match role {
    "image" => {
      let t = gen::image(s);
      (t.clone(), t)
    }
    "alias" => {
      let t = gen::alias(s);
      (t.clone(), t)
    }
    "arg name" => {
      let t = gen::arg_name(s);
      (t.clone(), t)
    }
    "env key" => {
      let t = gen::ident(s);
      (t.clone(), t)
    }
    "flag value" | "path" => {
      let t = tok(s);
      (t.clone(), t)
    }
    "arg value" => either(s, gen::Q::Plain),
    "label value" => either(s, gen::Q::Label),
    "label name" => quoted(s, gen::Q::Label),
    "element" => quoted(s, gen::Q::Plain),
    "env pair" => either(s, gen::Q::Plain),
    "line" if single_line && src.starts_with(['"', '\'']) => quoted(s, gen::Q::Plain),
    _ => return None,
  })
}

fn c23(s: &mut Src, c: &mut Ctx) -> R {
  let r = gen::doc(s, &ALL_KINDS, 1, 4).1;
  let d = Dockerfile::parse(&r.text).map_err(|e| format!("rejected: {:?}: {}", r.text, e))?;
  // all leaves
  let mut leaves: Vec<(usize, usize, astio::Leaf)> = Vec::new();
  for (i, ins) in d.instructions.iter().enumerate() {
    let mut v = Vec::new();
    astio::leaves(&astio::tree(ins), &mut v);
    leaves.extend(v.into_iter().enumerate().map(|(k, l)| (i, k, l)));
  }
  let mut order: Vec<usize> = (0..leaves.len()).collect();
  for i in (1..order.len()).rev() {
    let j = s.below(i as u32 + 1) as usize;
    order.swap(i, j);
  }
  let identity = s.chance(1, 6);
  let mut sp = d.splicer();
  if identity {
    for k in &order {
      let span = leaves[*k].2.span;
      sp.splice(&span, &r.text[span.start..span.end]);
    }
    c.input = format!("identity {:?}", r.text);
    c.nontrivial = leaves.len() > 1;
    c.tag("every span replaced by its own text");
    ensure!(sp.content == r.text, "replacing every element of {:?} by its own text gives {:?}", r.text, sp.content);
    return Ok(());
  }
  let mut want: Vec<Instruction> = d.instructions.iter().map(spanless).collect();
  let mut log = String::new();
  let mut n = 0;
  let take = s.range(1, 6) as usize;
  for k in order {
    if n >= take {
      break;
    }
    let (i, j, l) = &leaves[k];
    let src = &r.text[l.span.start..l.span.end];
    let ins = &d.instructions[*i];
    let mut role = l.role;
    let mut single = false;
    if let Instruction::Env(e) = ins {
      if role == "line" {
        // which variable
        let v = e.vars.iter().find(|v| v.value.span.start <= l.span.start && l.span.end <= v.value.span.end).unwrap();
        single = v.value.components.len() == 1;
        // pair form: '=' right before the value
        if r.text[..v.value.span.start].ends_with('=') && v.key.span.end + 1 == v.value.span.start {
          role = "env pair";
        }
      }
    }
    let first_path = matches!(ins, Instruction::Copy(x) if x.flags.len() * 2 == *j);
    let (text, content) = match rewrite(s, role, src, single, first_path) {
      Some(x) => x,
      None => continue,
    };
    sp.splice(&l.span, &text);
    log.push_str(&format!(" {} {:?}:={:?}", role, l.span, text));
    *contents(&mut want[*i])[*j] = content.clone();
    if let Instruction::From(f) = &mut want[*i] {
      f.image_parsed = refmodel::decompose(&f.image.content);
    }
    c.tag(role);
    n += 1;
  }
  c.input = format!("{:?}{}", r.text, log);
  c.nontrivial = n > 0;
  c.tag_if(n > 1, "several elements rewritten");
  let d2 = Dockerfile::parse(&sp.content).map_err(|e| format!("{} gives {:?} which is rejected: {}", c.input, sp.content, e))?;
  let got: Vec<Instruction> = d2.instructions.iter().map(spanless).collect();
  ensure!(got == want, "{} gives {:?}\n expected {:?}\n found    {:?}", c.input, sp.content, want, got);
  Ok(())
}

pub const PROPS: &[Prop] = &[
  Prop {
    id: "C22",
    rule: "history of 1-9 splices on one splicer over a laminar set of up to 7 spans (elements of a parsed file or arbitrary, adjacent ones favoured), content compared with the model after each, disjoint histories also in a shuffled order; non-trivial if at least two splices happened; distinct by text and history",
    f: c22, quick: 4_020_000, thorough: 80_400_000,
    assumptions: &["a zero-width span at the edge of another span lies outside it, before a span starting there", "spans lie on character boundaries"],
  },
  Prop {
    id: "C23",
    rule: "generated valid file, 1-6 elements rewritten through one splicer in random order and the result re-parsed, or all elements replaced by their own text; non-trivial if an element was rewritten; distinct by text and edits",
    f: c23, quick: 1_440_000, thorough: 28_800_000,
    assumptions: &["new texts do not start with '#', which a preceding continuation could turn into a comment"],
  },
];
