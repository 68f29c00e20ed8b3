//! C24 relative positions, C25 typed access.

use super::text::show;
use super::Prop;
use crate::astio;
use crate::dict;
use crate::gen::{self, ALL_KINDS};
use crate::refmodel;
use crate::tape::{Ctx, Src, R};
use crate::textgen;
use dockerfile_parser::*;
use std::convert::TryFrom;

fn c24(s: &mut Src, c: &mut Ctx) -> R {
  let large = s.chance(1, 400);
  let t = match s.weighted(&[6, 3, 2]) {
    _ if large => {
      // many lines, long lines, an instruction at the end
      s.cap = 300_000;
      let n = if s.chance(1, 4) { dict::count(s).unwrap_or(1) } else { s.range(1, 70_000) } as usize;
      let unit: &str = s.pick::<&str>(&["\n", "\n", "X y\n", "\n\n\n ", "# c\r\n", "é\n", "x"]);
      let mut t = unit.repeat(n / unit.len() + 1);
      t.push_str(s.pick::<&str>(&["", "\n", "\nRUN a", "\nX \\\n b\n"]));
      t
    }
    0 => textgen::likely(s),
    1 => textgen::any(s),
    _ => {
      let n = s.small(20);
      (0..n).map(|_| s.pick::<&str>(&["\n", "\r\n", "\r", "a", "é", "😀", "\u{2028}", "\u{85}", " ", "\n\n", "\u{b}"]).to_string()).collect()
    }
  };
  c.input = t.clone();
  let mut spans: Vec<Span> = Vec::new();
  let d = match Dockerfile::parse(&t) {
    Ok(d) => {
      let mut v = Vec::new();
      for i in &d.instructions {
        astio::all_spans(&astio::tree(i), &mut v);
      }
      v.truncate(200);
      spans.extend(v.iter().map(|x| x.1));
      c.tag_if(!spans.is_empty(), "element spans");
      d
    }
    // relative positions depend on the content only
    Err(_) => Dockerfile { content: t.clone(), global_args: vec![], instructions: vec![] },
  };
  // arbitrary ones, the edges of the text and of lines
  let n = t.len();
  for _ in 0..8 {
    let a = s.below(n as u32 + 1) as usize;
    let b = a + s.below((n - a) as u32 + 1) as usize;
    spans.push(Span::new(a, b));
  }
  spans.extend([Span::new(0, 0), Span::new(n, n), Span::new(0, n)]);
  for (i, _) in t.match_indices('\n').take(20) {
    spans.extend([Span::new(i, i + 1), Span::new(i + 1, n), Span::new(i, i)]);
  }
  c.nontrivial = t.contains('\n');
  c.tag_if(!t.is_ascii(), "non-ASCII");
  c.tag_if(t.contains("\r\n"), "CRLF");
  c.tag_if(large, "up to 70000 bytes or lines");
  if large {
    // those near the end, and a few others
    let k = spans.len();
    spans.sort_by_key(|x| std::cmp::Reverse(x.start));
    spans = spans.iter().copied().enumerate().filter(|(i, _)| *i < 12 || (k > 12 && i % (k / 12 + 1) == 0)).map(|x| x.1).collect();
  }
  for sp in spans {
    let (l, r) = sp.relative_span(&d);
    let (line, col) = refmodel::line_col(&t, sp.start);
    ensure!(
      l == line && r.start == col && r.end == col + (sp.end - sp.start),
      "{:?} is line {} {:?}, expected line {} from {} in {}",
      sp,
      l,
      r,
      line,
      col,
      show(&t)
    );
    // and it addresses the same text
    let lines: Vec<&[u8]> = t.as_bytes().split(|b| *b == b'\n').collect();
    let start: usize = lines[..l].iter().map(|x| x.len() + 1).sum();
    ensure!(start + r.start == sp.start && start + r.end == sp.end, "{:?} in {}", sp, show(&t));
  }
  Ok(())
}

/// Which accessors succeed, in the order of the kinds.
const KINDS: [&str; 9] = ["from", "arg", "label", "run", "entrypoint", "cmd", "copy", "env", "misc"];

fn conv<T>(i: &Instruction, name: &str, r: Result<T>, want: bool, same: impl Fn(&T) -> bool) -> R {
  match r {
    Ok(x) => {
      ensure!(want, "conversion of {:?} to {} succeeds", i, name);
      ensure!(same(&x), "conversion of {:?} to {} returns something else", i, name);
    }
    Err(Error::ConversionError { to, .. }) => {
      ensure!(!want, "conversion of {:?} to {} fails", i, name);
      ensure!(to == name, "conversion of {:?} to {} fails with a conversion error to {}", i, name, to);
    }
    Err(e) => return Err(format!("conversion of {:?} to {} fails with {:?}", i, name, e)),
  }
  Ok(())
}

fn matrix(i: &Instruction) -> R {
  let k = KINDS.iter().position(|k| *k == astio::kind(i)).unwrap();
  macro_rules! each {
    ($n:expr, $var:ident, $as:ident, $into:ident, $ty:ty) => {{
      let want = $n == k;
      let inner = match i {
        Instruction::$var(x) => Some(x),
        _ => None,
      };
      ensure!(i.$as() == inner, "{} of {:?} gives {:?}", stringify!($as), i, i.$as());
      ensure!(i.$as().is_some() == want, "{} of {:?}", stringify!($as), i);
      let taken = i.clone().$into();
      ensure!(taken.as_ref() == inner, "{} of {:?} gives {:?}", stringify!($into), i, taken);
      if let Some(x) = inner {
        ensure!(i.span() == x.span, "span() of {:?} is {:?}", i, i.span());
        ensure!(Instruction::from(x.clone()) == *i, "wrapping {:?}", x);
        let back: Option<$ty> = Instruction::from(x.clone()).$into();
        ensure!(back.as_ref() == Some(x), "unwrapping {:?}", x);
      }
    }};
  }
  each!(0, From, as_from, into_from, FromInstruction);
  each!(1, Arg, as_arg, into_arg, ArgInstruction);
  each!(2, Label, as_label, into_label, LabelInstruction);
  each!(3, Run, as_run, into_run, RunInstruction);
  each!(4, Entrypoint, as_entrypoint, into_entrypoint, EntrypointInstruction);
  each!(5, Cmd, as_cmd, into_cmd, CmdInstruction);
  each!(6, Copy, as_copy, into_copy, CopyInstruction);
  each!(7, Env, as_env, into_env, EnvInstruction);
  each!(8, Misc, as_misc, into_misc, MiscInstruction);
  macro_rules! by_ref {
    ($n:expr, $ty:ident) => {
      conv(i, stringify!($ty), <&$ty>::try_from(i), $n == k, |x| Instruction::from((*x).clone()) == *i)?
    };
  }
  by_ref!(0, FromInstruction);
  by_ref!(1, ArgInstruction);
  by_ref!(2, LabelInstruction);
  by_ref!(3, RunInstruction);
  conv(i, "EntrypointInstruction", EntrypointInstruction::try_from(i.clone()), k == 4, |x| Instruction::from(x.clone()) == *i)?;
  by_ref!(5, CmdInstruction);
  by_ref!(6, CopyInstruction);
  by_ref!(7, EnvInstruction);
  by_ref!(8, MiscInstruction);
  macro_rules! form {
    ($x:expr) => {{
      let x = $x;
      let (sh, ex) = match &x.expr {
        ShellOrExecExpr::Shell(b) => (Some(b), None),
        ShellOrExecExpr::Exec(a) => (None, Some(a)),
      };
      ensure!(x.as_shell() == sh && x.as_exec() == ex, "as_shell / as_exec of {:?}", x);
      ensure!(x.clone().into_shell().as_ref() == sh && x.clone().into_exec().as_ref() == ex, "into_shell / into_exec of {:?}", x);
      let e = &x.expr;
      ensure!(e.as_shell() == sh && e.as_exec() == ex, "expression's as_shell / as_exec of {:?}", x);
      ensure!(e.clone().into_shell().as_ref() == sh && e.clone().into_exec().as_ref() == ex, "expression's into_ of {:?}", x);
      if let Some(a) = ex {
        let want: Vec<&str> = a.elements.iter().map(|e| e.content.as_str()).collect();
        ensure!(a.as_str_vec() == want, "as_str_vec of {:?}", a);
      }
    }};
  }
  match i {
    Instruction::Run(x) => form!(x),
    Instruction::Cmd(x) => form!(x),
    Instruction::Entrypoint(x) => form!(x),
    _ => {}
  }
  let mut l = Vec::new();
  astio::leaves(&astio::tree(i), &mut l);
  for x in l {
    let s = SpannedString { span: x.span, content: x.content.clone() };
    ensure!(s.as_ref() == x.content && s.to_string() == x.content, "text of {:?}", s);
  }
  Ok(())
}

fn c25(s: &mut Src, c: &mut Ctx) -> R {
  let (ms, r) = gen::doc(s, &ALL_KINDS, 1, 6);
  c.input = r.text.clone();
  c.nontrivial = true;
  let d = Dockerfile::parse(&r.text).map_err(|e| format!("rejected: {}: {}", show(&r.text), e))?;
  ensure!(d.instructions.len() == ms.len(), "{} instructions in {}", d.instructions.len(), show(&r.text));
  for (i, m) in d.instructions.iter().zip(&ms) {
    c.tag(astio::kind(i));
    ensure!(
      astio::kind(i) == super::instr::sem_kind(m),
      "{:?} has kind {} instead of {}",
      i,
      astio::kind(i),
      super::instr::sem_kind(m)
    );
    matrix(i).map_err(|e| format!("{}\n in {}", e, show(&r.text)))?;
    // the same with another span, as a caller may set it
    if s.chance(1, 3) {
      let mut j = i.clone();
      let (a, b) = (s.below(200) as usize, s.below(200) as usize);
      *span_mut(&mut j) = Span::new(a.min(b), a.max(b));
      if s.bool() {
        hollow(s, &mut j);
        c.tag("fields set by hand");
      }
      matrix(&j).map_err(|e| format!("{}\n after {:?} was set by hand, in {}", e, j, show(&r.text)))?;
    }
  }
  Ok(())
}

/// Fields as a caller may set them: lists emptied or cut, texts replaced.
fn hollow(s: &mut Src, i: &mut Instruction) {
  fn cut<T>(s: &mut Src, v: &mut Vec<T>) {
    let n = s.below(v.len() as u32 + 1) as usize;
    v.truncate(if s.bool() { 0 } else { n });
  }
  fn text(s: &mut Src, t: &mut String) {
    match s.below(3) {
      0 => t.clear(),
      1 => *t = gen::value(s),
      _ => {}
    }
  }
  fn expr(s: &mut Src, e: &mut ShellOrExecExpr) {
    match e {
      ShellOrExecExpr::Shell(b) => cut(s, &mut b.components),
      ShellOrExecExpr::Exec(a) => cut(s, &mut a.elements),
    }
    if s.chance(1, 4) {
      *e = match e {
        ShellOrExecExpr::Shell(b) => ShellOrExecExpr::Exec(StringArray { span: b.span, elements: vec![] }),
        ShellOrExecExpr::Exec(a) => ShellOrExecExpr::Shell(BreakableString::new(a.span)),
      };
    }
  }
  match i {
    Instruction::From(x) => {
      cut(s, &mut x.flags);
      text(s, &mut x.image.content);
      x.index = s.below(5) as usize;
      if s.bool() {
        x.alias = None;
      }
    }
    Instruction::Arg(x) => {
      text(s, &mut x.name.content);
      if s.bool() {
        x.value = None;
      }
    }
    Instruction::Label(x) => cut(s, &mut x.labels),
    Instruction::Run(x) => expr(s, &mut x.expr),
    Instruction::Entrypoint(x) => expr(s, &mut x.expr),
    Instruction::Cmd(x) => expr(s, &mut x.expr),
    Instruction::Copy(x) => {
      cut(s, &mut x.flags);
      cut(s, &mut x.sources);
      text(s, &mut x.destination.content);
    }
    Instruction::Env(x) => cut(s, &mut x.vars),
    Instruction::Misc(x) => {
      text(s, &mut x.instruction.content);
      cut(s, &mut x.arguments.components);
    }
  }
}

fn span_mut(i: &mut Instruction) -> &mut Span {
  match i {
    Instruction::From(x) => &mut x.span,
    Instruction::Arg(x) => &mut x.span,
    Instruction::Label(x) => &mut x.span,
    Instruction::Run(x) => &mut x.span,
    Instruction::Entrypoint(x) => &mut x.span,
    Instruction::Cmd(x) => &mut x.span,
    Instruction::Copy(x) => &mut x.span,
    Instruction::Env(x) => &mut x.span,
    Instruction::Misc(x) => &mut x.span,
  }
}

pub const PROPS: &[Prop] = &[
  Prop {
    id: "C24",
    rule: "arbitrary and mostly valid texts; all element spans plus arbitrary ones, line starts, line ends and the edges of the text; non-trivial if there is a line feed; distinct by text",
    f: c24, quick: 1_340_000, thorough: 26_800_000, assumptions: &["lines end at line feeds, columns count bytes"],
  },
  Prop {
    id: "C25",
    rule: "generated files of 1-7 instructions of all kinds; every accessor, conversion and wrapper tried on every instruction, also with span and fields set by hand; every case is non-trivial; distinct by text",
    f: c25, quick: 960_000, thorough: 19_200_000, assumptions: &["the enum variant itself tells the kind, which is compared with what was written"],
  },
];
