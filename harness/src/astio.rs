//! Generic views of the library's AST: all spans, all elements.

use dockerfile_parser::*;

fn map_str(s: &mut SpannedString, f: &mut dyn FnMut(Span) -> Span) {
  s.span = f(s.span);
}

fn map_brk(b: &mut BreakableString, f: &mut dyn FnMut(Span) -> Span) {
  b.span = f(b.span);
  for c in &mut b.components {
    match c {
      BreakableStringComponent::String(s) => s.span = f(s.span),
      BreakableStringComponent::Comment(s) => s.span = f(s.span),
    }
  }
}

fn map_expr(e: &mut ShellOrExecExpr, f: &mut dyn FnMut(Span) -> Span) {
  match e {
    ShellOrExecExpr::Shell(b) => map_brk(b, f),
    ShellOrExecExpr::Exec(a) => {
      a.span = f(a.span);
      for e in &mut a.elements {
        map_str(e, f);
      }
    }
  }
}

/// Rewrites every span of an instruction.
pub fn map_spans(i: &mut Instruction, f: &mut dyn FnMut(Span) -> Span) {
  match i {
    Instruction::From(x) => {
      x.span = f(x.span);
      for g in &mut x.flags {
        g.span = f(g.span);
        map_str(&mut g.name, f);
        map_str(&mut g.value, f);
      }
      map_str(&mut x.image, f);
      if let Some(a) = &mut x.alias {
        map_str(a, f);
      }
    }
    Instruction::Arg(x) => {
      x.span = f(x.span);
      map_str(&mut x.name, f);
      if let Some(v) = &mut x.value {
        map_str(v, f);
      }
    }
    Instruction::Label(x) => {
      x.span = f(x.span);
      for l in &mut x.labels {
        l.span = f(l.span);
        map_str(&mut l.name, f);
        map_str(&mut l.value, f);
      }
    }
    Instruction::Run(x) => {
      x.span = f(x.span);
      map_expr(&mut x.expr, f);
    }
    Instruction::Entrypoint(x) => {
      x.span = f(x.span);
      map_expr(&mut x.expr, f);
    }
    Instruction::Cmd(x) => {
      x.span = f(x.span);
      map_expr(&mut x.expr, f);
    }
    Instruction::Copy(x) => {
      x.span = f(x.span);
      for g in &mut x.flags {
        g.span = f(g.span);
        map_str(&mut g.name, f);
        map_str(&mut g.value, f);
      }
      for s in &mut x.sources {
        map_str(s, f);
      }
      map_str(&mut x.destination, f);
    }
    Instruction::Env(x) => {
      x.span = f(x.span);
      for v in &mut x.vars {
        v.span = f(v.span);
        map_str(&mut v.key, f);
        map_brk(&mut v.value, f);
      }
    }
    Instruction::Misc(x) => {
      x.span = f(x.span);
      map_str(&mut x.instruction, f);
      map_brk(&mut x.arguments, f);
    }
  }
}

pub fn shifted(i: &Instruction, by: usize, froms: usize) -> Instruction {
  let mut i = i.clone();
  map_spans(&mut i, &mut |s| Span::new(s.start + by, s.end + by));
  if let Instruction::From(f) = &mut i {
    f.index += froms;
  }
  i
}

/// The same instruction with every span zeroed.
pub fn spanless(i: &Instruction) -> Instruction {
  let mut i = i.clone();
  map_spans(&mut i, &mut |_| Span::new(0, 0));
  i
}

/// Spanless, comments dropped, misc word upper-cased: what layout must not change.
pub fn meaning(i: &Instruction) -> Instruction {
  let mut i = spanless(i);
  let strip = |b: &mut BreakableString| b.components.retain(|c| matches!(c, BreakableStringComponent::String(_)));
  match &mut i {
    Instruction::Run(RunInstruction { expr: ShellOrExecExpr::Shell(b), .. })
    | Instruction::Cmd(CmdInstruction { expr: ShellOrExecExpr::Shell(b), .. })
    | Instruction::Entrypoint(EntrypointInstruction { expr: ShellOrExecExpr::Shell(b), .. }) => strip(b),
    Instruction::Env(e) => e.vars.iter_mut().for_each(|v| strip(&mut v.value)),
    Instruction::Misc(m) => {
      strip(&mut m.arguments);
      m.instruction.content = m.instruction.content.to_ascii_uppercase();
    }
    _ => {}
  }
  i
}

pub fn expr_of(i: &Instruction) -> Option<&ShellOrExecExpr> {
  match i {
    Instruction::Run(x) => Some(&x.expr),
    Instruction::Cmd(x) => Some(&x.expr),
    Instruction::Entrypoint(x) => Some(&x.expr),
    _ => None,
  }
}

pub fn kind(i: &Instruction) -> &'static str {
  match i {
    Instruction::From(_) => "from",
    Instruction::Arg(_) => "arg",
    Instruction::Label(_) => "label",
    Instruction::Run(_) => "run",
    Instruction::Entrypoint(_) => "entrypoint",
    Instruction::Cmd(_) => "cmd",
    Instruction::Copy(_) => "copy",
    Instruction::Env(_) => "env",
    Instruction::Misc(_) => "misc",
  }
}

/// How the text under an element's span relates to its content.
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Dec {
  /// equal
  Raw,
  /// equal, or a quoted string decoding to it
  Token,
  /// as Token, escaped line breaks removed first if quoted
  LabelToken,
  /// ENV pair values and quoted single values
  EnvToken,
  /// comment text
  Comment,
}

/// A leaf element.
#[derive(Debug, Clone)]
pub struct Leaf {
  pub role: &'static str,
  pub span: Span,
  pub content: String,
  pub dec: Dec,
}

/// A span tree node: composite parts with their children in source order.
#[derive(Debug, Clone)]
pub struct Node {
  pub role: &'static str,
  pub span: Span,
  pub leaf: Option<Leaf>,
  pub kids: Vec<Node>,
}

fn leaf(role: &'static str, s: &SpannedString, dec: Dec) -> Node {
  Node {
    role,
    span: s.span,
    leaf: Some(Leaf { role, span: s.span, content: s.content.clone(), dec }),
    kids: vec![],
  }
}

fn node(role: &'static str, span: Span, kids: Vec<Node>) -> Node {
  Node { role, span, leaf: None, kids }
}

fn brk(role: &'static str, b: &BreakableString, dec: Dec) -> Node {
  let kids = b
    .components
    .iter()
    .map(|c| match c {
      BreakableStringComponent::String(s) => leaf("line", s, dec),
      BreakableStringComponent::Comment(c) => Node {
        role: "comment",
        span: c.span,
        leaf: Some(Leaf { role: "comment", span: c.span, content: c.content.clone(), dec: Dec::Comment }),
        kids: vec![],
      },
    })
    .collect();
  node(role, b.span, kids)
}

fn expr(e: &ShellOrExecExpr) -> Node {
  match e {
    ShellOrExecExpr::Shell(b) => brk("shell", b, Dec::Raw),
    ShellOrExecExpr::Exec(a) => {
      node("exec", a.span, a.elements.iter().map(|e| leaf("element", e, Dec::Token)).collect())
    }
  }
}

pub fn tree(i: &Instruction) -> Node {
  match i {
    Instruction::From(x) => {
      let mut k: Vec<Node> = x
        .flags
        .iter()
        .map(|f| node("flag", f.span, vec![leaf("flag name", &f.name, Dec::Raw), leaf("flag value", &f.value, Dec::Token)]))
        .collect();
      k.push(leaf("image", &x.image, Dec::Raw));
      k.extend(x.alias.iter().map(|a| leaf("alias", a, Dec::Raw)));
      node("from", x.span, k)
    }
    Instruction::Arg(x) => {
      let mut k = vec![leaf("arg name", &x.name, Dec::Raw)];
      k.extend(x.value.iter().map(|v| leaf("arg value", v, Dec::Token)));
      node("arg", x.span, k)
    }
    Instruction::Label(x) => node(
      "label",
      x.span,
      x.labels
        .iter()
        .map(|l| {
          node("pair", l.span, vec![leaf("label name", &l.name, Dec::LabelToken), leaf("label value", &l.value, Dec::LabelToken)])
        })
        .collect(),
    ),
    Instruction::Run(x) => node("run", x.span, vec![expr(&x.expr)]),
    Instruction::Cmd(x) => node("cmd", x.span, vec![expr(&x.expr)]),
    Instruction::Entrypoint(x) => node("entrypoint", x.span, vec![expr(&x.expr)]),
    Instruction::Copy(x) => {
      let mut k: Vec<Node> = x
        .flags
        .iter()
        .map(|f| node("flag", f.span, vec![leaf("flag name", &f.name, Dec::Raw), leaf("flag value", &f.value, Dec::Token)]))
        .collect();
      k.extend(x.sources.iter().map(|s| leaf("path", s, Dec::Token)));
      k.push(leaf("path", &x.destination, Dec::Token));
      node("copy", x.span, k)
    }
    Instruction::Env(x) => node(
      "env",
      x.span,
      x.vars
        .iter()
        .map(|v| node("pair", v.span, vec![leaf("env key", &v.key, Dec::Raw), brk("env value", &v.value, if v.value.components.len() > 1 { Dec::Raw } else { Dec::EnvToken })]))
        .collect(),
    ),
    Instruction::Misc(x) => node(
      "misc",
      x.span,
      vec![leaf("word", &x.instruction, Dec::Raw), brk("arguments", &x.arguments, Dec::Raw)],
    ),
  }
}

/// All spans of a tree, depth first.
pub fn all_spans(n: &Node, out: &mut Vec<(&'static str, Span)>) {
  out.push((n.role, n.span));
  for k in &n.kids {
    all_spans(k, out);
  }
}

pub fn leaves(n: &Node, out: &mut Vec<Leaf>) {
  if let Some(l) = &n.leaf {
    out.push(l.clone());
  }
  for k in &n.kids {
    leaves(k, out);
  }
}
