//! C34 documents edited or put together by hand, C35 the cost of queries.

use super::text::show;
use super::Prop;
use crate::astio;
use crate::dict;
use crate::gen::{self, Sem, ALL_KINDS};
use crate::meter;
use crate::refmodel::{self, substitute_model, Parent, Sub};
use crate::tape::{Ctx, Src, R};
use crate::textgen;
use dockerfile_parser::*;
use std::collections::{BTreeSet, HashMap, HashSet};

// ------------------------------------------------------------------- C34

const NAMES: &[&str] = &["a", "A", "b", "ab", "FOO", "foo", "x1", "build", "Build", "s", "é", "", "a b", "ß", "İ", "\u{212a}", "K", "k", "0", "1"];
const IMAGES: &[&str] = &[
  "a", "A", "b", "build", "BUILD", "foo", "Foo", "scratch", "SCRATCH", "0", "1", "alpine", "alpine:3", "localhost/a", "a.b/c@d", "$a", "${A}", "$a/$b", "x-$FOO", "é", "", "a b", "ß", "k", "\u{212a}", "$nope",
];
const VALUES: &[&str] = &["alpine", "b", "$a", "${b}", "$A$FOO", "x:y", "", "é", "$ab", "${x1}", "localhost/", "$"];

fn a_name(s: &mut Src) -> String {
  let n = match s.below(10) {
    0 => gen::ident(s),
    1 => dict::hint(s).unwrap_or_else(|| gen::alias(s)),
    _ => s.pick(NAMES).to_string(),
  };
  dict::keep(s, &n);
  n
}

fn an_image(s: &mut Src) -> String {
  let n = match s.below(10) {
    0 => gen::image(s),
    1 => dict::hint(s).unwrap_or_else(|| gen::token(s)),
    _ => s.pick(IMAGES).to_string(),
  };
  dict::keep(s, &n);
  n
}

fn a_value(s: &mut Src) -> String {
  let n = match s.below(10) {
    0 => gen::value(s),
    1 => dict::hint(s).unwrap_or_else(|| gen::image(s)),
    _ => s.pick(VALUES).to_string(),
  };
  dict::keep(s, &n);
  n
}

fn any_span(s: &mut Src) -> Span {
  match s.below(4) {
    3 => {
      let a = s.below(5000) as usize;
      Span { start: a + 1 + s.below(50) as usize, end: a }
    }
    0 => Span::new(0, 0),
    1 => Span::new(usize::MAX, usize::MAX),
    _ => {
      let a = s.below(5000) as usize;
      Span::new(a, a + s.below(50) as usize)
    }
  }
}

fn text(s: &mut Src, t: &str) -> SpannedString {
  SpannedString { span: any_span(s), content: t.to_string() }
}

fn by_hand(s: &mut Src) -> Instruction {
  match s.weighted(&[5, 5, 2]) {
    0 => {
      let image = an_image(s);
      Instruction::From(FromInstruction {
        span: any_span(s),
        flags: gen::from_flags(s).iter().map(|(n, v)| FromFlag { span: any_span(s), name: text(s, n), value: text(s, v) }).collect(),
        image_parsed: ImageRef::parse(&image),
        image: text(s, &image),
        index: 0,
        alias: if s.chance(2, 3) {
          let n = a_name(s);
          Some(text(s, &n))
        } else {
          None
        },
      })
    }
    1 => {
      let n = a_name(s);
      let v = a_value(s);
      Instruction::Arg(ArgInstruction { span: any_span(s), name: text(s, &n), value: if s.chance(3, 4) { Some(text(s, &v)) } else { None } })
    }
    _ => Instruction::Misc(MiscInstruction { span: any_span(s), instruction: text(s, "X"), arguments: BreakableString::new((0, 0)) }),
  }
}

/// Global arguments and FROM numbers kept in step with the list.
fn in_step(d: &mut Dockerfile) {
  let mut n = 0;
  d.global_args.clear();
  for i in &mut d.instructions {
    match i {
      Instruction::From(f) => {
        f.index = n;
        n += 1;
      }
      Instruction::Arg(a) if n == 0 => d.global_args.push(a.clone()),
      _ => {}
    }
  }
}

fn edit(s: &mut Src, d: &mut Dockerfile, c: &mut Ctx) {
  let n = d.instructions.len();
  let at = s.below(n as u32 + 1) as usize;
  match s.weighted(&[5, 3, 3, 2, 6, 2, 1, 1, 2, 4]) {
    0 => {
      let i = by_hand(s);
      d.instructions.insert(at, i);
      c.tag("instruction made by hand");
    }
    1 if at < n => {
      d.instructions.remove(at);
      c.tag("instruction removed");
    }
    2 if at < n => {
      let i = d.instructions.remove(at);
      let to = s.below(n as u32) as usize;
      d.instructions.insert(to, i);
      c.tag("instruction moved");
    }
    3 if at < n => {
      let i = d.instructions[at].clone();
      let to = s.below(n as u32 + 1) as usize;
      d.instructions.insert(to, i);
      c.tag("instruction repeated");
    }
    4 if at < n => {
      let (nm, im, v) = (a_name(s), an_image(s), a_value(s));
      let which = s.below(2);
      match &mut d.instructions[at] {
        Instruction::From(f) if which == 0 => {
          f.image.content = im.to_string();
          f.image_parsed = ImageRef::parse(&im);
          c.tag("image changed");
        }
        Instruction::From(f) => {
          f.alias = Some(SpannedString { span: f.span, content: nm.to_string() });
          c.tag("alias changed");
        }
        Instruction::Arg(a) if which == 0 => {
          a.name.content = nm.to_string();
          c.tag("ARG renamed");
        }
        Instruction::Arg(a) => {
          a.value = Some(SpannedString { span: a.span, content: v.to_string() });
          c.tag("ARG value changed");
        }
        _ => {}
      }
    }
    5 => {
      // instructions of another document
      if let Ok(o) = Dockerfile::parse(&gen::doc(s, &ALL_KINDS, 1, 3).1.text) {
        for (k, i) in o.instructions.into_iter().enumerate() {
          d.instructions.insert(at + k, i);
        }
        c.tag("instructions of another document");
      }
    }
    6 => d.content = String::new(),
    9 => {
      // a stage by the name of some text and a later one built on it
      let froms: Vec<usize> = (0..n).filter(|i| d.instructions[*i].as_from().is_some()).collect();
      if froms.len() > 1 {
        let a = s.below(froms.len() as u32 - 1) as usize;
        let b = a + 1 + s.below((froms.len() - a - 1) as u32) as usize;
        let name = match s.below(3) {
          0 => s.pick::<&str>(&["$x", "${x}", "a:b", "a/b", "", " ", "0", "1", "scratch", "a@b", "-", "#a", "é", "É", "\"a\"", "${x:-a}", "$", "--a", "x\ny"]).to_string(),
          1 => an_image(s).to_string(),
          _ => gen::value(s),
        };
        if let Instruction::From(f) = &mut d.instructions[froms[a]] {
          f.alias = Some(SpannedString { span: f.span, content: if s.chance(1, 4) { name.to_uppercase() } else { name.clone() } });
        }
        if let Instruction::From(f) = &mut d.instructions[froms[b]] {
          f.image.content = name.clone();
          f.image_parsed = ImageRef::parse(&name);
        }
        c.tag("stage built on one of any name");
      }
    }
    7 => d.content = textgen::soup(s),
    _ => {
      // spans that mean nothing
      for i in &mut d.instructions {
        astio::map_spans(i, &mut |_| Span::new(0, 0));
      }
      c.tag("spans zeroed");
    }
  }
}

/// Everything the stage and argument queries say about `d`, against the models.
fn consistent(s: &mut Src, d: &Dockerfile, c: &mut Ctx) -> R {
  let list = &d.instructions;
  let froms: Vec<(usize, String, Option<String>)> = list
    .iter()
    .enumerate()
    .filter_map(|(i, x)| match x {
      Instruction::From(f) => Some((i, f.image.content.clone(), f.alias.as_ref().map(|a| a.content.clone()))),
      _ => None,
    })
    .collect();
  let m = refmodel::stages(&froms, list.len());
  c.nontrivial |= !m.is_empty() && list.len() > 1;
  c.tag_if(m.iter().any(|x| matches!(x.parent, Parent::Stage(_))), "stage built on a stage");
  // names to ask for: fixed ones and those of the document
  let mut names: Vec<String> = NAMES.iter().map(|n| n.to_string()).collect();
  for i in list.iter().rev().take(16) {
    match i {
      Instruction::Arg(a) => names.push(a.name.content.clone()),
      Instruction::From(f) => names.extend(f.alias.iter().map(|a| a.content.clone())),
      _ => {}
    }
  }
  names.sort();
  names.dedup();
  let st = d.stages();
  let it: Vec<Stage> = d.iter_stages().collect();
  ensure!(st.stages.len() == m.len() && it.len() == m.len(), "{} / {} stages instead of {}", st.stages.len(), it.len(), m.len());
  for (k, x) in m.iter().enumerate() {
    for g in [&st.stages[k], &it[k]] {
      ensure!(g.index == k, "stage {} has index {}", k, g.index);
      let want: Vec<&Instruction> = list[x.members.clone()].iter().collect();
      ensure!(g.instructions == want, "stage {} holds {:?} instead of {:?}", k, g.instructions, want);
      ensure!(g.name == x.name, "stage {} is named {:?} instead of {:?}", k, g.name, x.name);
      for (what, p, q) in [("parent", &g.parent, &x.parent), ("root", &g.root, &x.root)] {
        let ok = match (p, q) {
          (StageParent::Scratch, Parent::Scratch) => true,
          (StageParent::Stage(a), Parent::Stage(b)) => a == b,
          (StageParent::Image(i), Parent::Image(t)) => **i == refmodel::decompose(t),
          _ => false,
        };
        ensure!(ok, "{} of stage {} is {:?} instead of {:?}", what, k, p, q);
      }
      for n in &names {
        let want = want.iter().position(|i| matches!(i, Instruction::Arg(a) if a.name.content == *n));
        ensure!(g.arg_index(n) == want, "ARG {:?} of stage {} is at {:?} instead of {:?}", n, k, g.arg_index(n), want);
      }
    }
  }
  for n in names.iter().map(|n| n.as_str()).chain(IMAGES.iter().copied()) {
    let low: String = n.chars().map(|c| c.to_ascii_lowercase()).collect();
    let want = m.iter().position(|x| x.name.as_ref() == Some(&low));
    let got = st.get_by_name(n).map(|g| g.index);
    ensure!(got == want, "get_by_name({:?}) gives stage {:?} instead of {:?}", n, got, want);
    let digits = !n.is_empty() && n.bytes().all(|b| b.is_ascii_digit());
    if digits != n.parse::<usize>().is_ok() {
      continue; // too large for an index, or with a sign: not specified
    }
    let want = if digits { n.parse().ok().filter(|i| *i < m.len()) } else { want };
    let got = st.get(n).map(|g| g.index);
    ensure!(got == want, "get({:?}) gives stage {:?} instead of {:?}", n, got, want);
  }
  let first = froms.first().map_or(list.len(), |f| f.0);
  let mut vars: HashMap<String, String> = HashMap::new();
  for i in &list[..first] {
    if let Instruction::Arg(a) = i {
      if let Some(v) = &a.value {
        vars.insert(a.name.content.clone(), v.content.clone());
      }
    }
  }
  for n in &names {
    let want = list[..first].iter().find_map(|i| match i {
      Instruction::Arg(a) if a.name.content == *n => Some(a),
      _ => None,
    });
    ensure!(d.get_global_arg(n) == want, "global ARG {:?} is {:?} instead of {:?}", n, d.get_global_arg(n), want);
  }
  let asked: Vec<String> = froms.iter().take(12).map(|f| f.1.clone()).chain([an_image(s), a_value(s)]).collect();
  for t in asked {
    let r = ImageRef::parse(&t);
    let want = match substitute_model(&t, &vars, 16) {
      Sub::Budget => continue,
      Sub::None => None,
      Sub::Some(t, u) => {
        c.tag_if(!u.is_empty(), "image resolved through the arguments");
        Some((refmodel::decompose(&t), u))
      }
    };
    let got = r.resolve_vars_with_context(d).map(|(i, u): (ImageRef, HashSet<String>)| (i, u.into_iter().collect::<BTreeSet<_>>()));
    ensure!(got == want, "{:?} resolves to {:?} instead of {:?}", t, got, want);
  }
  ensure!(d.splicer().content == d.content, "a fresh splicer holds {:?}", d.splicer().content);
  Ok(())
}

fn c34(s: &mut Src, c: &mut Ctx) -> R {
  let mut d = match s.weighted(&[4, 2, 2]) {
    0 => {
      let ms: Vec<Sem> = super::stages::family(s);
      let l = gen::lay(s);
      let r = gen::render(s, &ms, l);
      Dockerfile::parse(&r.text).map_err(|e| format!("valid file rejected: {}: {}", show(&r.text), e))?
    }
    1 => Dockerfile { content: String::new(), global_args: vec![], instructions: vec![] },
    _ => match Dockerfile::parse(&textgen::likely(s)) {
      Ok(d) => d,
      Err(_) => Dockerfile { content: String::new(), global_args: vec![], instructions: vec![] },
    },
  };
  let steps = 1 + s.small(12);
  for _ in 0..steps {
    edit(s, &mut d, c);
  }
  in_step(&mut d);
  c.input = format!("{:?} / {:?}", d.content, d.instructions);
  consistent(s, &d, c).map_err(|m| format!("{}\n of the edited document {}", m, show(&c.input)))?;
  // asked, changed and asked again
  if s.bool() {
    for _ in 0..1 + s.small(3) {
      edit(s, &mut d, c);
    }
    in_step(&mut d);
    consistent(s, &d, c).map_err(|m| format!("{}\n of the document edited again {:?}", m, d))?;
  }
  Ok(())
}

// ------------------------------------------------------------------- C35

const LEN: usize = 16_384;
/// bytes a query may allocate per byte of the text
const PER_BYTE: u64 = 400;

struct Cost {
  what: &'static str,
  bytes: u64,
  us: u64,
}

fn cost<T>(what: &'static str, v: &mut Vec<Cost>, f: impl FnOnce() -> T) {
  let (a, t) = (meter::allocated(), meter::cpu_us());
  let x = f();
  let (bytes, us) = (meter::allocated() - a, meter::cpu_us() - t);
  std::hint::black_box(&x);
  drop(x);
  v.push(Cost { what, bytes, us });
}

fn breakables(i: &Instruction) -> Vec<&BreakableString> {
  match i {
    Instruction::Env(e) => e.vars.iter().map(|v| &v.value).collect(),
    Instruction::Misc(m) => vec![&m.arguments],
    _ => astio::expr_of(i).and_then(|e| e.as_shell()).into_iter().collect(),
  }
}

fn queries(d: &Dockerfile, pick: usize) -> Vec<Cost> {
  let mut v = Vec::new();
  let n = d.instructions.len();
  let i = &d.instructions[pick % n];
  let last = &d.instructions[n - 1];
  cost("a copy of the document", &mut v, || d.clone());
  cost("comparing the document with itself", &mut v, || d == d);
  cost("displaying every multi-line string", &mut v, || {
    let mut k = 0;
    for i in &d.instructions {
      for b in breakables(i) {
        k += b.to_string().len();
      }
    }
    k
  });
  cost("displaying every image", &mut v, || {
    d.instructions.iter().filter_map(|i| i.as_from()).map(|f| f.image_parsed.to_string().len()).sum::<usize>()
  });
  cost("decomposing every image", &mut v, || {
    d.instructions.iter().filter_map(|i| i.as_from()).map(|f| ImageRef::parse(&f.image.content).image.len()).sum::<usize>()
  });
  cost("exec arrays as string lists", &mut v, || {
    d.instructions.iter().filter_map(|i| astio::expr_of(i)?.as_exec()).map(|e| e.as_str_vec().len()).sum::<usize>()
  });
  cost("the spans of all instructions", &mut v, || d.instructions.iter().map(|i| i.span().end).sum::<usize>());
  cost("typed access to all instructions", &mut v, || {
    d.instructions.iter().filter(|i| i.as_from().is_some() || i.as_arg().is_some() || i.as_run().is_some() || i.as_env().is_some() || i.as_misc().is_some()).count()
  });
  cost("a relative position", &mut v, || i.span().relative_span(d));
  cost("the relative position of the last instruction", &mut v, || last.span().relative_span(d));
  cost("looking up a global argument", &mut v, || d.get_global_arg("a").is_some());
  cost("looking up a global argument that is not there", &mut v, || d.get_global_arg("nope nope").is_some());
  cost("splicing one span", &mut v, || {
    let mut sp = d.splicer();
    sp.splice(&i.span(), "x");
    sp.content
  });
  cost("splicing ten spans", &mut v, || {
    let mut sp = d.splicer();
    for k in 0..10.min(n) {
      sp.splice(&d.instructions[k * n / 10.min(n)].span(), "xyz xyz");
    }
    sp.content
  });
  v
}

/// Lines of one kind, many of them or much of one.
fn large(s: &mut Src, len: usize) -> String {
  let mut t = String::new();
  match s.weighted(&[4, 3, 3, 3]) {
    3 => t = textgen::listy(s, len, false),
    0 => {
      // one instruction with many parts
      let head = *s.pick(&["RUN x", "ENV a b", "X y", "RUN [\"a\"", "ENV a=b", "LABEL a=b", "COPY a b", "CMD x", "FROM a\nENV k v", "FROM a AS b\nRUN x"]);
      let k = s.below(3);
      let unit = match head {
        _ if head.contains('[') => ", \"x\"",
        "ENV a=b" | "LABEL a=b" => *s.pick(&[" c=d", " \\\n c='d'", " \\\n# c\n e=f"]),
        "COPY a b" => *s.pick(&[" c", " \\\n c"]),
        _ => [" y \\\n", " \\\n z", " \\\n # c\n w"][k as usize],
      };
      t.push_str(head);
      while t.len() < len {
        t.push_str(unit);
      }
      if head.contains('[') {
        t.push(']');
      }
      if t.trim_end().ends_with('\\') {
        t.push_str(" q");
      }
      t.push('\n');
    }
    1 => {
      // many instructions
      let ks: Vec<&str> = (0..1 + s.below(3)).map(|_| *s.pick::<&str>(&["ARG a\n", "ARG b=c\n", "RUN x\n", "X y\n", "ENV a=b\n", "\n", "# c\n", "CMD [\"a\"]\n", "COPY a b\n", "LABEL a=\"b c\"\n"])).collect();
      if s.bool() {
        t.push_str("FROM a\n");
      }
      while t.len() < len {
        for k in &ks {
          t.push_str(k);
        }
      }
      t.push_str("X y\n");
    }
    _ => {
      let u = gen::doc(s, &ALL_KINDS, 1, 6).1.text;
      while t.len() < len {
        t.push_str(&u);
        t.push('\n');
      }
    }
  }
  t
}

fn c35(s: &mut Src, c: &mut Ctx) -> R {
  let growth = s.chance(1, 6);
  let mark = s.rec.len();
  let small = large(s, LEN);
  c.input = small.clone();
  let choices: Vec<u32> = s.rec[mark..].to_vec();
  let d = match Dockerfile::parse(&small) {
    Ok(d) if !d.instructions.is_empty() => d,
    _ => {
      c.skipped = true;
      return Ok(());
    }
  };
  c.nontrivial = true;
  let pick = s.below(100_000) as usize;
  c.tag_if(d.instructions.len() > 1000, "over 1000 instructions");
  c.tag_if(d.instructions.len() < 3, "one or two large instructions");
  let n = small.len() as u64;
  let one = queries(&d, pick);
  for q in &one {
    ensure!(q.bytes <= PER_BYTE * n, "{} allocates {} bytes for a text of {} bytes: {}", q.what, q.bytes, n, show(&small));
  }
  // stages look at every earlier stage for a name: FROMs times text
  let froms = d.instructions.iter().filter(|i| i.as_from().is_some()).count() as u64;
  let mut v = Vec::new();
  cost("listing the stages", &mut v, || d.stages().stages.len());
  cost("iterating over the stages", &mut v, || d.iter_stages().count());
  for q in &v {
    ensure!(q.bytes <= PER_BYTE * n * (froms + 1), "{} allocates {} bytes for a text of {} bytes with {} FROMs: {}", q.what, q.bytes, n, froms, show(&small));
  }
  if growth {
    let mut again = Src::replay(choices);
    let big = large(&mut again, 8 * LEN);
    if let Ok(e) = Dockerfile::parse(&big) {
      c.tag("processor time compared with that of a text eight times as long");
      let slow = |a: u64, b: u64| b > 32 * a.max(500);
      let two = queries(&e, pick);
      for (k, (a, b)) in one.iter().zip(&two).enumerate() {
        let (mut x, mut y) = (a.us, b.us);
        for _ in 0..4 {
          if !slow(x, y) {
            break;
          }
          x = x.max(queries(&d, pick)[k].us);
          y = y.min(queries(&e, pick)[k].us);
        }
        ensure!(!slow(x, y), "{} takes {} us of processor time for {} bytes but {} us for {} bytes of {}", a.what, x, small.len(), y, big.len(), show(&small));
        ensure!(b.bytes <= PER_BYTE * big.len() as u64, "{} allocates {} bytes for a text of {} bytes: {}", b.what, b.bytes, big.len(), show(&small));
      }
    }
  }
  Ok(())
}

pub const PROPS: &[Prop] = &[
  Prop {
    id: "C34",
    rule: "a parsed, or empty, document with 1-12 random edits of its instruction list (instructions made by hand, removed, moved, repeated, taken from another document, fields changed, spans and text made meaningless), global arguments and FROM numbers recomputed; stages, lookups and resolution compared with the models, often edited and asked again; non-trivial if it has a FROM and another instruction; distinct by document",
    f: c34, quick: 700_000, thorough: 14_000_000, assumptions: &["global_args and FROM indexes are kept consistent with the list"],
  },
  Prop {
    id: "C35",
    rule: "accepted texts of 16 KiB: one instruction with many parts, equal or each different, many instructions, or a small file repeated; bytes allocated by each query measured, and for one case in six the processor time against a text eight times as long; all accepted cases are non-trivial; distinct by text",
    f: c35, quick: 8_000, thorough: 160_000, assumptions: &["allocation and processor time stand for cost", "a constant factor of 4 over linear time is allowed"],
  },
];
