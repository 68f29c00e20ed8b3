//! C16 global ARGs and numbering, C17 stage partition, C18 stage graph.

use super::text::show;
use super::Prop;
use crate::dict;
use crate::gen::{self, Sem, ALL_KINDS};
use crate::refmodel::{self, Parent, StageModel};
use crate::tape::{Ctx, Src, R};
use dockerfile_parser::*;

const NAMES: &[&str] = &["a", "A", "b", "ab", "FOO", "foo", "x1", "v"];

/// An ARG name, from a small pool.
fn name(s: &mut Src) -> String {
  let n = NAMES.len() as u32;
  match s.below(3 * n + 1) {
    k if k == 3 * n => gen::arg_name(s),
    k => NAMES[(k % n) as usize].to_string(),
  }
}

/// Instructions with ARGs, stages and references among them.
pub fn family(s: &mut Src) -> Vec<Sem> {
  let n = s.small(9) + 1;
  let mut ms = Vec::new();
  for _ in 0..n {
    ms.push(match s.weighted(&[6, 6, 4]) {
      0 => Sem::Arg { name: name(s), value: if s.bool() { Some(s.pick(&["a", "b", "$a", "${b}", "x:$A", ""]).to_string()) } else { None } },
      1 => Sem::From { flags: gen::from_flags(s), image: image(s), alias: alias(s) },
      _ => gen::sem(s, &ALL_KINDS),
    });
  }
  ms
}

fn file(s: &mut Src) -> (Vec<Sem>, gen::Rendered) {
  let long = s.chance(1, 300);
  let n = if long { if s.chance(1, 4) { dict::count(s).unwrap_or(60) } else { s.range(60, 700) } } else if s.chance(1, 200) { s.range(0, 60) } else { s.small(12) };
  let rare = if n > 3000 && s.bool() { 1 } else { *s.pick(&[300, 100, 30, 8, 2]) };
  let numbered = long && s.bool();
  let mut ms = Vec::new();
  for i in 0..n {
    if long {
      // many short instructions, in few or many stages
      let from = s.chance(1, rare);
      ms.push(match s.below(24) {
        _ if from => Sem::From { flags: vec![], image: s.pick(&IMAGES[..20]).to_string(), alias: if s.bool() { Some(s.pick(ALIASES).to_string()) } else { None } },
        k if k < 16 && numbered => Sem::Arg { name: format!("v{}", i - s.small(3).min(i)), value: None },
        k if k < 16 => Sem::Arg { name: s.pick(NAMES).to_string(), value: None },
        _ => Sem::Misc("X".into(), vec![gen::Piece::Line(" y".into())]),
      });
      continue;
    }
    ms.push(match s.weighted(&[8, 6, 5]) {
      0 => Sem::Arg { name: name(s), value: if s.bool() { Some(gen::value(s)) } else { None } },
      1 => Sem::From { flags: gen::from_flags(s), image: image(s), alias: alias(s) },
      _ => gen::sem(s, &ALL_KINDS),
    });
  }
  let l = gen::lay(s);
  let r = gen::render(s, &ms, l);
  (ms, r)
}

const ALIASES: &[&str] = &[
  "a", "A", "b", "B", "build", "Build", "BUILD", "base", "0", "1", "2", "scratch", "Scratch", "x-1", "x_1", "00", "01", "final", "as", "-1", "localhost", "alpine", "ab", "aB", "k", "s",
];
const IMAGES: &[&str] = &[
  "a", "A", "b", "B", "build", "Build", "bUILD", "base", "0", "1", "2", "scratch", "SCRATCH", "Scratch", "x-1", "x_1", "00", "01", "alpine", "alpine:3.10", "final", "as", "-1",
  "localhost/a", "a:latest", "ubuntu@sha256:", "build:1", "library/a", "$a", "${a}", "scratch:1", "a/", "ab", "AB", "k", "s",
];

fn image(s: &mut Src) -> String {
  if s.chance(1, 6) {
    return gen::image(s);
  }
  let t = s.pick(IMAGES).to_string();
  if t.ends_with("sha256:") {
    format!("{}{}", t, gen::hex64(s))
  } else {
    t
  }
}

fn alias(s: &mut Src) -> Option<String> {
  match s.weighted(&[3, 6, 1]) {
    0 => None,
    1 => Some(s.pick(ALIASES).to_string()),
    _ => Some(gen::alias(s)),
  }
}

fn parse(r: &gen::Rendered) -> std::result::Result<Dockerfile, String> {
  Dockerfile::parse(&r.text).map_err(|e| format!("valid file rejected: {}: {}", show(&r.text), e))
}

// ------------------------------------------------------------------- C16

fn c16(s: &mut Src, c: &mut Ctx) -> R {
  s.cap = 70_000;
  s.unit = 4096;
  let (ms, r) = file(s);
  c.input = r.text.clone();
  let first = ms.iter().position(|m| matches!(m, Sem::From { .. })).unwrap_or(ms.len());
  let globals: Vec<(&String, &Option<String>)> = ms[..first]
    .iter()
    .filter_map(|m| match m {
      Sem::Arg { name, value } => Some((name, value)),
      _ => None,
    })
    .collect();
  let args = ms.iter().filter(|m| matches!(m, Sem::Arg { .. })).count();
  c.nontrivial = args > 0 && ms.len() > 1;
  c.tag_if(!globals.is_empty(), "global ARGs");
  c.tag_if(args > globals.len(), "ARGs behind the first FROM");
  c.tag_if(first == ms.len() && !ms.is_empty(), "no FROM");
  c.tag_if(
    ms[..first].iter().position(|m| !matches!(m, Sem::Arg { .. })).map_or(false, |p| ms[p..first].iter().any(|m| matches!(m, Sem::Arg { .. }))),
    "global ARG behind another instruction",
  );
  let mut names: Vec<&String> = globals.iter().map(|g| g.0).collect();
  names.sort();
  names.dedup();
  c.tag_if(names.len() < globals.len(), "duplicate global names");
  let d = parse(&r)?;
  let inner = || -> R {
    ensure!(d.instructions.len() == ms.len(), "{} instructions written, {} found", ms.len(), d.instructions.len());
    let got: Vec<(&String, Option<String>)> =
      d.global_args.iter().map(|a| (&a.name.content, a.value.as_ref().map(|v| v.content.clone()))).collect();
    let want: Vec<(&String, Option<String>)> = globals.iter().map(|(n, v)| (*n, (*v).clone())).collect();
    ensure!(got == want, "global ARGs are {:?}, expected {:?}", got, want);
    // they are the instructions of the list
    let listed: Vec<&ArgInstruction> = d.instructions[..first].iter().filter_map(|i| i.as_arg()).collect();
    ensure!(listed == d.global_args.iter().collect::<Vec<_>>(), "global ARGs {:?} are not those of the list {:?}", d.global_args, listed);
    // lookups
    let mut asked: Vec<String> = ms
      .iter()
      .filter_map(|m| match m {
        Sem::Arg { name, .. } => Some(name.clone()),
        _ => None,
      })
      .collect();
    for a in asked.clone() {
      asked.push(a.to_uppercase());
      asked.push(a.to_lowercase());
      asked.push(format!("{}x", a));
      asked.push(a[1..].to_string());
    }
    asked.extend(["".to_string(), "nope".into(), "a".into(), "FROM".into(), "a=b".into(), " a".into()]);
    for a in asked {
      let want = listed.iter().find(|x| x.name.content == a).copied();
      let got = d.get_global_arg(&a);
      ensure!(got == want, "looking up {:?} gives {:?} instead of {:?}", a, got, want);
    }
    let idx: Vec<usize> = d.instructions.iter().filter_map(|i| i.as_from()).map(|f| f.index).collect();
    ensure!(idx == (0..idx.len()).collect::<Vec<_>>(), "FROM indexes are {:?}", idx);
    Ok(())
  };
  inner().map_err(|m| format!("{}\n in {}", m, show(&r.text)))
}

// ------------------------------------------------------------------- C17

fn model(d: &Dockerfile) -> Vec<StageModel> {
  let froms: Vec<(usize, String, Option<String>)> = d
    .instructions
    .iter()
    .enumerate()
    .filter_map(|(i, x)| x.as_from().map(|f| (i, f.image.content.clone(), f.alias.as_ref().map(|a| a.content.clone()))))
    .collect();
  refmodel::stages(&froms, d.instructions.len())
}

fn same_members(st: &Stage, d: &Dockerfile, m: &StageModel) -> bool {
  let want: Vec<&Instruction> = d.instructions[m.members.clone()].iter().collect();
  st.instructions.len() == want.len() && st.instructions.iter().zip(&want).all(|(a, b)| std::ptr::eq(*a, *b) || *a == *b)
}

fn c17(s: &mut Src, c: &mut Ctx) -> R {
  let (_, r) = file(s);
  c.input = r.text.clone();
  let d = parse(&r)?;
  let m = model(&d);
  c.nontrivial = d.instructions.len() > 1;
  c.tag_if(m.is_empty(), "no stage");
  c.tag_if(m.len() > 1, "several stages");
  c.tag_if(m.first().map_or(false, |x| x.members.start > 0), "instructions before the first stage");
  let inner = || -> R {
    let st = d.stages();
    ensure!(st.stages.len() == m.len(), "{} stages instead of {}", st.stages.len(), m.len());
    let by_iter: Vec<&Stage> = st.iter().collect();
    ensure!(by_iter.len() == m.len(), "iter() yields {} stages", by_iter.len());
    for (k, x) in m.iter().enumerate() {
      for (what, g) in [("stages[]", &st.stages[k]), ("Index", &st[k]), ("iter()", by_iter[k])] {
        ensure!(g.index == k, "stage {} by {} has index {}", k, what, g.index);
        ensure!(same_members(g, &d, x), "stage {} by {} holds {:?} instead of {:?}", k, what, g.instructions, &d.instructions[x.members.clone()]);
        ensure!(
          matches!(g.instructions.first(), Some(Instruction::From(f)) if f.index == k),
          "stage {} does not begin with its FROM: {:?}",
          k,
          g.instructions.first()
        );
      }
      let g = &st.stages[k];
      for n in NAMES.iter().chain(["", "nope", "FROM"].iter()) {
        let want = d.instructions[x.members.clone()].iter().position(|i| i.as_arg().map_or(false, |a| a.name.content == **n));
        ensure!(g.arg_index(n) == want, "ARG {:?} in stage {} is at {:?} instead of {:?}", n, k, g.arg_index(n), want);
      }
      for i in &d.instructions[x.members.clone()] {
        if let Some(a) = i.as_arg() {
          let want = d.instructions[x.members.clone()].iter().position(|i| i.as_arg().map_or(false, |b| b.name.content == a.name.content));
          ensure!(g.arg_index(&a.name.content) == want, "ARG {:?} in stage {}", a.name, k);
        }
      }
    }
    // the other ways to get them
    let again = Stages::new(&d);
    let a: Vec<Stage> = d.iter_stages().collect();
    let b: Vec<Stage> = again.into_iter().collect();
    ensure!(a.len() == m.len() && b.len() == m.len(), "iter_stages yields {}, into_iter {}", a.len(), b.len());
    for (k, x) in m.iter().enumerate() {
      ensure!(a[k].index == k && b[k].index == k, "index of stage {} by iter_stages / into_iter", k);
      ensure!(same_members(&a[k], &d, x) && same_members(&b[k], &d, x), "members of stage {} by iter_stages / into_iter", k);
      ensure!(a[k].name == st[k].name && a[k].parent == st[k].parent && a[k].root == st[k].root, "stage {} by iter_stages differs", k);
    }
    // none lost or duplicated
    let total: usize = a.iter().map(|g| g.instructions.len()).sum();
    let before = m.first().map_or(d.instructions.len(), |x| x.members.start);
    ensure!(total + before == d.instructions.len(), "{} instructions in stages, {} before, {} in all", total, before, d.instructions.len());
    // order
    for i in 0..a.len() {
      for j in (0..a.len()).filter(|j| *j < 6 || *j + 3 > a.len() || i == *j) {
        ensure!(a[i].cmp(&b[j]) == i.cmp(&j), "stages {} and {} compare wrongly", i, j);
        ensure!(a[i].partial_cmp(&b[j]) == Some(i.cmp(&j)), "stages {} and {} compare wrongly (partial)", i, j);
        ensure!((a[i] == b[j]) == (i == j), "stages {} and {} equality", i, j);
      }
    }
    Ok(())
  };
  inner().map_err(|e| format!("{}\n in {}", e, show(&r.text)))
}

// ------------------------------------------------------------------- C18

fn agrees(froms: &[&FromInstruction], p: &StageParent, m: &Parent) -> R {
  let ok = match (p, m) {
    (StageParent::Scratch, Parent::Scratch) => p.to_string() == "scratch",
    (StageParent::Stage(a), Parent::Stage(b)) => a == b && p.to_string() == b.to_string(),
    (StageParent::Image(i), Parent::Image(t)) => {
      **i == refmodel::decompose(t) && p.to_string() == *t && froms.iter().any(|f| f.image.content == *t && f.image_parsed == **i)
    }
    _ => false,
  };
  ensure!(ok, "{:?} (shown {:?}) instead of {:?}", p, p.to_string(), m);
  Ok(())
}

fn c18(s: &mut Src, c: &mut Ctx) -> R {
  let n = if s.chance(1, 1500) { if s.chance(1, 4) { dict::count(s).unwrap_or(60).min(3000) } else { s.range(60, 400) } } else if s.chance(1, 100) { s.range(1, 60) } else { 1 + s.small(8) };
  let mut ms = Vec::new();
  let chain = s.chance(1, 4);
  for i in 0..n {
    if s.chance(1, 5) {
      ms.push(gen::sem(s, &ALL_KINDS));
    }
    if chain {
      // long chains of distinct names
      let image = if i > 0 && !s.chance(1, 10) { format!("S{}", s.below(i)) } else { image(s) };
      ms.push(Sem::From { flags: gen::from_flags(s), image, alias: Some(format!("{}{}", s.pick::<&str>(&["s", "S"]), i)) });
    } else {
      ms.push(Sem::From { flags: gen::from_flags(s), image: image(s), alias: alias(s) });
    }
  }
  let l = gen::lay(s);
  let r = gen::render(s, &ms, l);
  c.input = r.text.clone();
  let d = parse(&r)?;
  // expectation from what was written, not from what was parsed
  let wrote: Vec<(usize, String, Option<String>)> = ms
    .iter()
    .enumerate()
    .filter_map(|(i, m)| match m {
      Sem::From { image, alias, .. } => Some((i, image.clone(), alias.clone())),
      _ => None,
    })
    .collect();
  let m = refmodel::stages(&wrote, ms.len());
  let parents = m.iter().filter(|x| matches!(x.parent, Parent::Stage(_))).count();
  c.nontrivial = parents > 0;
  c.tag_if(parents > 0, "stage built on a stage");
  c.tag_if(parents > 2, "three or more stages built on stages");
  c.tag_if(m.iter().any(|x| x.parent == Parent::Scratch), "scratch parent");
  c.tag_if(m.iter().any(|x| matches!(x.parent, Parent::Stage(_)) && x.root == Parent::Scratch), "scratch root of a stage on a stage");
  c.tag_if(m.iter().enumerate().any(|(i, x)| x.name.is_some() && m[..i].iter().any(|y| y.name == x.name)), "duplicate names");
  let inner = || -> R {
    let st = d.stages();
    ensure!(st.stages.len() == m.len(), "{} stages instead of {}", st.stages.len(), m.len());
    let froms: Vec<&FromInstruction> = d.instructions.iter().filter_map(|i| i.as_from()).collect();
    for (k, x) in m.iter().enumerate() {
      let g = &st.stages[k];
      ensure!(g.name == x.name, "stage {} is named {:?} instead of {:?}", k, g.name, x.name);
      agrees(&froms, &g.parent, &x.parent).map_err(|e| format!("parent of stage {} is {}", k, e))?;
      agrees(&froms, &g.root, &x.root).map_err(|e| format!("root of stage {} is {}", k, e))?;
      if let StageParent::Stage(j) = g.parent {
        ensure!(j < k, "stage {} is built on stage {}", k, j);
      }
      ensure!(!matches!(g.root, StageParent::Stage(_)), "root of stage {} is a stage", k);
    }
    // lookups
    let mut asked: Vec<String> = Vec::new();
    for (_, i, a) in &wrote {
      asked.push(i.clone());
      if let Some(a) = a {
        asked.extend([a.clone(), a.to_lowercase(), a.to_uppercase(), format!("{}x", a), format!(" {}", a)]);
      }
    }
    asked.extend((0..m.len() + 2).map(|i| i.to_string()));
    asked.extend(["", "-1", "00", "01", "0x0", "1.0", "nope", "18446744073709551615", " 0", "0 ", "ſ", "\u{212a}", "é"].map(String::from));
    for a in asked {
      let by_name = m.iter().position(|x| x.name.as_deref() == Some(&a.to_ascii_lowercase()));
      let got = st.get_by_name(&a).map(|g| g.index);
      ensure!(got == by_name, "get_by_name({:?}) gives stage {:?} instead of {:?}", a, got, by_name);
      let digits = !a.is_empty() && a.bytes().all(|b| b.is_ascii_digit());
      if digits && a.parse::<usize>().is_err() {
        continue; // too large for an index: not specified
      }
      if !digits && a.parse::<usize>().is_ok() {
        continue; // a number with a sign: not specified
      }
      let want = if digits { a.parse::<usize>().ok().filter(|i| *i < m.len()) } else { by_name };
      let got = st.get(&a).map(|g| g.index);
      ensure!(got == want, "get({:?}) gives stage {:?} instead of {:?}", a, got, want);
    }
    Ok(())
  };
  inner().map_err(|e| format!("{}\n in {}", e, show(&r.text)))
}

pub const PROPS: &[Prop] = &[
  Prop {
    id: "C16",
    rule: "files of 0-12 (rarely 60, one in 300 up to 700) instructions, mostly ARGs of 8 names and FROMs, random layout; global args, lookups of all names and near names, and FROM indexes compared with what was written; non-trivial if there is an ARG among several instructions; distinct by text",
    f: c16, quick: 2_410_000, thorough: 48_200_000, assumptions: &["generated valid files"],
  },
  Prop {
    id: "C17",
    rule: "files as in C16; stages by every way of access compared with the partition at the FROMs; non-trivial if there are several instructions; distinct by text",
    f: c17, quick: 2_500_000, thorough: 50_000_000, assumptions: &["generated valid files"],
  },
  Prop {
    id: "C18",
    rule: "1-9 (rarely 60, at most 400) stages with aliases and images from pools that collide in letter case, numbers and scratch, or chains of distinct names; names, parents, roots and lookups compared with a model over what was written; non-trivial if a stage is built on a stage; distinct by text",
    f: c18, quick: 1_440_000, thorough: 28_800_000, assumptions: &["lookup texts with a sign or beyond the integer range are not judged"],
  },
];
