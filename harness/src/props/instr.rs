//! C06-C13: one instruction kind each, expected AST by construction.
//! C21: digests.

use super::Prop;
use crate::dict;
use crate::gen::{self, only, NKIND};
use crate::refmodel;
use crate::refparse;
use crate::tape::{Ctx, Src, R};
use crate::textgen;
use dockerfile_parser::*;

fn show(t: &str) -> String {
  if t.len() > 3000 {
    let mut n = 3000;
    while !t.is_char_boundary(n) {
      n -= 1;
    }
    format!("{:?}... ({} bytes)", &t[..n], t.len())
  } else {
    format!("{:?}", t)
  }
}

/// Parses `r.text` and compares with the renderer's expectation.
pub fn expect(r: &gen::Rendered) -> R {
  let d = match Dockerfile::parse(&r.text) {
    Ok(d) => d,
    Err(e) => return Err(format!("valid file rejected: {} -- {}", show(&r.text), e)),
  };
  ensure!(
    d.instructions.len() == r.instructions.len(),
    "{} instructions expected, {} found in {}\nfound: {:?}",
    r.instructions.len(),
    d.instructions.len(),
    show(&r.text),
    d.instructions
  );
  for (i, (a, b)) in d.instructions.iter().zip(&r.instructions).enumerate() {
    ensure!(a == b, "instruction {} of {}\n expected {:?}\n found    {:?}", i, show(&r.text), b, a);
  }
  ensure!(d.global_args == r.global_args, "global args of {}", show(&r.text));
  Ok(())
}

/// Mostly the kinds under test, with one or two other instructions around.
fn kinds(s: &mut Src, ks: &[usize]) -> [u32; NKIND] {
  let mut w = only(ks);
  if s.chance(1, 2) {
    for x in &mut w {
      *x += 1;
    }
  }
  w
}

/// Texts made almost only of the kind under test, damaged: accepted exactly if
/// the syntax allows it, and then with exactly the prescribed instructions of that kind.
fn damaged(s: &mut Src, c: &mut Ctx, ks: &[usize], is: fn(&Instruction) -> bool) -> R {
  let mut t = match s.weighted(&[6, 2]) {
    0 => {
      let (_, r) = gen::doc(s, &only(ks), 1, 1);
      let mut t = r.text;
      textgen::mutate(s, &mut t);
      t
    }
    _ => {
      const WORD: [&str; NKIND] = ["FROM", "ARG", "COPY", "LABEL", "LABEL", "ENV", "ENV", "ENV", "RUN", "CMD", "X"];
      let w = WORD[*s.pick(ks)];
      let w = if matches!(w, "RUN" | "CMD") { *s.pick(&["RUN", "CMD", "ENTRYPOINT"]) } else { w };
      textgen::keyword_soup(s, w)
    }
  };
  if s.chance(1, 4) {
    t = format!("{}{}{}", s.pick::<&str>(&["FROM a\n", "# c\n", "X y\n", "\n"]), t, s.pick::<&str>(&["", "\n", "\nRUN x\n"]));
  }
  c.input = t.clone();
  c.tag("damaged instruction");
  let want = refparse::parse(&t).ok();
  let got = Dockerfile::parse(&t).ok();
  c.nontrivial = want.is_none() || want.as_ref().map_or(false, |d| d.instructions.iter().any(|i| is(i)));
  c.tag(if want.is_some() { "damaged, still well-formed" } else { "damaged, malformed" });
  match (&want, &got) {
    (None, None) => Ok(()),
    (Some(w), Some(g)) => {
      let w: Vec<&Instruction> = w.instructions.iter().filter(|i| is(i)).collect();
      let g: Vec<&Instruction> = g.instructions.iter().filter(|i| is(i)).collect();
      ensure!(w == g, "{}\n expected {:?}\n found    {:?}", show(&t), w, g);
      Ok(())
    }
    (None, Some(g)) => Err(format!("accepted although malformed: {} as {:?}", show(&t), g.instructions)),
    (Some(w), None) => Err(format!("rejected although well-formed: {}, expected {:?}", show(&t), w.instructions)),
  }
}

fn one_kind(s: &mut Src, c: &mut Ctx, ks: &[usize], is: fn(&Instruction) -> bool) -> R {
  s.cap = 70_000;
  if s.chance(1, 6) {
    return damaged(s, c, ks, is);
  }
  let w = kinds(s, ks);
  let (_, mut r) = gen::doc(s, &w, 1, 3);
  if ks.contains(&8) && s.chance(1, 12) {
    let nl = *s.pick(&["\n", "\r\n"]);
    if let Some(t) = gen::with_tail_comments(s, r.clone(), nl) {
      r = t;
      c.tag("comments after the last command line");
    }
  }
  c.input = r.text.clone();
  let n = r.instructions.iter().filter(|i| is(i)).count();
  c.nontrivial = n > 0 && (r.continuations + r.comments + r.quoted > 0 || r.text.len() > 12);
  c.tag_if(n > 0, "kind under test present");
  c.tag_if(n > 1, "kind under test repeated");
  c.tag_if(r.continuations > 0, "continuations");
  c.tag_if(r.comments > 0, "comments");
  c.tag_if(r.quoted > 0, "quoted or escaped values");
  c.tag_if(r.text.contains("\r\n"), "CRLF");
  c.tag_if(!r.text.is_ascii(), "non-ASCII");
  c.tag_if(r.text.len() > 2000, "over 2000 bytes");
  c.tag_if(r.instructions.len() > 10, "over 10 instructions");
  for i in &r.instructions {
    count_tags(i, c);
  }
  expect(&r)?;
  // the reference parser must see the same thing (keeps renderer and reference honest)
  match refparse::parse(&r.text) {
    Ok(d) if d.instructions == r.instructions && d.global_args == r.global_args => Ok(()),
    x => Err(format!("HARNESS: renderer and reference parser disagree on {}: {:?} vs {:?}", show(&r.text), x, r.instructions)),
  }
}

fn count_tags(i: &Instruction, c: &mut Ctx) {
  match i {
    Instruction::From(f) => {
      c.tag_if(f.flags.len() > 1, "several FROM flags");
      c.tag_if(f.alias.is_some(), "FROM alias");
      c.tag_if(f.image_parsed.hash.is_some(), "FROM digest");
      c.tag_if(f.image_parsed.registry.is_some(), "FROM registry");
    }
    Instruction::Arg(a) => {
      c.tag_if(a.value.is_none(), "ARG without value");
      c.tag_if(a.value.as_ref().map_or(false, |v| v.content.is_empty()), "empty value");
    }
    Instruction::Copy(x) => {
      c.tag_if(x.flags.len() > 1, "several COPY flags");
      c.tag_if(x.sources.len() > 1, "several sources");
      c.tag_if(x.sources.len() + x.flags.len() > 50, "over 50 COPY parts");
    }
    Instruction::Label(l) => {
      c.tag_if(l.labels.len() > 1, "several labels");
      c.tag_if(l.labels.len() > 50, "over 50 labels");
    }
    Instruction::Env(e) => {
      c.tag_if(e.vars.len() > 1, "several variables");
      c.tag_if(e.vars.iter().any(|v| v.value.components.len() > 1), "multi-line ENV value");
      c.tag_if(e.vars.len() > 50, "over 50 variables");
    }
    Instruction::Misc(m) => c.tag_if(m.arguments.components.len() > 1, "multi-line arguments"),
    _ => {
      if let Some(e) = crate::astio::expr_of(i) {
        match e {
          ShellOrExecExpr::Shell(b) => {
            c.tag_if(b.components.len() > 1, "multi-line command");
            c.tag_if(
              b.components.iter().any(|x| matches!(x, BreakableStringComponent::Comment(_))),
              "comment inside a command",
            );
            c.tag_if(b.components.len() > 50, "over 50 command lines");
          }
          ShellOrExecExpr::Exec(a) => {
            c.tag_if(a.elements.is_empty(), "empty exec array");
            c.tag_if(a.elements.len() > 1, "several exec elements");
            c.tag_if(a.elements.len() > 50, "over 50 exec elements");
          }
        }
      }
    }
  }
}

fn c06(s: &mut Src, c: &mut Ctx) -> R {
  one_kind(s, c, &[0], |i| i.as_from().is_some())
}

/// A reject case: complete instruction text followed by junk on its line.
fn rejects(c: &mut Ctx, text: String) -> R {
  c.tag("must be rejected");
  c.nontrivial = true;
  c.input = text;
  match Dockerfile::parse(&c.input) {
    Err(_) => Ok(()),
    Ok(d) => Err(format!("accepted although malformed: {} as {:?}", show(&c.input), d.instructions)),
  }
}

fn c07(s: &mut Src, c: &mut Ctx) -> R {
  if s.chance(1, 6) {
    // text after a complete name or value
    let v = gen::value(s);
    let name = gen::arg_name(s);
    let before = gen::doc(s, &gen::ALL_KINDS, 0, 2).1;
    let mut t = String::from("FROM x\n");
    if !before.text.is_empty() && s.bool() {
      t = format!("{}\n", before.text);
      if !gen_closed(&before) {
        t = String::from("FROM x\n");
      }
    }
    let sp = match s.below(3) {
      0 => format!("={}", gen::quote(s, &v, gen::Q::Plain, 1)),
      1 => format!("={}", gen::token(s)),
      _ => String::new(),
    };
    let gap = *s.pick(&[" ", "\t", "  ", " \\\n", " \\\n# c\n "]);
    let junk = loop {
      let j = gen::token(s);
      // a comment line after the continuation would not be junk
      if !(j.starts_with('#') && gap.contains('\n')) {
        break j;
      }
    };
    t.push_str(&format!("ARG {}{}{}{}", name, sp, gap, junk));
    t.push_str(s.pick::<&str>(&["", "\n", "\nRUN a\n"]));
    return rejects(c, t);
  }
  one_kind(s, c, &[1], |i| i.as_arg().is_some())
}

/// The rendered file can be followed by another line without changing meaning.
pub fn gen_closed(r: &gen::Rendered) -> bool {
  // trailing comment lines of a shell form would swallow what follows
  match r.instructions.last().and_then(crate::astio::expr_of) {
    Some(ShellOrExecExpr::Shell(b)) => !matches!(b.components.last(), Some(BreakableStringComponent::Comment(_))),
    _ => true,
  }
}

fn c08(s: &mut Src, c: &mut Ctx) -> R {
  one_kind(s, c, &[2], |i| i.as_copy().is_some())
}
fn c09(s: &mut Src, c: &mut Ctx) -> R {
  one_kind(s, c, &[3, 4], |i| i.as_label().is_some())
}
fn c10(s: &mut Src, c: &mut Ctx) -> R {
  one_kind(s, c, &[5, 6, 7], |i| i.as_env().is_some())
}
fn c11(s: &mut Src, c: &mut Ctx) -> R {
  one_kind(s, c, &[8], |i| crate::astio::expr_of(i).map_or(false, |e| e.as_shell().is_some()))
}

fn c12(s: &mut Src, c: &mut Ctx) -> R {
  if s.chance(1, 6) {
    // an unquoted, unterminated or badly separated list is shell form
    let k = *s.pick(&["RUN", "CMD", "ENTRYPOINT", "run", "Cmd", "entryPoint"]);
    let els: Vec<String> = (0..s.range(1, 4))
      .map(|_| {
        let v = gen::value(s).replace(['\n', '\r', '\\'], "x");
        gen::quote(s, &v, gen::Q::Plain, 0)
      })
      .collect();
    let list = els.join(", ");
    let body = match s.below(8) {
      0 => format!("[{}", list),
      1 => format!("[{}, x]", list),
      2 => format!("[x, {}]", list),
      3 => format!("[{} x]", list),
      4 => format!("[{} {}]", list, els[0]),
      5 => format!("[,{}]", list),
      6 => format!("[{},,]", list),
      _ => format!("x [{}]", list),
    };
    let text = format!("FROM a\n{} {}\nCMD x\n", k, body);
    c.input = text.clone();
    c.nontrivial = true;
    c.tag("list that is not an exec array");
    let d = Dockerfile::parse(&text).map_err(|e| format!("{}: {}", show(&text), e))?;
    ensure!(d.instructions.len() == 3, "three instructions expected in {}: {:?}", show(&text), d.instructions);
    let e = crate::astio::expr_of(&d.instructions[1]).ok_or_else(|| format!("kind of {}", show(&text)))?;
    let a = "FROM a\n".len() + k.len() + 1;
    let want = BreakableString::new((a, a + body.len())).add_string((a, a + body.len()), body.clone());
    ensure!(e == &ShellOrExecExpr::Shell(want), "shell form expected for {}: {:?}", show(&text), e);
    return Ok(());
  }
  one_kind(s, c, &[9], |i| crate::astio::expr_of(i).map_or(false, |e| e.as_exec().is_some()))
}

fn c13(s: &mut Src, c: &mut Ctx) -> R {
  if s.chance(1, 3) {
    // every known keyword in any case gets its own kind
    let (ms, r) = gen::doc(s, &gen::ALL_KINDS, 1, 6);
    c.input = r.text.clone();
    c.nontrivial = true;
    c.tag("mixed known instructions");
    let d = Dockerfile::parse(&r.text).map_err(|e| format!("{}: {}", show(&r.text), e))?;
    let want: Vec<&str> = ms.iter().map(sem_kind).collect();
    let got: Vec<&str> = d.instructions.iter().map(crate::astio::kind).collect();
    ensure!(want == got, "kinds of {}: expected {:?}, found {:?}", show(&r.text), want, got);
    return Ok(());
  }
  one_kind(s, c, &[10], |i| i.as_misc().is_some())
}

pub fn sem_kind(m: &gen::Sem) -> &'static str {
  use gen::{Kind, Sem};
  match m {
    Sem::From { .. } => "from",
    Sem::Arg { .. } => "arg",
    Sem::Copy { .. } => "copy",
    Sem::Labels(_) | Sem::LabelSingle(..) => "label",
    Sem::Envs(_) | Sem::EnvQuoted(..) | Sem::EnvLines(..) => "env",
    Sem::Shell(k, _) | Sem::Exec(k, _) => match k {
      Kind::Run => "run",
      Kind::Cmd => "cmd",
      Kind::Entrypoint => "entrypoint",
    },
    Sem::Misc(..) => "misc",
  }
}

fn c21(s: &mut Src, c: &mut Ctx) -> R {
  // a digest that is right or almost right
  let mut h: Vec<char> = gen::hex64(s).chars().collect();
  let mut algo = String::from("sha256:");
  let mutations = s.weighted(&[6, 8, 3]);
  const OTHER: &str = "gGzxXZ_-./:@${}";
  for _ in 0..mutations {
    let at = s.below(h.len() as u32 + 1) as usize;
    match s.below(11) {
      10 => {
        // one stretch of digits again and again
        let k = *s.pick(&[1, 2, 4, 8, 16, 32, 64, 3, 5, 7]);
        let part: Vec<char> = h.iter().take(k).copied().collect();
        let m = if s.bool() { s.range(0, 9) as usize } else { (64 / k + s.below(4) as usize).saturating_sub(1) };
        h = part.iter().cycle().take(part.len() * m).copied().collect();
      }
      9 => {
        // something else altogether
        let mut w = dict::hint(s).unwrap_or_else(|| s.pick::<&str>(&["${d}", "$d", "${d", "d", "$", "latest", "-", "a@b"]).to_string());
        w.retain(|c| gen::IMAGE_CHARS.contains(c) || c.is_ascii_alphanumeric());
        match s.below(4) {
          0 => h = w.chars().collect(),
          1 => h.splice(at..at, w.chars()).for_each(drop),
          2 => algo = w,
          _ => {
            let n = w.chars().count().min(h.len() - at);
            h.splice(at..at + n, w.chars()).for_each(drop);
          }
        }
      }
      0 if at < h.len() => h[at] = *s.pick(&OTHER.chars().collect::<Vec<_>>()),
      1 if at < h.len() => {
        h.remove(at);
      }
      2 => h.insert(at, *s.pick(&['0', 'f', 'F'])),
      3 => h.insert(at, *s.pick(&OTHER.chars().collect::<Vec<_>>())),
      4 => algo = s.pick(&["sha512:", "SHA256:", "sha256", "", "sha2566:", "sha256::", ":", "sha256:sha256:", "xsha256:", "md5:", "Sha256:"]).to_string(),
      5 if h.len() > 1 => {
        // last or first digit wrong, length kept
        let i = if s.bool() { 0 } else { h.len() - 1 };
        h[i] = *s.pick(&['g', 'G', '-', '.']);
      }
      6 => h = h.iter().map(|_| *s.pick(&['g', 'x', 'z', '-'])).collect(),
      7 => h.truncate(s.below(64) as usize),
      8 => {
        // no hex digit but one
        let n = h.len();
        let k = s.below(n.max(1) as u32) as usize;
        h = (0..n).map(|i| if i == k { 'a' } else { 'g' }).collect();
      }
      _ => {}
    }
  }
  let name = match s.below(5) {
    0 => "alpine".to_string(),
    1 => "localhost:5000/a/b".to_string(),
    2 => String::new(),
    3 => "a:1.2".to_string(),
    _ => gen::image(s).replace('@', "_"),
  };
  let hex: String = h.iter().collect();
  let img = format!("{}@{}{}", name, algo, hex);
  // what surrounds it often repeats a part of it
  let good = gen::hex64(s);
  let whole = img.clone();
  let related = |s: &mut Src| -> String {
    let t = match s.below(8) {
      0 => "x".to_string(),
      1 => whole.clone(),
      2 => name.clone(),
      3 => hex.clone(),
      4 => format!("{}{}", algo, hex),
      5 => hex.chars().take(1 + s.below(40) as usize).collect(),
      6 => format!("sha256:{}", good),
      _ => gen::token(s),
    };
    if t.is_empty() {
      "x".to_string()
    } else {
      t
    }
  };
  let mut text = String::new();
  for _ in 0..s.small(3) {
    let t = related(s);
    match s.below(6) {
      0 => text.push_str("FROM x\n"),
      1 => text.push_str(&format!("ARG d={}\n", t)),
      2 => text.push_str(&format!("# {}\n", t)),
      3 => text.push_str(&format!("COPY --from={} a b\n", t)),
      4 => text.push_str(&format!("FROM {}@sha256:{}\n", name, good)),
      _ => {
        let n: String = t.chars().filter(|c| c.is_ascii_alphanumeric() || "_-".contains(*c)).collect();
        text.push_str(&format!("FROM x AS {}x\n", n));
      }
    }
  }
  let at = text.len();
  text.push_str(s.pick::<&str>(&["FROM ", "from --platform=x ", "FROM \\\n "]));
  for _ in 0..s.small(2) {
    let t = related(s);
    text.push_str(&format!("--{}={} ", s.pick::<&str>(&["platform", "a", "digest"]), t));
  }
  text.push_str(&img);
  if s.chance(1, 6) {
    let t = related(s);
    let n: String = t.chars().filter(|c| c.is_ascii_alphanumeric() || "_-".contains(*c)).collect();
    text.push_str(&format!(" AS {}x{}", n, s.pick::<&str>(&["", "\n", "\nRUN x\n"])));
  } else {
    text.push_str(s.pick::<&str>(&["", " AS b", "\n", "\nRUN x\n"]));
  }
  c.input = text.clone();
  // what the image's digest is, by the reference rule
  let want = match refmodel::decompose(&img).hash {
    Some(h) => refparse::digest_ok(&h),
    None => true,
  };
  c.nontrivial = true;
  c.tag(if want { "valid digest" } else { "invalid digest" });
  c.tag_if(!want && hex.len() == 64 && algo == "sha256:", "64 characters, not all hexadecimal");
  match Dockerfile::parse(&text) {
    Ok(d) => {
      ensure!(want, "invalid digest accepted in {}", show(&text));
      let f = d.instructions.iter().filter_map(|i| i.as_from()).find(|f| f.span.start >= at);
      let f = f.ok_or_else(|| format!("no FROM in {}", show(&text)))?;
      ensure!(f.image.content == img, "image of {}: {:?}", show(&text), f.image);
      ensure!(f.image_parsed == refmodel::decompose(&img), "decomposition in {}: {:?}", show(&text), f.image_parsed);
    }
    Err(e) => ensure!(!want, "valid digest rejected in {}: {}", show(&text), e),
  }
  Ok(())
}

const TRUST: &[&str] = &[
  "the renderer's own bookkeeping of what it wrote (cross-checked against the reference parser on every case)",
  "at most a few hundred parts and a few thousand bytes per instruction",
];

pub const PROPS: &[Prop] = &[
  Prop {
    id: "C06",
    rule: "files of 1-4 (rarely up to 80) generated instructions, mostly FROM, meaning first and then a random layout; expected AST with all spans by construction; non-trivial if a FROM is present and the file is over 12 bytes or uses continuations, comments or quoting; distinct by text; one case in six damages such text (or puts random text behind the keyword) and compares acceptance and the instructions of this kind with the reference parser",
    f: c06, quick: 3_120_000, thorough: 62_400_000, assumptions: TRUST,
  },
  Prop {
    id: "C07",
    rule: "as C06 for ARG; one case in six is an ARG with text after its name or value, which must be rejected; damaged texts as for C06; non-trivial as C06 or a reject case",
    f: c07, quick: 5_000_000, thorough: 100_000_000, assumptions: TRUST,
  },
  Prop { id: "C08", rule: "as C06 for COPY", f: c08, quick: 2_210_000, thorough: 44_200_000, assumptions: TRUST },
  Prop { id: "C09", rule: "as C06 for LABEL in pair and single form", f: c09, quick: 3_210_000, thorough: 64_200_000, assumptions: TRUST },
  Prop { id: "C10", rule: "as C06 for ENV in pair, single quoted and single multi-line form", f: c10, quick: 3_330_000, thorough: 66_600_000, assumptions: TRUST },
  Prop { id: "C11", rule: "as C06 for shell-form RUN, CMD, ENTRYPOINT", f: c11, quick: 2_730_000, thorough: 54_600_000, assumptions: TRUST },
  Prop {
    id: "C12",
    rule: "as C06 for exec-form RUN, CMD, ENTRYPOINT; one case in six is a list that is no exec array and must be shell form",
    f: c12, quick: 3_910_000, thorough: 78_200_000, assumptions: TRUST,
  },
  Prop {
    id: "C13",
    rule: "as C06 for unknown instruction words, many of them near known keywords; one case in three checks the kinds of a mixed file of known instructions in random letter case",
    f: c13, quick: 2_650_000, thorough: 53_000_000, assumptions: TRUST,
  },
  Prop {
    id: "C21",
    rule: "FROM image with a digest: 64 random hex digits, mutated 0-2 times (characters, length, algorithm, all-but-one wrong), among flags, aliases and lines repeating parts of it; every case is non-trivial; distinct by text",
    f: c21, quick: 6_000_000, thorough: 120_000_000, assumptions: &["digest predicate written from the property text"],
  },
];
