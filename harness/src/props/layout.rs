//! C14 layout insensitivity, C15 concatenation.

use super::Prop;
use crate::astio::{meaning, shifted};
use crate::gen::{self, Piece, Sem, ALL_KINDS};
use crate::tape::{Ctx, Src, R};
use crate::textgen;
use dockerfile_parser::*;

/// The same meaning with other comment lines inside commands.
fn recomment(s: &mut Src, m: &Sem) -> Sem {
  let re = |s: &mut Src, ps: &[Piece]| -> Vec<Piece> {
    let mut v = Vec::new();
    for p in ps {
      if let Piece::Line(_) = p {
        if !v.is_empty() && s.chance(1, 4) {
          for _ in 0..=s.small(2) {
            v.push(Piece::Comment(s.pick(&["#", "# c", "# RUN x \\", "#\"", "# ]", "#\t#"]).to_string()));
          }
        }
        v.push(p.clone());
      }
    }
    v
  };
  match m {
    Sem::Shell(k, ps) => Sem::Shell(*k, re(s, ps)),
    Sem::EnvLines(k, ps) => Sem::EnvLines(k.clone(), re(s, ps)),
    Sem::Misc(w, ps) => Sem::Misc(w.clone(), re(s, ps)),
    x => x.clone(),
  }
}

fn c14(s: &mut Src, c: &mut Ctx) -> R {
  let ms = gen::sems(s, &ALL_KINDS, 1, 4);
  let la = gen::lay(s);
  let a = gen::render(s, &ms, la);
  let ms2: Vec<Sem> = ms.iter().map(|m| recomment(s, m)).collect();
  let lb = gen::lay(s);
  let b = gen::render(s, &ms2, lb);
  c.input = format!("{}\u{2404}{}", a.text, b.text);
  c.nontrivial = a.text != b.text;
  c.tag_if(la.nl != lb.nl, "different line ends");
  c.tag_if(a.continuations != b.continuations, "different continuations");
  c.tag_if(a.comments != b.comments, "different comments");
  c.tag_if(a.quoted != b.quoted, "different quoting");
  c.tag_if(a.text.ends_with(['\n', '\r']) != b.text.ends_with(['\n', '\r']), "different final newline");
  let pa = Dockerfile::parse(&a.text).map_err(|e| format!("rejected: {:?}: {}", a.text, e))?;
  let pb = Dockerfile::parse(&b.text).map_err(|e| format!("rejected: {:?}: {}", b.text, e))?;
  let ma: Vec<Instruction> = pa.instructions.iter().map(meaning).collect();
  let mb: Vec<Instruction> = pb.instructions.iter().map(meaning).collect();
  ensure!(ma == mb, "two layouts of the same file differ:\n {:?}\n {:?}\n first:  {:?}\n second: {:?}", a.text, b.text, ma, mb);
  ensure!(ma.len() == ms.len(), "{} instructions written, {} parsed: {:?}", ms.len(), ma.len(), a.text);
  let ga: Vec<&ArgInstruction> = pa.global_args.iter().collect();
  ensure!(ga.len() == pb.global_args.len(), "global args differ between layouts {:?} {:?}", a.text, b.text);
  Ok(())
}

/// For a text without quote characters: nothing in it can reach into what follows.
fn closed(t: &str, d: &Dockerfile) -> bool {
  let end = d.instructions.last().map_or(0, |i| i.span().end);
  if d.instructions.is_empty() {
    return true;
  }
  // its last line is no continuation's comment or blank line and has no backslash at its end
  let line = t[..end].rsplit(['\n', '\r']).next().unwrap_or("").trim_matches([' ', '\t']);
  !line.is_empty() && !line.starts_with('#') && !line.ends_with('\\')
}

fn c15(s: &mut Src, c: &mut Ctx) -> R {
  let n = 2 + s.small(3);
  let mut text = String::new();
  let mut want: Vec<Instruction> = Vec::new();
  let mut globals: Vec<ArgInstruction> = Vec::new();
  let mut froms = 0;
  let mut parts = 0;
  let mut last: Option<Sem> = None;
  let any = s.chance(1, 3);
  c.tag_if(any, "arbitrary parts");
  // many parts of an instruction or two
  let short = !any && s.chance(1, 3);
  let n = if short { n + s.small(6) } else { n };
  for i in 0..n {
    let part = if any {
      loop {
        let t = textgen::any(s).replace(['"', '\'', '`'], "");
        if Dockerfile::parse(&t).map_or(false, |d| i + 1 == n || closed(&t, &d)) {
          break t;
        }
        if s.chance(1, 4) {
          break String::new();
        }
      }
    } else {
      let usual = if short { 1 } else { 3 };
      let mut ms = gen::sems(s, &ALL_KINDS, short as u32, usual);
      if let (Some(l), true) = (&last, s.chance(1, 4)) {
        // begins like the part before it ended
        let m = gen::like(s, l);
        ms.insert(0, m);
        c.tag("a part begins like the one before ended");
      }
      last = ms.last().cloned().or(last);
      let l = gen::lay(s);
      gen::render(s, &ms, l).text
    };
    if i > 0 {
      text.push_str(s.pick::<&str>(&["\n", "\n", "\r\n"]));
    }
    let at = text.len();
    text.push_str(&part);
    let d = Dockerfile::parse(&part).map_err(|e| format!("rejected: {:?}: {}", part, e))?;
    if froms == 0 {
      for g in &d.global_args {
        match shifted(&Instruction::Arg(g.clone()), at, 0) {
          Instruction::Arg(g) => globals.push(g),
          _ => unreachable!(),
        }
      }
    }
    let here = d.instructions.iter().filter(|i| i.as_from().is_some()).count();
    parts += (!d.instructions.is_empty()) as u32;
    want.extend(d.instructions.iter().map(|i| shifted(i, at, froms)));
    froms += here;
  }
  c.input = text.clone();
  c.nontrivial = parts > 1;
  c.tag_if(parts > 1, "several non-empty parts");
  c.tag_if(parts > 2, "three or more non-empty parts");
  c.tag_if(froms > 1, "several FROMs");
  let d = Dockerfile::parse(&text).map_err(|e| format!("joined file rejected: {:?}: {}", text, e))?;
  ensure!(
    d.instructions == want,
    "joined file {:?}\n parts:  {:?}\n joined: {:?}",
    text,
    want,
    d.instructions
  );
  ensure!(d.global_args == globals, "global args of the joined file {:?}: {:?} instead of {:?}", text, d.global_args, globals);
  ensure!(d.content == text, "content of {:?}", text);
  Ok(())
}

pub const PROPS: &[Prop] = &[
  Prop {
    id: "C14",
    rule: "one random meaning of 1-5 instructions rendered twice with independent random layouts (and other comment lines inside commands); non-trivial if the two texts differ; distinct by text pair",
    f: c14, quick: 1_530_000, thorough: 30_600_000,
    assumptions: &["renderings come from the generator's notion of layout; command line pieces keep their exact text"],
  },
  Prop {
    id: "C15",
    rule: "2-5 generated files (one case in three: arbitrary accepted texts without quote characters) joined by line breaks, a part sometimes beginning like the one before ended, each parsed alone and together; non-trivial if at least two have instructions; distinct by text",
    f: c15, quick: 1_020_000, thorough: 20_400_000,
    assumptions: &["parts are generated valid files, none ending in an open continuation or quotation"],
  },
];
