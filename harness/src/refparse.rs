//! Reference parser: the supported Dockerfile syntax, written by hand as loops
//! over bytes, independent of pest, the grammar file and the code under test.
//! It yields the library's own AST types so that results compare with `==`.

use dockerfile_parser::*;

#[derive(Debug, Clone, PartialEq)]
pub enum Rej {
  /// not a sequence of supported lines
  Syntax,
  /// a quoted string with a wrong escape
  Escape,
  /// FROM digest
  Digest,
}

#[derive(Debug, Clone, PartialEq)]
pub struct Doc {
  pub instructions: Vec<Instruction>,
  pub global_args: Vec<ArgInstruction>,
}

type Res<T> = Result<T, Rej>;

fn sp(a: usize, b: usize) -> Span {
  Span::new(a, b)
}

/// Decodes the inside of a quoted string; None if an escape is wrong.
pub fn decode_quoted(s: &str) -> Option<String> {
  let mut it = s.chars();
  let q = it.next()?;
  if !matches!(q, '"' | '\'' | '`') {
    return None;
  }
  let v: Vec<char> = it.collect();
  if v.last() != Some(&q) {
    return None;
  }
  let v = &v[..v.len() - 1];
  let mut o = String::new();
  let mut i = 0;
  while i < v.len() {
    let c = v[i];
    i += 1;
    if c == q {
      return None;
    }
    if c != '\\' {
      o.push(c);
      continue;
    }
    let e = *v.get(i)?;
    i += 1;
    let take = |i: &mut usize, n: usize| -> String {
      let t: String = v[(*i).min(v.len())..(*i + n).min(v.len())].iter().collect();
      *i += n;
      // a truncated escape is wrong
      if t.chars().count() < n {
        "?".into()
      } else {
        t
      }
    };
    o.push(match e {
      '\\' | '"' | '\'' | '`' => e,
      'a' => '\u{7}',
      'b' => '\u{8}',
      'f' => '\u{c}',
      'n' => '\n',
      'r' => '\r',
      't' => '\t',
      'v' => '\u{b}',
      '0'..='9' => {
        let t = format!("{}{}", e, take(&mut i, 2));
        u8::from_str_radix(&t, 8).ok()? as char
      }
      'x' => u8::from_str_radix(&take(&mut i, 2), 16).ok()? as char,
      'u' => char::from_u32(u32::from_str_radix(&take(&mut i, 4), 16).ok()?)?,
      'U' => char::from_u32(u32::from_str_radix(&take(&mut i, 8), 16).ok()?)?,
      _ => return None,
    });
  }
  Some(o)
}

/// Removes each backslash + line break.
pub fn strip_breaks(s: &str) -> String {
  let b = s.as_bytes();
  let mut o = String::new();
  let mut i = 0;
  let mut from = 0;
  while i < b.len() {
    if b[i] == b'\\' && i + 1 < b.len() && (b[i + 1] == b'\n' || b[i + 1] == b'\r') {
      o.push_str(&s[from..i]);
      i += if s[i + 1..].starts_with("\r\n") { 3 } else { 2 };
      from = i;
    } else {
      i += 1;
    }
  }
  o.push_str(&s[from..]);
  o
}

/// Content of a raw-or-quoted token.
pub fn token_content(s: &str) -> Option<String> {
  if s.starts_with(['"', '\'', '`']) {
    decode_quoted(s)
  } else {
    Some(s.to_string())
  }
}

pub fn digest_ok(hash: &str) -> bool {
  match hash.strip_prefix("sha256:") {
    Some(h) => h.len() == 64 && h.bytes().all(|b| b.is_ascii_hexdigit()),
    None => false,
  }
}

pub struct P<'a> {
  pub s: &'a str,
  b: &'a [u8],
}

impl<'a> P<'a> {
  pub fn new(s: &'a str) -> P<'a> {
    P { s, b: s.as_bytes() }
  }

  fn at(&self, i: usize) -> Option<u8> {
    self.b.get(i).copied()
  }
  /// end of a line break at i
  pub fn nl(&self, i: usize) -> Option<usize> {
    match self.at(i) {
      Some(b'\n') => Some(i + 1),
      Some(b'\r') => Some(if self.at(i + 1) == Some(b'\n') { i + 2 } else { i + 1 }),
      _ => None,
    }
  }
  pub fn is_ws(&self, i: usize) -> bool {
    matches!(self.at(i), Some(b' ') | Some(b'\t'))
  }
  pub fn ws(&self, mut i: usize) -> usize {
    while self.is_ws(i) {
      i += 1;
    }
    i
  }
  /// end of backslash + blanks + line break at i
  pub fn cont(&self, i: usize) -> Option<usize> {
    if self.at(i) != Some(b'\\') {
      return None;
    }
    self.nl(self.ws(i + 1))
  }
  fn next(&self, i: usize) -> usize {
    i + self.s[i..].chars().next().map_or(0, |c| c.len_utf8())
  }
  pub fn line_end(&self, mut i: usize) -> usize {
    while i < self.b.len() && self.nl(i).is_none() {
      i += 1;
    }
    i
  }
  /// blanks, continuations, and the comment and blank lines after those
  pub fn gap(&self, i: usize) -> usize {
    let mut i = i;
    loop {
      if self.is_ws(i) {
        i += 1;
      } else if let Some(j) = self.cont(i) {
        i = j;
        loop {
          let k = self.ws(i);
          if self.at(k) == Some(b'#') {
            let e = self.line_end(k);
            i = self.nl(e).unwrap_or(e);
          } else if let Some(e) = self.nl(k) {
            i = e;
          } else {
            break;
          }
        }
      } else {
        return i;
      }
    }
  }
  fn gap1(&self, i: usize) -> Option<usize> {
    let j = self.gap(i);
    if j > i {
      Some(j)
    } else {
      None
    }
  }
  /// like gap1, but must be followed by something `f` accepts at its end
  fn word(&self, i: usize, w: &str) -> Option<usize> {
    let e = i + w.len();
    if e <= self.b.len() && self.b[i..e].eq_ignore_ascii_case(w.as_bytes()) {
      Some(e)
    } else {
      None
    }
  }
  fn run_of(&self, i: usize, f: impl Fn(u8) -> bool) -> Option<usize> {
    let mut j = i;
    while j < self.b.len() && f(self.b[j]) {
      j += 1;
    }
    if j > i {
      Some(j)
    } else {
      None
    }
  }
  /// up to blank, continuation, line break or end
  pub fn token(&self, i: usize) -> Option<usize> {
    let mut j = i;
    while j < self.b.len() && !self.is_ws(j) && self.nl(j).is_none() && self.cont(j).is_none() {
      j = self.next(j);
    }
    if j > i {
      Some(j)
    } else {
      None
    }
  }
  fn label_name(&self, i: usize) -> Option<usize> {
    let mut j = i;
    while j < self.b.len() && !self.is_ws(j) && self.nl(j).is_none() && self.at(j) != Some(b'=') {
      j = self.next(j);
    }
    if j > i {
      Some(j)
    } else {
      None
    }
  }
  /// a complete quoted string
  pub fn string(&self, i: usize) -> Option<usize> {
    let q = self.at(i)?;
    if q != b'"' && q != b'\'' {
      return None;
    }
    let mut j = i + 1;
    loop {
      let c = self.at(j)?;
      if c == q {
        return Some(j + 1);
      }
      if c == 0 || c == 0x1f {
        return None;
      }
      if c == b'\\' {
        j += 1;
        match self.at(j) {
          Some(b'b') | Some(b't') | Some(b'n') | Some(b'f') | Some(b'r') | Some(b'"') | Some(b'\\') | Some(b'\'') => j += 1,
          _ => {}
        }
      } else {
        j = self.next(j);
      }
    }
  }
  fn spanned(&self, a: usize, b: usize) -> Res<SpannedString> {
    Ok(SpannedString { span: sp(a, b), content: token_content(&self.s[a..b]).ok_or(Rej::Escape)? })
  }
  fn raw(&self, a: usize, b: usize) -> SpannedString {
    SpannedString { span: sp(a, b), content: self.s[a..b].to_string() }
  }

  /// A possibly multi-line string from i; None if nothing is there. What is on
  /// the instruction's own line is content even if it starts with '#'.
  pub fn breakable(&self, i: usize) -> Option<(usize, BreakableString)> {
    let mut out = BreakableString::new((i, i));
    let mut pos = i;
    loop {
      let k = self.ws(pos);
      if pos > i && self.at(k) == Some(b'#') {
        let e = self.line_end(k);
        out.components.push(SpannedComment { span: sp(k, e), content: self.s[k..e].to_string() }.into());
        pos = self.nl(e).unwrap_or(e);
        // continues if anything is there
        if self.piece(pos).is_none() && self.at(self.ws(pos)) != Some(b'#') {
          break;
        }
        continue;
      }
      let e = match self.piece(pos) {
        Some(e) => e,
        None => break,
      };
      out.components.push(self.raw(pos, e).into());
      pos = e;
      match self.cont(e) {
        Some(n) if self.piece(n).is_some() || self.at(self.ws(n)) == Some(b'#') => pos = n,
        _ => break,
      }
    }
    if out.components.is_empty() {
      return None;
    }
    out.span = sp(i, pos);
    Some((pos, out))
  }
  /// one line's worth of content
  fn piece(&self, i: usize) -> Option<usize> {
    let mut j = i;
    while j < self.b.len() && self.nl(j).is_none() && self.cont(j).is_none() {
      j = self.next(j);
    }
    if j > i {
      Some(j)
    } else {
      None
    }
  }

  /// exec array: end and element ranges
  fn array(&self, i: usize) -> Option<(usize, Vec<(usize, usize)>)> {
    if self.at(i) != Some(b'[') {
      return None;
    }
    let empty = || -> Option<(usize, Vec<(usize, usize)>)> {
      let j = self.gap(i + 1);
      if self.at(j) == Some(b']') {
        Some((j + 1, vec![]))
      } else {
        None
      }
    };
    let mut v = Vec::new();
    let a = self.gap(i + 1);
    let mut j = match self.string(a) {
      Some(e) => e,
      None => return empty(),
    };
    v.push((a, j));
    loop {
      let c = self.gap(j);
      if self.at(c) != Some(b',') {
        break;
      }
      let a = self.gap(c + 1);
      match self.string(a) {
        Some(e) => {
          v.push((a, e));
          j = e;
        }
        None => break,
      }
    }
    if self.at(j) == Some(b',') {
      j += 1;
    }
    let j = self.gap(j);
    if self.at(j) == Some(b']') {
      Some((j + 1, v))
    } else {
      None
    }
  }

  fn flag(&self, i: usize) -> Option<(usize, (usize, usize), (usize, usize))> {
    let n = i + 2;
    if !self.s[i..].starts_with("--") {
      return None;
    }
    let ne = self.run_of(n, |c| c.is_ascii_alphabetic())?;
    if self.at(ne) != Some(b'=') {
      return None;
    }
    let ve = self.token(ne + 1)?;
    Some((ve, (n, ne), (ne + 1, ve)))
  }

  fn from(&self, i: usize) -> Option<(usize, Res<Instruction>)> {
    let mut pos = self.word(i, "from")?;
    let mut flags = Vec::new();
    while let Some(a) = self.gap1(pos) {
      match self.flag(a) {
        Some((e, n, v)) => {
          flags.push((a, e, n, v));
          pos = e;
        }
        None => break,
      }
    }
    let a = self.gap1(pos)?;
    let e = self.run_of(a, |c| c.is_ascii_alphanumeric() || b"_-.:/${}@".contains(&c))?;
    let mut end = e;
    let mut alias = None;
    if let Some(k) = self.gap1(e).and_then(|k| self.word(k, "as")) {
      if let Some(x) = self.gap1(k) {
        if let Some(y) = self.run_of(x, |c| c.is_ascii_alphanumeric() || c == b'_' || c == b'-') {
          alias = Some((x, y));
          end = y;
        }
      }
    }
    let build = || -> Res<Instruction> {
      let image = self.raw(a, e);
      let image_parsed = crate::refmodel::decompose(&image.content);
      let mut fl = Vec::new();
      for (a, e, n, v) in &flags {
        fl.push(FromFlag { span: sp(*a, *e), name: self.raw(n.0, n.1), value: self.spanned(v.0, v.1)? });
      }
      if let Some(h) = &image_parsed.hash {
        if !digest_ok(h) {
          return Err(Rej::Digest);
        }
      }
      Ok(Instruction::From(FromInstruction {
        span: sp(i, end),
        flags: fl,
        image,
        image_parsed,
        index: 0,
        alias: alias.map(|(x, y)| self.raw(x, y)),
      }))
    };
    Some((end, build()))
  }

  fn arg(&self, i: usize) -> Option<(usize, Res<Instruction>)> {
    let k = self.word(i, "arg")?;
    let a = self.gap1(k)?;
    if !self.at(a)?.is_ascii_alphabetic() {
      return None;
    }
    let e = self.run_of(a, |c| c.is_ascii_alphanumeric() || c == b'_')?;
    let mut end = e;
    let mut val = None;
    if self.at(e) == Some(b'=') {
      if let Some(v) = self.string(e + 1).or_else(|| self.token(e + 1)) {
        val = Some((e + 1, v));
        end = v;
      }
    }
    let build = || -> Res<Instruction> {
      Ok(Instruction::Arg(ArgInstruction {
        span: sp(i, end),
        name: self.raw(a, e),
        value: match val {
          Some((x, y)) => Some(self.spanned(x, y)?),
          None => None,
        },
      }))
    };
    Some((end, build()))
  }

  fn copy(&self, i: usize) -> Option<(usize, Res<Instruction>)> {
    let mut pos = self.word(i, "copy")?;
    let mut flags = Vec::new();
    while let Some(a) = self.gap1(pos) {
      match self.flag(a) {
        Some((e, n, v)) => {
          flags.push((a, e, n, v));
          pos = e;
        }
        None => break,
      }
    }
    let mut paths = Vec::new();
    while let Some(a) = self.gap1(pos) {
      match self.token(a) {
        Some(e) => {
          paths.push((a, e));
          pos = e;
        }
        None => break,
      }
    }
    if paths.len() < 2 {
      return None;
    }
    let build = || -> Res<Instruction> {
      let mut fl = Vec::new();
      for (a, e, n, v) in &flags {
        fl.push(CopyFlag { span: sp(*a, *e), name: self.raw(n.0, n.1), value: self.spanned(v.0, v.1)? });
      }
      let mut ps = Vec::new();
      for (a, e) in &paths {
        ps.push(self.spanned(*a, *e)?);
      }
      let destination = ps.pop().unwrap();
      Ok(Instruction::Copy(CopyInstruction { span: sp(i, pos), flags: fl, sources: ps, destination }))
    };
    Some((pos, build()))
  }

  /// a label part: range and whether it is a proper quoted string
  fn label_part(&self, a: usize, e: usize, quoted: bool) -> Res<SpannedString> {
    if quoted {
      let t = strip_breaks(&self.s[a..e]);
      Ok(SpannedString { span: sp(a, e), content: decode_quoted(&t).ok_or(Rej::Escape)? })
    } else {
      self.spanned(a, e)
    }
  }
  fn str_or(&self, i: usize, alt: impl Fn(usize) -> Option<usize>) -> Option<(usize, bool)> {
    match self.string(i) {
      Some(e) => Some((e, true)),
      None => alt(i).map(|e| (e, false)),
    }
  }

  fn label(&self, i: usize) -> Option<(usize, Res<Instruction>)> {
    let k = self.word(i, "label")?;
    let a = self.gap1(k)?;
    // "name value"
    let single = || -> Option<(usize, Res<Instruction>)> {
      let (ne, nq) = self.str_or(a, |i| self.label_name(i))?;
      let v = self.gap1(ne)?;
      let (ve, vq) = self.str_or(v, |i| self.token(i))?;
      let build = || -> Res<Instruction> {
        let name = self.label_part(a, ne, nq)?;
        let value = self.label_part(v, ve, vq)?;
        Ok(Instruction::Label(LabelInstruction {
          span: sp(i, ve),
          labels: vec![Label { span: sp(k, ve), name, value }],
        }))
      };
      Some((ve, build()))
    };
    if let Some(r) = single() {
      return Some(r);
    }
    let mut pos = k;
    let mut labels: Vec<Res<Label>> = Vec::new();
    while let Some(a) = self.gap1(pos) {
      pos = a;
      if let Some((ne, nq)) = self.str_or(a, |i| self.label_name(i)) {
        if self.at(ne) == Some(b'=') {
          if let Some((ve, vq)) = self.str_or(ne + 1, |i| self.token(i)) {
            labels.push(self.label_part(a, ne, nq).and_then(|name| {
              Ok(Label { span: sp(a, ve), name, value: self.label_part(ne + 1, ve, vq)? })
            }));
            pos = ve;
          }
        }
      }
    }
    let l: Res<Vec<Label>> = labels.into_iter().collect();
    Some((pos, l.map(|labels| Instruction::Label(LabelInstruction { span: sp(i, pos), labels }))))
  }

  fn env(&self, i: usize) -> Option<(usize, Res<Instruction>)> {
    let k = self.word(i, "env")?;
    let a = self.gap1(k)?;
    let ident = |a: usize| self.run_of(a, |c| c.is_ascii_alphanumeric() || c == b'_');
    // "key value..."
    let single = || -> Option<(usize, Res<Instruction>)> {
      let ne = ident(a)?;
      let v = self.gap1(ne)?;
      let (end, value) = match self.string(v) {
        Some(e) => (
          e,
          decode_quoted(&self.s[v..e]).ok_or(Rej::Escape).map(|t| BreakableString::new((v, e)).add_string((v, e), t)),
        ),
        None => {
          let (e, b) = self.breakable(v)?;
          (e, Ok(b))
        }
      };
      Some((
        end,
        value.map(|value| {
          Instruction::Env(EnvInstruction {
            span: sp(i, end),
            vars: vec![EnvVar { span: sp(a, end), key: self.raw(a, ne), value }],
          })
        }),
      ))
    };
    if let Some(r) = single() {
      return Some(r);
    }
    let mut pos = k;
    let mut vars: Vec<Res<EnvVar>> = Vec::new();
    while let Some(a) = self.gap1(pos) {
      pos = a;
      if let Some(ne) = ident(a) {
        if self.at(ne) == Some(b'=') {
          if let Some((ve, vq)) = self.str_or(ne + 1, |i| self.token(i)) {
            let t = &self.s[ne + 1..ve];
            let c = if vq { decode_quoted(t) } else { Some(t.to_string()) };
            vars.push(c.ok_or(Rej::Escape).map(|c| EnvVar {
              span: sp(a, ve),
              key: self.raw(a, ne),
              value: BreakableString::new((ne + 1, ve)).add_string((ne + 1, ve), c),
            }));
            pos = ve;
          }
        }
      }
    }
    let v: Res<Vec<EnvVar>> = vars.into_iter().collect();
    Some((pos, v.map(|vars| Instruction::Env(EnvInstruction { span: sp(i, pos), vars }))))
  }

  fn shell_or_exec(
    &self,
    i: usize,
    w: &str,
    mk: fn(Span, ShellOrExecExpr) -> Instruction,
  ) -> Option<(usize, Res<Instruction>)> {
    let k = self.word(i, w)?;
    let a = self.gap1(k)?;
    if let Some((e, els)) = self.array(a) {
      let elements: Res<Vec<SpannedString>> = els.into_iter().map(|(x, y)| self.spanned(x, y)).collect();
      return Some((
        e,
        elements.map(|elements| mk(sp(i, e), ShellOrExecExpr::Exec(StringArray { span: sp(a, e), elements }))),
      ));
    }
    let (e, b) = self.breakable(a)?;
    Some((e, Ok(mk(sp(i, e), ShellOrExecExpr::Shell(b)))))
  }

  fn misc(&self, i: usize) -> Option<(usize, Res<Instruction>)> {
    let k = self.run_of(i, |c| c.is_ascii_alphabetic())?;
    let (e, arguments) = self.breakable(k)?;
    Some((
      e,
      Ok(Instruction::Misc(MiscInstruction { span: sp(i, e), instruction: self.raw(i, k), arguments })),
    ))
  }

  pub fn instruction(&self, i: usize) -> Option<(usize, Res<Instruction>)> {
    self
      .from(i)
      .or_else(|| {
        self.shell_or_exec(i, "run", |span, expr| Instruction::Run(RunInstruction { span, expr }))
      })
      .or_else(|| self.arg(i))
      .or_else(|| self.label(i))
      .or_else(|| self.copy(i))
      .or_else(|| {
        self.shell_or_exec(i, "entrypoint", |span, expr| {
          Instruction::Entrypoint(EntrypointInstruction { span, expr })
        })
      })
      .or_else(|| {
        self.shell_or_exec(i, "cmd", |span, expr| Instruction::Cmd(CmdInstruction { span, expr }))
      })
      .or_else(|| self.env(i))
      .or_else(|| self.misc(i))
  }

  /// The start of the first line that is not a well-formed line, if there is one.
  pub fn bad_line(&self) -> Option<usize> {
    let mut pos = 0;
    loop {
      pos = self.ws(pos);
      let start = pos;
      if let Some((e, _)) = self.instruction(pos) {
        pos = e;
      } else if self.at(pos) == Some(b'#') {
        pos = self.line_end(pos);
      }
      pos = self.ws(pos);
      if pos == self.b.len() {
        return None;
      }
      match self.nl(pos) {
        Some(p) => pos = p,
        None => return Some(start),
      }
    }
  }

  pub fn doc(&self) -> Result<Doc, Rej> {
    let mut out: Vec<Res<Instruction>> = Vec::new();
    let mut pos = 0;
    loop {
      pos = self.ws(pos);
      if let Some((e, r)) = self.instruction(pos) {
        out.push(r);
        pos = e;
      } else if self.at(pos) == Some(b'#') {
        pos = self.line_end(pos);
      }
      pos = self.ws(pos);
      if pos == self.b.len() {
        break;
      }
      pos = self.nl(pos).ok_or(Rej::Syntax)?;
    }
    let mut instructions: Vec<Instruction> = out.into_iter().collect::<Res<Vec<_>>>()?;
    let mut n = 0;
    let mut global_args = Vec::new();
    for i in &mut instructions {
      match i {
        Instruction::From(f) => {
          f.index = n;
          n += 1;
        }
        Instruction::Arg(a) if n == 0 => global_args.push(a.clone()),
        _ => {}
      }
    }
    Ok(Doc { instructions, global_args })
  }
}

pub fn parse(s: &str) -> Result<Doc, Rej> {
  P::new(s).doc()
}
