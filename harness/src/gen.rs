//! Constructive generator: a meaning (`Sem`) first, then a rendering of it that
//! also yields the expected AST with every span.

use crate::dict;
use crate::refmodel;
use crate::refparse;
use crate::tape::Src;
use dockerfile_parser::*;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Kind {
  Run,
  Cmd,
  Entrypoint,
}

#[derive(Debug, Clone, PartialEq)]
pub enum Piece {
  Line(String),
  Comment(String),
}

#[derive(Debug, Clone, PartialEq)]
pub enum Sem {
  From { flags: Vec<(String, String)>, image: String, alias: Option<String> },
  Arg { name: String, value: Option<String> },
  Copy { flags: Vec<(String, String)>, paths: Vec<String> },
  Labels(Vec<(String, String)>),
  LabelSingle(String, String),
  Envs(Vec<(String, String)>),
  EnvQuoted(String, String),
  EnvLines(String, Vec<Piece>),
  Shell(Kind, Vec<Piece>),
  Exec(Kind, Vec<String>),
  Misc(String, Vec<Piece>),
}

pub const NKIND: usize = 11;
/// weights per Sem variant, in declaration order
pub const ALL_KINDS: [u32; NKIND] = [14, 10, 10, 10, 4, 10, 4, 7, 14, 9, 8];

pub fn only(kinds: &[usize]) -> [u32; NKIND] {
  let mut w = [0; NKIND];
  for k in kinds {
    w[*k] = 10;
  }
  w
}

// ---------------------------------------------------------------- strings

const ALNUM: &str = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789";
const PUNCT: &str = "-_./:,;(){}[]<>|&$%@!?*+~^=#";
const ODD: &[char] = &[
  'é', 'ß', '中', '😀', '\u{301}', '\u{feff}', '\u{2028}', '\u{85}', '\u{a0}', '\u{3000}', '\u{7f}', '\u{1}', '\u{fffd}',
  '\u{10ffff}', '\u{b}', '\u{c}', '\u{1b}', 'ſ', 'K', '\u{200b}', '\u{d7ff}', '\u{e000}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}',
  '\u{10000}', '\u{8}', '\u{7}', '\u{0}', '\u{1f}', '\u{1e}', '\u{20}',
];

fn pick_char(s: &mut Src, pool: &str) -> char {
  // pools are ASCII
  let b = pool.as_bytes();
  b[s.below(b.len() as u32) as usize] as char
}

/// One character of ever stranger kind with `level`.
fn ch(s: &mut Src, level: u32) -> char {
  match s.weighted(&[20, [0, 6, 8, 8][level as usize], [0, 0, 3, 4][level as usize], [0, 0, 0, 4][level as usize]]) {
    0 => pick_char(s, ALNUM),
    1 => pick_char(s, PUNCT),
    2 => *s.pick(&['\\', '"', '\'', '`']),
    _ => match s.below(8) {
      7 => match dict::char(s) {
        '\n' | '\r' => 'n',
        c => c,
      },
      _ => *s.pick(ODD),
    },
  }
}

fn level(s: &mut Src) -> u32 {
  s.weighted(&[8, 6, 4, 4]) as u32
}

/// How long things get; a few cases are much larger.
fn length(s: &mut Src, max: u32, big: u32) -> u32 {
  match if big > 0 { s.below(750) } else { 0 } {
    742..=746 => {
      if let Some(n) = dict::count(s) {
        return n;
      }
    }
    747.. => {
      // beyond 16 bits for texts that may be that long
      if big >= 3000 && s.chance(1, 400) {
        return s.range(65_000, 67_000);
      }
      return s.range(1, big);
    }
    _ => {}
  }
  s.small(max - 1) + 1
}

const WORDS: &[&str] = &[
  "a", "as", "AS", "FROM", "from", "RUN", "--from=x", "-", "--", "--x", "[", "]", "[]", "a=b", "=", "$X", "${X}", "#", "#x", "x#y", "\\n", "a\\b", "\\",
  "a\"b", "a'b", "scratch", "/", ".", "..", "*", "key", "value", "ARG", "0", "1", "@", "a@b", ":", "&&", "||", "<<EOF", "%20", "true", "\\\\", "a\\", "{}", "\u{feff}x", "ENV=1", "C:\\x", "~", "<<-\"EOF\"", "EOF", "latest", "null", "None", "-1", "65536", "18446744073709551616", "$$", "\\$X", "${X:-y}", "$(x)", "`x`", "%PATH%", "../..", "//", "a//b", "http://a.b/c?d=e&f#g", "''", "a''b", "key=", "=value", "==", "as=as", "AS=1", "--from", "--from=", "[\"a\"]", ",", "a,b", "\\\"", "\\x41", "\\u0041", "e\u{301}", "ﬀ",
];

/// A raw token: no blanks or line breaks, not starting like a quoted string,
/// not ending in a backslash.
pub fn token(s: &mut Src) -> String {
  let mut t = match dict::hint(s) {
    Some(t) => t,
    None if s.chance(6, 26) => s.pick(WORDS).to_string(),
    None => {
      let l = level(s);
      let n = length(s, 10, 3000);
      (0..n).map(|_| ch(s, l)).collect::<String>()
    }
  };
  t.retain(|c| !matches!(c, ' ' | '\t' | '\n' | '\r'));
  while t.starts_with(['"', '\'', '`']) {
    t.remove(0);
  }
  while t.ends_with('\\') {
    t.pop();
  }
  if t.is_empty() {
    t.push('x');
  }
  dict::keep(s, &t);
  t
}

pub fn rawable(t: &str) -> bool {
  !t.is_empty()
    && !t.contains([' ', '\t', '\n', '\r'])
    && !t.starts_with(['"', '\'', '`'])
    && !t.ends_with('\\')
}

/// Any text at all, for quoted positions.
pub fn value(s: &mut Src) -> String {
  match s.weighted(&[8, 8, 1]) {
    0 => {
      let mut t = token(s);
      if s.chance(1, 25) {
        t.push_str(s.pick::<&str>(&["\\", "\\\\", "\\\\\\"]));
      }
      t
    }
    1 => {
      if let Some(t) = dict::hint(s) {
        return t;
      }
      let l = level(s);
      let n = s.small(14);
      let t: String = (0..n)
        .map(|_| match s.weighted(&[12, 3, 1]) {
          0 => ch(s, l),
          1 => ' ',
          _ => *s.pick(&['\n', '\t', '\r', '"', '\'', '\\', '\0', '\u{1f}']),
        })
        .collect();
      dict::keep(s, &t);
      t
    }
    _ => String::new(),
  }
}

pub fn ident(s: &mut Src) -> String {
  if let Some(mut w) = dict::hint(s) {
    w.retain(|c| c.is_ascii_alphanumeric() || c == '_');
    if !w.is_empty() {
      return w;
    }
  }
  let n = length(s, 8, 400);
  let mut t: String = (0..n).map(|_| pick_char(s, "abcxyzABCXYZ_0123456789")).collect();
  if s.chance(3, 36) {
    t = s.pick(&["as", "AS", "from", "FROM", "FOO", "foo", "_", "A", "a"]).to_string();
  }
  dict::keep(s, &t);
  t
}

pub fn arg_name(s: &mut Src) -> String {
  let mut t = ident(s);
  if !t.as_bytes()[0].is_ascii_alphabetic() {
    t.insert(0, 'v');
  }
  t
}

fn alpha(s: &mut Src) -> String {
  if let Some(mut w) = dict::hint(s) {
    w.retain(|c| c.is_ascii_alphabetic());
    if !w.is_empty() {
      return w;
    }
  }
  let n = length(s, 8, 200);
  (0..n).map(|_| pick_char(s, "abcdefgorpltmXYZABMF")).collect()
}

/// Flags for a FROM about which something else is asked: mostly none.
pub fn from_flags(s: &mut Src) -> Vec<(String, String)> {
  if !s.chance(1, 5) {
    return vec![];
  }
  (0..1 + s.small(2)).map(|_| flag(s)).collect()
}

fn flag(s: &mut Src) -> (String, String) {
  if s.chance(1, 8) {
    let (n, v) = *s.pick(&[
      ("platform", "$BUILDPLATFORM"), ("platform", "${TARGETPLATFORM}"), ("platform", "linux/amd64"), ("platform", "linux/arm/v7"), ("platform", "$platform"), ("from", "0"), ("from", "build"), ("from", "alpine:3.10"),
      ("chown", "root:root"), ("chown", "1000:0"), ("chown", ":1"), ("chown", "${UID}"), ("chmod", "755"), ("chmod", "u+x"), ("link", "true"), ("parents", "false"), ("exclude", "*.md"), ("from", "scratch"), ("platform", "scratch"),
    ]);
    return (n.to_string(), v.to_string());
  }
  let name = if s.chance(1, 2) { s.pick(&["from", "platform", "chown", "chmod", "link", "FROM"]).to_string() } else { alpha(s) };
  (name, if s.chance(1, 10) { value(s) } else { token(s) })
}

pub fn hex64(s: &mut Src) -> String {
  if s.chance(1, 8) {
    // well known, or with a known beginning or end
    let known = match s.below(4) {
      0 => "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855".to_string(),
      1 => s.pick::<&str>(&["0", "f", "a", "F", "00", "deadbeef", "0123456789abcdef", "e3", "abc123", "cafe", "1"]).to_string(),
      _ => {
        let mut w = dict::word(s);
        w.retain(|c| c.is_ascii_hexdigit());
        w.truncate(64);
        w
      }
    };
    if !known.is_empty() {
      let n = 64 - known.len();
      let fill: String = match s.below(3) {
        0 => known.chars().cycle().take(n).collect(),
        1 => s.pick::<&str>(&["0", "f", "a"]).repeat(n),
        _ => (0..n).map(|_| pick_char(s, "0123456789abcdefABCDEF")).collect(),
      };
      return if s.bool() { format!("{}{}", known, fill) } else { format!("{}{}", fill, known) };
    }
  }
  (0..64).map(|_| pick_char(s, "0123456789abcdefABCDEF")).collect()
}

pub const IMAGE_CHARS: &str = "abcxyzAZ0189_-.:/${}";

/// An image as people name them: host, port, path, tag, each often there.
pub fn composed(s: &mut Src) -> String {
  let mut t = String::new();
  if s.chance(3, 4) {
    let host = match s.below(4) {
      0 => s
        .pick(&["docker.io", "index.docker.io", "registry-1.docker.io", "registry.hub.docker.com", "ghcr.io", "gcr.io", "eu.gcr.io", "quay.io", "mcr.microsoft.com", "public.ecr.aws", "123456789012.dkr.ecr.us-east-1.amazonaws.com", "myreg.azurecr.io", "registry.gitlab.com", "localhost", "127.0.0.1", "10.0.0.1", "registry", "host.docker.internal"])
        .to_string(),
      _ => {
        let mut h = s.pick::<&str>(&["a", "b", "reg", "registry", "my-host", "x", "Reg", "0"]).to_string();
        for _ in 0..s.below(4) {
          h.push('.');
          h.push_str(s.pick::<&str>(&["a", "b", "c", "io", "com", "example", "local", "1", "internal"]));
        }
        h
      }
    };
    t.push_str(&host);
    if s.bool() {
      t.push_str(s.pick::<&str>(&[":443", ":80", ":5000", ":5001", ":8080", ":8443", ":1", ":0", ":65535", ":65536", ":05000", ":x", ":"]));
    }
    t.push('/');
  }
  for i in 0..1 + s.small(3) {
    if i > 0 {
      t.push('/');
    }
    t.push_str(s.pick::<&str>(&["library", "alpine", "a", "b", "app", "my-app", "my_app", "a__b", "node", "python", "c.d", "v2", "Org", "0", "localhost"]));
  }
  if s.chance(2, 3) {
    t.push(':');
    t.push_str(s.pick::<&str>(&["latest", "1", "1.2", "1.2.3", "3.10-alpine", "v1", "sha-abc123", "LATEST", "edge", "0", "stable", "20201231", "1.0.0_rc1", "$tag", "${a}", ""]));
  }
  t
}

/// An image text FROM accepts.
pub fn image(s: &mut Src) -> String {
  let hint = dict::hint(s);
  let t = match hint {
    Some(mut w) => {
      if s.chance(1, 3) {
        w = format!("{}{}{}", w, s.pick(&["/", ":", ".", "-"]), ident(s));
      }
      w.retain(|c| c.is_ascii_alphanumeric() || "_-.:/${}@".contains(c));
      if w.is_empty() {
        w.push('x');
      }
      w
    }
    None => match s.weighted(&[10, 5, 2, 2, 4]) {
    4 => composed(s),
    0 => s
      .pick(&[
        "alpine", "alpine:3.10", "scratch", "SCRATCH", "ubuntu:18.04", "localhost/foo", "localhost:5000/a/b:c", "example.com/foo/bar:1", "org/img",
        "build", "Build", "0", "1", "as", "$IMG", "${IMG}:tag", "alpine:$TAG", "a.b/c", "host:443/x", "docker.io/library/alpine", "index.docker.io/x", "library/alpine:latest", "localhost/a/b", "LOCALHOST/a", "localhost.x/a", "localhostx/a", "alpine:", ":tag", "a:b:c", "a:b/c:d", "a/b:c/d", "127.0.0.1:5000/x", "ghcr.io/a/b:sha-1", "a:latest", "scratch:latest", "Scratch", "library/scratch", "$a$b", "${a}${b}", "$$a", "${a", "$}", "{a}", "a.b", "./a", "../a", "_", "00", "10", "07", "--platform", "-", ".", ":", "/", "}", "${", "$",
      ])
      .to_string(),
    1 => {
      let n = length(s, 12, 500);
      (0..n).map(|_| pick_char(s, IMAGE_CHARS)).collect()
    }
    2 => {
      let n = s.small(10);
      let head: String = (0..n).map(|_| pick_char(s, IMAGE_CHARS)).collect();
      format!("{}@sha256:{}", head, hex64(s))
    }
    _ => format!("{}{}:{}", s.pick(&["", "localhost/", "a.b:1/", "org/"]), ident(s), ident(s)),
    },
  };
  dict::keep(s, &t);
  match refmodel::decompose(&t).hash {
    Some(h) if !refparse::digest_ok(&h) => t.replace('@', "_"),
    _ => t,
  }
}

pub fn alias(s: &mut Src) -> String {
  if let Some(mut w) = dict::hint(s) {
    w.retain(|c| c.is_ascii_alphanumeric() || "_-".contains(c));
    if !w.is_empty() {
      return w;
    }
  }
  let t = match s.weighted(&[4, 3]) {
    0 => s.pick(&["build", "Build", "BUILD", "base", "0", "1", "2", "7", "42", "007", "scratch", "as", "final-1", "a_b", "-", "_", "--from"]).to_string(),
    _ => {
      let n = length(s, 8, 300);
      (0..n).map(|_| pick_char(s, "abcXYZ_-0189")).collect()
    }
  };
  dict::keep(s, &t);
  t
}

/// Text of one physical line (no line break).
pub fn line_text(s: &mut Src, max: u32) -> String {
  let l = level(s);
  let n = length(s, max, 4000);
  let mut t = String::new();
  for _ in 0..n {
    match s.weighted(&[16, 4, 2]) {
      0 => t.push(ch(s, l)),
      1 => t.push(*s.pick(&[' ', '\t'])),
      _ => match dict::hint(s) {
        Some(w) => t.push_str(&w.replace(['\n', '\r'], " ")),
        None => t.push_str(s.pick::<&str>(WORDS)),
      },
    }
  }
  if max > 1 {
    dict::keep(s, &t);
  }
  t
}

fn comment_text(s: &mut Src) -> String {
  let t = match s.weighted(&[4, 3, 2]) {
    0 => s.pick(&["", " c", "# x", " FROM a", " \\", "\\", " RUN x \\  ", " \"", " [\"a\"", " a=b", "!", " é中", " escape=`", " syntax=docker/dockerfile:1", "syntax=x", " check=skip=all;error=true", " escape = \\", "#", "/"]).to_string(),
    1 => line_text(s, 8),
    _ => String::new(),
  };
  format!("#{}", t)
}

/// How many comment or blank lines in a row.
fn comments(s: &mut Src) -> u32 {
  match s.below(1000) {
    997..=998 => s.range(1, 300),
    999 => dict::count(s).unwrap_or(1).min(8000),
    _ => 1 + s.small(3),
  }
}

/// A command line piece. `first`: directly after the instruction word's gap.
fn piece_text(s: &mut Src, first: bool, last: bool) -> String {
  let mut t = match s.weighted(&[6, 10]) {
    0 => s
      .pick(&[
        "echo hi", "apt-get update", "&& foo", "[ -f x ] && y", "a # not a comment", "x=1", "echo \"a b\"", "'q'", "foo  bar ", "\"", "[", "[ x", "=",
      ])
      .to_string(),
    _ => line_text(s, 14),
  };
  if first {
    t = t.trim_start_matches([' ', '\t']).to_string();
    if t.starts_with('[') {
      t = format!("[ x{}", &t[1..]);
    }
  } else {
    if s.chance(1, 2) {
      t.insert_str(0, s.pick(&["  ", "\t", "    "]));
    }
    let k = t.trim_start_matches([' ', '\t']);
    if k.starts_with('#') {
      t = format!("x{}", t);
    }
  }
  if last {
    while t.trim_end_matches([' ', '\t']).ends_with('\\') {
      t = t.trim_end_matches([' ', '\t']).to_string();
      t.pop();
    }
  }
  if t.is_empty() || (last && t.trim_matches([' ', '\t']).is_empty()) {
    t.push('z');
  }
  t
}

pub fn pieces(s: &mut Src) -> Vec<Piece> {
  let n = match s.weighted(&[80, 80, 8, 1]) {
    0 => 1,
    1 => s.range(2, 7),
    // the parser nests one level per line and stops at some 40 000
    2 => length(s, 30, 700).min(8000),
    _ => dict::count(s).unwrap_or(1).min(8000),
  };
  let mut v = Vec::new();
  for i in 0..n {
    v.push(Piece::Line(piece_text(s, i == 0, i + 1 == n)));
    if i + 1 < n && s.chance(1, 3) {
      for _ in 0..comments(s) {
        v.push(Piece::Comment(comment_text(s)));
      }
    }
  }
  v
}

pub const KNOWN: &[&str] = &["FROM", "ARG", "LABEL", "RUN", "ENTRYPOINT", "CMD", "COPY", "ENV"];

pub fn misc_word(s: &mut Src) -> String {
  let w = match s.weighted(&[5, 4, 3]) {
    0 => s
      .pick(&["ADD", "WORKDIR", "USER", "EXPOSE", "VOLUME", "MAINTAINER", "ONBUILD", "STOPSIGNAL", "HEALTHCHECK", "SHELL", "workdir", "add", "x"])
      .to_string(),
    1 => {
      // near a known keyword
      let k = s.pick(KNOWN).to_string();
      match s.below(4) {
        0 => format!("{}{}", k, s.pick(&["S", "X", "from", "a"])),
        1 => k[..k.len() - 1].to_string(),
        2 => format!("{}{}", s.pick(&["X", "a", "RE"]), k),
        _ => format!("{}{}", k.to_lowercase(), s.pick(&["s", "x"])),
      }
    }
    _ => alpha(s),
  };
  if KNOWN.iter().any(|k| k.eq_ignore_ascii_case(&w)) {
    format!("{}X", w)
  } else {
    w
  }
}

/// Arguments that look like an instruction, a flag or an array themselves.
const ARGS: &[&str] = &[
  "CMD x", "CMD [\"a\"]", "NONE", "none", "--interval=1s CMD y", "--x=y", "RUN y", "run a && b", "[\"a\"]", "[\"a\", \"b\"]", "[]", "COPY a b", "COPY --from=0 a b",
  "ENTRYPOINT [\"e\"]", "ENV a=b", "ENV a b", "ARG a", "ARG a=b", "LABEL a=b", "FROM a", "FROM a AS b", "a=b", "a = b", "--chown=a:b c d", "80/tcp", "80 443", "x", "# c", "\"a\"",
  "\"a\" \"b\"", "'a'", "$x", "${x:-y}", "0", "a b", "/a/b", "AS x", "http://a/b c",
];

const TYPICAL: &[(&str, &str)] = &[
  ("SHELL", "[\"powershell\", \"-Command\"]"), ("SHELL", "[\"/bin/bash\", \"-c\"]"), ("SHELL", "[\"cmd\", \"/S\", \"/C\"]"),
  ("SHELL", "[\"/bin/bash\", \"-o\", \"pipefail\", \"-c\"]"), ("SHELL", "[\"pwsh\"]"), ("SHELL", "[]"),
  ("ONBUILD", "RUN x"), ("ONBUILD", "COPY . /app"), ("ONBUILD", "FROM a"), ("ONBUILD", "ARG a"), ("ONBUILD", "ENV a=b"), ("ONBUILD", "CMD [\"a\"]"),
  ("ONBUILD", "ENTRYPOINT e"), ("ONBUILD", "ONBUILD RUN x"), ("ONBUILD", "USER root"),
  ("HEALTHCHECK", "NONE"), ("HEALTHCHECK", "CMD curl -f http://localhost/"), ("HEALTHCHECK", "--interval=5m --timeout=3s CMD x || exit 1"),
  ("USER", "root"), ("USER", "0"), ("USER", "1000:1000"), ("USER", "nobody"), ("USER", "app:app"), ("USER", "$user"),
  ("WORKDIR", "/"), ("WORKDIR", "/app"), ("WORKDIR", "a/b"), ("WORKDIR", "C:\\app"), ("WORKDIR", "$HOME"), ("WORKDIR", "."), ("WORKDIR", ".."),
  ("VOLUME", "[\"/data\"]"), ("VOLUME", "/a /b"), ("VOLUME", "/var/log"), ("EXPOSE", "80"), ("EXPOSE", "80/tcp 53/udp"), ("EXPOSE", "8000-9000"),
  ("STOPSIGNAL", "9"), ("STOPSIGNAL", "SIGKILL"), ("STOPSIGNAL", "SIGTERM"), ("MAINTAINER", "a b <c@d.e>"), ("MAINTAINER", "x"),
  ("ADD", "a b"), ("ADD", "--chown=a:b a b"), ("ADD", "http://a/b.tar.gz /"), ("ADD", "[\"a\", \"b\"]"), ("ADD", "--from=0 a b"), ("ADD", "a.tar.gz /"),
  ("HEALTH", "x"), ("INCLUDE", "Dockerfile.common"), ("IMPORT", "a"), ("INSTALL", "x y"), ("CACHE", "/root"),
];

fn misc_pieces(s: &mut Src) -> Vec<Piece> {
  if s.chance(1, 5) {
    let mut t = format!("{}{}", s.pick::<&str>(&[" ", " ", "  ", "\t"]), s.pick::<&str>(ARGS));
    if s.chance(1, 5) {
      t.push_str(s.pick::<&str>(&[" ", "  ", "\t", " x", " # c", ","]));
    }
    return vec![Piece::Line(t)];
  }
  let mut v = pieces(s);
  let n = v.len();
  if let Piece::Line(t) = &mut v[0] {
    if s.chance(1, 10) {
      // anything that is not part of the word
      if s.bool() || t.starts_with(|c: char| c.is_ascii_alphabetic()) || t.starts_with([' ', '\t', '#', '\\']) {
        t.insert(0, *s.pick(&['=', ':', '.', '1', '-', '/', '"', '{', '$', 'é', '_', '\'', '[', '@', '\u{c}', '\u{a0}', '\u{0}', '0', '+', ',', '`', 'ſ', '\u{b}']));
      }
    } else {
      t.insert_str(0, s.pick::<&str>(&[" ", "  ", "\t", " \t "]));
    }
    if n > 1 && s.chance(1, 20) {
      *t = " ".into();
    }
  }
  v
}

fn list<T>(s: &mut Src, min: u32, usual: u32, big: u32, f: &mut dyn FnMut(&mut Src) -> T) -> Vec<T> {
  let k = if big > 0 { s.below(400) } else { 0 };
  let n = match k {
    396..=397 => s.range(min, big),
    398..=399 => dict::count(s).unwrap_or(min),
    _ => min + s.small(usual),
  };
  (0..n).map(|_| f(s)).collect()
}

pub fn label_name_ok(t: &str) -> bool {
  rawable(t) && !t.contains('=')
}

pub fn sem(s: &mut Src, w: &[u32; NKIND]) -> Sem {
  let kind = |s: &mut Src| *s.pick(&[Kind::Run, Kind::Cmd, Kind::Entrypoint]);
  match s.weighted(w) {
    0 => Sem::From {
      flags: list(s, 0, 3, 300, &mut flag),
      image: image(s),
      alias: if s.bool() { Some(alias(s)) } else { None },
    },
    1 => Sem::Arg { name: arg_name(s), value: if s.chance(3, 4) { Some(value(s)) } else { None } },
    2 => {
      let flags = list(s, 0, 3, 300, &mut flag);
      let mut paths = list(s, 2, 4, 700, &mut |s| if s.chance(1, 10) { value(s) } else { token(s) });
      if is_flag(&paths[0]) {
        paths[0].insert(0, '/');
      }
      Sem::Copy { flags, paths }
    }
    3 => Sem::Labels(list(s, 1, 4, 600, &mut |s| (label_name(s), value(s)))),
    4 => Sem::LabelSingle(label_name(s), value(s)),
    5 => Sem::Envs(list(s, 1, 4, 600, &mut |s| (ident(s), value(s)))),
    6 => Sem::EnvQuoted(ident(s), value(s)),
    7 => {
      let k = ident(s);
      let mut p = pieces(s);
      env_first(&mut p);
      Sem::EnvLines(k, p)
    }
    8 => {
      let k = kind(s);
      Sem::Shell(k, pieces(s))
    }
    9 => {
      let k = kind(s);
      Sem::Exec(k, list(s, 0, 5, 700, &mut value))
    }
    _ => {
      if s.chance(1, 5) {
        // as people write them
        let (w, a) = *s.pick(TYPICAL);
        let t = format!("{}{}", s.pick::<&str>(&[" ", " ", " ", "  "]), a);
        return Sem::Misc(if s.chance(1, 5) { w.to_lowercase() } else { w.to_string() }, vec![Piece::Line(t)]);
      }
      let p = misc_pieces(s);
      // a known keyword glued to something else is no instruction of its kind
      let glued = matches!(&p[0], Piece::Line(t) if !t.starts_with([' ', '\t']));
      let w = if glued && s.chance(2, 3) { s.pick::<&str>(KNOWN).to_string() } else { misc_word(s) };
      Sem::Misc(w, p)
    }
  }
}

/// A single-form ENV value must not start with a complete quoted string.
fn env_first(p: &mut [Piece]) {
  if let Piece::Line(t) = &mut p[0] {
    if t.starts_with(['"', '\'']) {
      t.insert(0, 'q');
    }
  }
}

fn label_name(s: &mut Src) -> String {
  match s.weighted(&[6, 3, 3]) {
    0 => s.pick(&["a", "com.example.x", "maintainer", "version", "a-b", "a.b/c", "A", "description"]).to_string(),
    1 => token(s),
    _ => value(s),
  }
}

pub fn is_flag(t: &str) -> bool {
  if let Some(r) = t.strip_prefix("--") {
    if let Some(p) = r.find('=') {
      return p > 0 && p + 1 < r.len() && r[..p].bytes().all(|b| b.is_ascii_alphabetic());
    }
  }
  false
}

/// A whole file's meaning.
pub fn sems(s: &mut Src, w: &[u32; NKIND], min: u32, usual: u32) -> Vec<Sem> {
  let n = match s.below(800) {
    797..=798 => s.range(min, 300),
    799 => dict::count(s).unwrap_or(min),
    _ => min + s.small(usual),
  };
  let mut v: Vec<Sem> = Vec::new();
  for _ in 0..n {
    let m = match v.last() {
      // the same again, or nearly so
      Some(p) if s.chance(1, 8) => like(s, &p.clone()),
      _ => sem(s, w),
    };
    v.push(m);
  }
  v
}

/// A repetition of `m`: exact, or the same kind (and keyword) with other contents.
pub fn like(s: &mut Src, m: &Sem) -> Sem {
  let mut n = m.clone();
  if s.bool() {
    return n;
  }
  match &mut n {
    Sem::From { image: i, alias: a, .. } => {
      if s.bool() {
        *i = image(s)
      } else {
        *a = Some(alias(s))
      }
    }
    Sem::Arg { value: v, .. } => *v = if s.bool() { Some(value(s)) } else { None },
    Sem::Copy { paths, .. } => {
      let k = paths.len() - 1;
      paths[k] = token(s);
    }
    Sem::Labels(p) => {
      let k = p.len() - 1;
      p[k].1 = value(s);
    }
    Sem::Envs(p) => {
      let k = p.len() - 1;
      p[k].1 = value(s);
    }
    Sem::LabelSingle(_, v) | Sem::EnvQuoted(_, v) => *v = value(s),
    Sem::EnvLines(_, p) => {
      *p = pieces(s);
      env_first(p);
    }
    Sem::Shell(_, p) => *p = pieces(s),
    Sem::Exec(_, e) => e.push(value(s)),
    Sem::Misc(_, p) => {
      let keep = matches!(&p[0], Piece::Line(t) if !t.starts_with([' ', '\t']));
      if !keep {
        *p = pieces(s);
        if let Piece::Line(t) = &mut p[0] {
          t.insert(0, ' ');
        }
      }
    }
  }
  n
}

// ---------------------------------------------------------------- quoting

#[derive(Clone, Copy, PartialEq)]
pub enum Q {
  /// escaped line breaks are not available
  Plain,
  /// LABEL: escaped line breaks are removed
  Label,
  /// must stay one blank-free token (flag values, paths)
  Token,
}

/// A quoted spelling of `v`; `wild` spends random escapes.
pub fn quote(s: &mut Src, v: &str, q: Q, wild: u32) -> String {
  let quote = if s.bool() { '\'' } else { '"' };
  let mut o = String::new();
  o.push(quote);
  let mut after_break = false;
  for c in v.chars() {
    if q == Q::Label && wild > 0 && s.chance(1, 40) {
      o.push('\\');
      o.push_str(s.pick::<&str>(&["\n", "\r\n"]));
      after_break = true;
    }
    let short = match c {
      '\u{8}' => Some('b'),
      '\t' => Some('t'),
      '\n' => Some('n'),
      '\u{c}' => Some('f'),
      '\r' => Some('r'),
      '"' => Some('"'),
      '\\' => Some('\\'),
      '\'' => Some('\''),
      '`' => Some('`'),
      '\u{7}' => Some('a'),
      '\u{b}' => Some('v'),
      _ => None,
    };
    let nl = c == '\n' || c == '\r';
    let must = c == quote
      || c == '\\'
      || c == '\0'
      || c == '\u{1f}'
      || (q == Q::Token && (c == ' ' || c == '\t' || nl))
      || (q == Q::Label && nl && (after_break || o.ends_with('\\')));
    let choice = if must { s.weighted(&[0, 10, 2, 1, 1]) } else { s.weighted(&[30, 3 * wild, wild, wild, wild]) };
    let hex = |s: &mut Src, t: String| if s.bool() { t.to_uppercase() } else { t };
    match choice {
      0 => o.push(c),
      1 if short.is_some() => {
        o.push('\\');
        o.push(short.unwrap());
      }
      1 if !must => o.push(c),
      4 if (c as u32) < 0x100 => {
        let t = if s.bool() { format!("\\{:03o}", c as u32) } else { format!("\\x{}", hex(s, format!("{:02x}", c as u32))) };
        o.push_str(&t);
      }
      1 | 2 if (c as u32) < 0x10000 => {
        let h = hex(s, format!("{:04x}", c as u32));
        o.push_str(&format!("\\u{}", h));
      }
      _ => {
        let h = hex(s, format!("{:08x}", c as u32));
        o.push_str(&format!("\\U{}", h));
      }
    }
    after_break = false;
  }
  if q == Q::Label && wild > 0 && s.chance(1, 40) {
    o.push_str("\\\n");
  }
  o.push(quote);
  o
}

// ---------------------------------------------------------------- rendering

#[derive(Debug, Clone, PartialEq)]
pub struct Rendered {
  pub text: String,
  pub instructions: Vec<Instruction>,
  pub global_args: Vec<ArgInstruction>,
  /// where each instruction's own text starts and ends (same as its span)
  pub continuations: usize,
  pub comments: usize,
  pub quoted: usize,
}

struct Rd<'a> {
  s: &'a mut Src,
  o: String,
  /// 0 canonical, 1 normal, 2 heavy
  wild: u32,
  /// 0 LF, 1 CRLF, 2 CR, 3 mixed
  nl: u32,
  continuations: usize,
  comments: usize,
  quoted: usize,
}

impl<'a> Rd<'a> {
  fn nl(&mut self) {
    let k = if self.nl == 3 { self.s.below(3) } else { self.nl };
    self.o.push_str(["\n", "\r\n", "\r"][k as usize]);
  }
  fn blanks(&mut self, max: u32) {
    if self.wild == 0 {
      return;
    }
    let mut n = self.s.small(max);
    if n == max && self.s.chance(1, 60) {
      n = dict::count(self.s).unwrap_or(n);
    }
    for _ in 0..n {
      let c = if self.s.bool() { '\t' } else { ' ' };
      self.o.push(c);
    }
  }
  fn comment_line(&mut self) {
    self.blanks(3);
    let c = comment_text(self.s);
    self.o.push_str(&c);
    self.nl();
    self.comments += 1;
  }
  fn continuation(&mut self) {
    self.o.push('\\');
    self.blanks(2);
    self.nl();
    self.continuations += 1;
    if self.s.chance(1, 3) {
      if self.s.chance(1, 20_000) {
        self.bulk();
      }
      for _ in 0..comments(self.s) {
        if self.s.bool() {
          self.comment_line();
        } else {
          self.blanks(2);
          self.nl();
        }
      }
    }
  }
  /// Comment lines that move everything behind them past byte 65536.
  fn bulk(&mut self) {
    let t = self.s.pick::<&str>(&["x", "é ", "\\ ", "RUN y "]);
    let per = self.s.range(1, 2000) as usize;
    let line = format!("# {}", t.repeat(per / t.len() + 1));
    let target = self.o.len() + self.s.range(60_000, 70_000) as usize;
    while self.o.len() < target {
      let a = self.o.len();
      self.o.push_str(&line);
      while self.o.ends_with([' ', '\t']) {
        self.o.pop();
      }
      debug_assert!(self.o.len() > a);
      self.nl();
      self.comments += 1;
    }
  }
  /// argument separator
  fn gap(&mut self, ws_first: bool, next: char) {
    if self.o.ends_with('\\') {
      // part of a raw text, which must not become a continuation
      self.o.push(*self.s.pick(&[' ', '\t']));
      self.blanks(2);
      return;
    }
    if self.wild == 0 {
      self.o.push(' ');
      return;
    }
    let n = match self.s.weighted(&[12, 4, 1]) {
      0 => 1,
      1 => self.s.range(2, 4),
      _ if self.s.chance(1, 300) => self.s.range(2, 300),
      _ => self.s.range(2, 12),
    };
    for i in 0..n {
      match self.s.weighted(&[10, 2, 2 * self.wild]) {
        2 if !(ws_first && i == 0) && next != '#' => self.continuation(),
        1 => self.o.push('\t'),
        _ => self.o.push(' '),
      }
    }
  }
  fn gap0(&mut self) {
    if self.wild > 0 && self.s.chance(1, 3) {
      self.gap(false, 'x');
    }
  }
  fn keyword(&mut self, k: &str) {
    match if self.wild == 0 { 0 } else { self.s.weighted(&[4, 2, 2]) } {
      0 => self.o.push_str(k),
      1 if self.s.chance(1, 4) => {
        self.o.push_str(&k[..1]);
        self.o.push_str(&k[1..].to_lowercase());
      }
      1 => self.o.push_str(&k.to_lowercase()),
      _ => {
        for c in k.chars() {
          let c = if self.s.bool() { c.to_ascii_lowercase() } else { c };
          self.o.push(c);
        }
      }
    }
  }
  fn put(&mut self, t: &str) -> Span {
    let a = self.o.len();
    self.o.push_str(t);
    Span::new(a, self.o.len())
  }
  fn put_str(&mut self, t: &str) -> SpannedString {
    SpannedString { span: self.put(t), content: t.to_string() }
  }
  /// picks the spelling of a value: raw if allowed, else quoted
  fn spell(&mut self, v: &str, raw_ok: bool, q: Q) -> String {
    let quoted = !raw_ok || (self.wild > 0 && self.s.chance(if q == Q::Token { 1 } else { 4 }, 10));
    if quoted {
      self.quoted += 1;
      quote(self.s, v, q, self.wild)
    } else {
      v.to_string()
    }
  }
  /// Whether `v` can stand raw; only before another part may it end in backslashes.
  fn raw(&mut self, v: &str, last: bool) -> bool {
    rawable(v) || (!last && self.wild > 0 && v.ends_with('\\') && rawable(v.trim_end_matches('\\')))
  }
  fn put_spelled(&mut self, spelled: &str, v: &str) -> SpannedString {
    SpannedString { span: self.put(spelled), content: v.to_string() }
  }
  fn flags(&mut self, fs: &[(String, String)]) -> Vec<(Span, SpannedString, SpannedString)> {
    let mut out = Vec::new();
    for (n, v) in fs {
      self.gap(false, '-');
      let a = self.o.len();
      self.o.push_str("--");
      let name = self.put_str(n);
      self.o.push('=');
      let raw = self.raw(v, false);
      let sp = self.spell(v, raw, Q::Token);
      let value = self.put_spelled(&sp, v);
      out.push((Span::new(a, self.o.len()), name, value));
    }
    out
  }
  fn pieces(&mut self, ps: &[Piece]) -> BreakableString {
    let a = self.o.len();
    let mut b = BreakableString::new((a, a));
    let mut prev_line = false;
    let n = ps.len();
    for (i, p) in ps.iter().enumerate() {
      if prev_line {
        self.o.push('\\');
        self.blanks(2);
        self.nl();
        self.continuations += 1;
      }
      match p {
        Piece::Line(t) => {
          let s = self.put_str(t);
          b.components.push(s.into());
          prev_line = true;
        }
        Piece::Comment(t) => {
          self.blanks(3);
          let span = self.put(t);
          b.components.push(SpannedComment { span, content: t.clone() }.into());
          if i + 1 < n {
            self.nl();
          }
          self.comments += 1;
          prev_line = false;
        }
      }
    }
    b.span.end = self.o.len();
    b
  }
  fn first_char(ps: &[Piece]) -> char {
    match &ps[0] {
      Piece::Line(t) | Piece::Comment(t) => t.chars().next().unwrap_or('x'),
    }
  }

  fn instruction(&mut self, m: &Sem, index: usize) -> Instruction {
    let a = self.o.len();
    match m {
      Sem::From { flags, image, alias } => {
        self.keyword("FROM");
        let flags = self.flags(flags).into_iter().map(|(span, name, value)| FromFlag { span, name, value }).collect();
        self.gap(false, 'x');
        let image = self.put_str(image);
        let alias = alias.as_ref().map(|t| {
          self.gap(false, 'a');
          self.keyword("AS");
          self.gap(false, 'x');
          self.put_str(t)
        });
        let image_parsed = refmodel::decompose(&image.content);
        Instruction::From(FromInstruction { span: Span::new(a, self.o.len()), flags, image, image_parsed, index, alias })
      }
      Sem::Arg { name, value } => {
        self.keyword("ARG");
        self.gap(false, 'x');
        let name = self.put_str(name);
        let value = value.as_ref().map(|v| {
          self.o.push('=');
          let sp = self.spell(v, rawable(v), Q::Plain);
          self.put_spelled(&sp, v)
        });
        Instruction::Arg(ArgInstruction { span: Span::new(a, self.o.len()), name, value })
      }
      Sem::Copy { flags, paths } => {
        self.keyword("COPY");
        let flags = self.flags(flags).into_iter().map(|(span, name, value)| CopyFlag { span, name, value }).collect();
        let mut sources = Vec::new();
        for (i, p) in paths.iter().enumerate() {
          let raw = self.raw(p, i + 1 == paths.len());
          let sp = self.spell(p, raw, Q::Token);
          self.gap(false, sp.chars().next().unwrap());
          sources.push(self.put_spelled(&sp, p));
        }
        let destination = sources.pop().unwrap();
        Instruction::Copy(CopyInstruction { span: Span::new(a, self.o.len()), flags, sources, destination })
      }
      Sem::Labels(pairs) => {
        self.keyword("LABEL");
        let mut labels = Vec::new();
        for (i, (n, v)) in pairs.iter().enumerate() {
          let sn = self.spell(n, label_name_ok(n), Q::Label);
          let raw = self.raw(v, i + 1 == pairs.len());
          let sv = self.spell(v, raw, Q::Label);
          self.gap(false, sn.chars().next().unwrap());
          let x = self.o.len();
          let name = self.put_spelled(&sn, n);
          self.o.push('=');
          let value = self.put_spelled(&sv, v);
          labels.push(Label { span: Span::new(x, self.o.len()), name, value });
        }
        // trailing blanks belong to the instruction here
        self.blanks(2);
        Instruction::Label(LabelInstruction { span: Span::new(a, self.o.len()), labels })
      }
      Sem::LabelSingle(n, v) => {
        self.keyword("LABEL");
        let k = self.o.len();
        let sn = self.spell(n, label_name_ok(n), Q::Label);
        let sv = self.spell(v, rawable(v), Q::Label);
        self.gap(false, sn.chars().next().unwrap());
        let name = self.put_spelled(&sn, n);
        self.gap(!sn.starts_with(['"', '\'']), sv.chars().next().unwrap());
        let value = self.put_spelled(&sv, v);
        let e = self.o.len();
        Instruction::Label(LabelInstruction { span: Span::new(a, e), labels: vec![Label { span: Span::new(k, e), name, value }] })
      }
      Sem::Envs(pairs) => {
        self.keyword("ENV");
        let mut vars = Vec::new();
        for (i, (n, v)) in pairs.iter().enumerate() {
          self.gap(false, 'x');
          let x = self.o.len();
          let key = self.put_str(n);
          self.o.push('=');
          let raw = self.raw(v, i + 1 == pairs.len());
          let sp = self.spell(v, raw, Q::Plain);
          let val = self.put(&sp);
          vars.push(EnvVar {
            span: Span::new(x, self.o.len()),
            key,
            value: BreakableString::new(val).add_string(val, v.clone()),
          });
        }
        self.blanks(2);
        Instruction::Env(EnvInstruction { span: Span::new(a, self.o.len()), vars })
      }
      Sem::EnvQuoted(n, v) => {
        self.keyword("ENV");
        self.gap(false, 'x');
        let x = self.o.len();
        let key = self.put_str(n);
        self.gap(false, 'x');
        self.quoted += 1;
        let sp = quote(self.s, v, Q::Plain, self.wild);
        let val = self.put(&sp);
        let e = self.o.len();
        Instruction::Env(EnvInstruction {
          span: Span::new(a, e),
          vars: vec![EnvVar { span: Span::new(x, e), key, value: BreakableString::new(val).add_string(val, v.clone()) }],
        })
      }
      Sem::EnvLines(n, ps) => {
        self.keyword("ENV");
        self.gap(false, 'x');
        let x = self.o.len();
        let key = self.put_str(n);
        self.gap(false, Self::first_char(ps));
        let value = self.pieces(ps);
        let e = self.o.len();
        Instruction::Env(EnvInstruction { span: Span::new(a, e), vars: vec![EnvVar { span: Span::new(x, e), key, value }] })
      }
      Sem::Shell(k, ps) => {
        self.keyword(kw(*k));
        self.gap(false, Self::first_char(ps));
        let b = self.pieces(ps);
        mk(*k, Span::new(a, self.o.len()), ShellOrExecExpr::Shell(b))
      }
      Sem::Exec(k, els) => {
        self.keyword(kw(*k));
        self.gap(false, '[');
        let x = self.o.len();
        self.o.push('[');
        let mut elements = Vec::new();
        for (i, v) in els.iter().enumerate() {
          if i > 0 {
            self.gap0();
            self.o.push(',');
          }
          self.gap0();
          let sp = quote(self.s, v, Q::Plain, self.wild);
          self.quoted += 1;
          elements.push(self.put_spelled(&sp, v));
        }
        if !els.is_empty() && self.wild > 0 && self.s.chance(1, 12) {
          self.o.push(',');
        }
        self.gap0();
        self.o.push(']');
        let e = self.o.len();
        mk(*k, Span::new(a, e), ShellOrExecExpr::Exec(StringArray { span: Span::new(x, e), elements }))
      }
      Sem::Misc(w, ps) => {
        let instruction = if self.wild > 0 && self.s.chance(1, 4) {
          let t = match self.s.below(4) {
            0 => w.to_lowercase(),
            1 => w.to_uppercase(),
            2 => format!("{}{}", w[..1].to_uppercase(), w[1..].to_lowercase()),
            _ => w.chars().map(|c| if self.s.bool() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }).collect(),
          };
          self.put_str(&t)
        } else {
          self.put_str(w)
        };
        let arguments = self.pieces(ps);
        Instruction::Misc(MiscInstruction { span: Span::new(a, self.o.len()), instruction, arguments })
      }
    }
  }
}

fn kw(k: Kind) -> &'static str {
  match k {
    Kind::Run => "RUN",
    Kind::Cmd => "CMD",
    Kind::Entrypoint => "ENTRYPOINT",
  }
}

pub fn mk(k: Kind, span: Span, expr: ShellOrExecExpr) -> Instruction {
  match k {
    Kind::Run => Instruction::Run(RunInstruction { span, expr }),
    Kind::Cmd => Instruction::Cmd(CmdInstruction { span, expr }),
    Kind::Entrypoint => Instruction::Entrypoint(EntrypointInstruction { span, expr }),
  }
}

#[derive(Clone, Copy)]
pub struct Lay {
  pub wild: u32,
  pub nl: u32,
}

pub fn lay(s: &mut Src) -> Lay {
  Lay { wild: s.weighted(&[2, 6, 4]) as u32, nl: s.weighted(&[10, 5, 1, 2]) as u32 }
}

/// True if nothing but a line break may follow on the instruction's last line.
fn runs_to_line_end(m: &Sem) -> bool {
  matches!(m, Sem::EnvLines(..) | Sem::Shell(..) | Sem::Misc(..))
}

/// `tail`: the last instruction may end in comment lines at the end of the file.
pub fn render(s: &mut Src, ms: &[Sem], l: Lay) -> Rendered {
  let mut r = Rd { s, o: String::new(), wild: l.wild, nl: l.nl, continuations: 0, comments: 0, quoted: 0 };
  let mut instructions = Vec::new();
  let mut froms = 0;
  let filler = |r: &mut Rd, weight: u32| {
    if r.wild > 0 {
      if r.s.chance(1, 10_000) {
        r.bulk();
      }
      while r.s.chance(weight, 5) {
        if r.s.bool() {
          r.comment_line();
        } else {
          r.blanks(3);
          r.nl();
        }
      }
      r.blanks(4);
    }
  };
  filler(&mut r, 1);
  for (i, m) in ms.iter().enumerate() {
    if i > 0 {
      if !runs_to_line_end(&ms[i - 1]) {
        r.blanks(2);
        // LABEL and ENV pairs take their trailing blanks
        if matches!(ms[i - 1], Sem::Labels(_) | Sem::Envs(_)) {
          let end = r.o.len();
          extend_span(instructions.last_mut().unwrap(), end);
        }
      }
      r.nl();
      filler(&mut r, 2);
    }
    let ins = r.instruction(m, froms);
    if matches!(m, Sem::From { .. }) {
      froms += 1;
    }
    instructions.push(ins);
  }
  // the end of the file
  if ms.is_empty() || r.s.chance(3, 4) {
    if let Some(m) = ms.last() {
      if !runs_to_line_end(m) && !matches!(m, Sem::Labels(_) | Sem::Envs(_)) {
        r.blanks(2);
      }
      r.nl();
    }
    filler(&mut r, 1);
    if r.wild > 0 && r.s.chance(1, 8) {
      let c = comment_text(r.s);
      r.o.push_str(&c);
      r.comments += 1;
    }
  }
  let n = instructions.iter().position(|i: &Instruction| i.as_from().is_some()).unwrap_or(instructions.len());
  let global_args = instructions[..n].iter().filter_map(|i| i.as_arg().cloned()).collect();
  Rendered { text: r.o, instructions, global_args, continuations: r.continuations, comments: r.comments, quoted: r.quoted }
}

fn extend_span(i: &mut Instruction, end: usize) {
  match i {
    Instruction::Label(l) => l.span.end = end,
    Instruction::Env(e) => e.span.end = end,
    _ => {}
  }
}

/// Meaning and rendering in one go.
pub fn doc(s: &mut Src, w: &[u32; NKIND], min: u32, usual: u32) -> (Vec<Sem>, Rendered) {
  let ms = sems(s, w, min, usual);
  let l = lay(s);
  let r = render(s, &ms, l);
  (ms, r)
}

/// Adds comment lines after the last command line of a file's last
/// instruction, which must be a shell form. Returns None if it is not.
pub fn with_tail_comments(s: &mut Src, mut r: Rendered, nl: &str) -> Option<Rendered> {
  let b = match r.instructions.last_mut()? {
    Instruction::Run(RunInstruction { span, expr: ShellOrExecExpr::Shell(b) })
    | Instruction::Cmd(CmdInstruction { span, expr: ShellOrExecExpr::Shell(b) })
    | Instruction::Entrypoint(EntrypointInstruction { span, expr: ShellOrExecExpr::Shell(b) }) => (span, b),
    _ => return None,
  };
  let (span, b) = b;
  r.text.truncate(b.span.end);
  r.text.push('\\');
  r.text.push_str(nl);
  let n = s.range(1, 3);
  for i in 0..n {
    r.text.push_str(s.pick::<&str>(&["", "  ", "\t"]));
    let a = r.text.len();
    let c = comment_text(s);
    r.text.push_str(&c);
    b.components.push(SpannedComment { span: Span::new(a, r.text.len()), content: c }.into());
    if i + 1 < n || s.bool() {
      r.text.push_str(nl);
    }
  }
  b.span.end = r.text.len();
  span.end = b.span.end;
  Some(r)
}
