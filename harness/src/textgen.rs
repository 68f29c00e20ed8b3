//! Arbitrary texts: token soup, mutated valid files, repetitive texts.

use crate::dict;
use crate::gen::{self, ALL_KINDS};
use crate::tape::Src;

const VOCAB: &[&str] = &[
  "FROM", "from", "ARG", "arg", "LABEL", "RUN", "run", "CMD", "ENTRYPOINT", "COPY", "copy", "ENV", "env", "ADD", "USER", "x", " ", " ", " ", "  ", "\t", "\n", "\n",
  "\n", "\r\n", "\r", "\\", "\\\n", "\\ \n", "\\\r\n", "#", "# c", "# c\n", "\"", "'", "`", "\"a\"", "'b c'", "\"\\n\"", "[", "]", ",", "[\"a\"]", "[\"a\", 'b']", "[]",
  "=", "a=b", "a", "foo", "--from=x", "--", "--x", "as", "AS", "alpine", "alpine:3.1", "a@sha256:", "$X", "${X}", "scratch", "0", "é", "中", "😀", "\u{feff}", "\u{0}",
  "\u{1f}", "\u{2028}", "\u{85}", "\u{a0}", "\\\"", "\\'", "\\\\", "\\u0041", "\\U0001F600", "\\ud800", "\\x41", "\\101", "\\q", "key", "value", "_", "-", ".", "/", ":", "@",
  "{", "}", "&&", "|", "&", ";", "\\ \t\r\n", " \\\n  # c\n", "\u{b}", "\u{c}", "aſ", "\u{7f}", "\\a", "\\`", "\"\\\n\"", "# escape=`\n", "# syntax=x\n", "<<EOF", "EOF", "`\n", "--", "--a=\"", "a,", "ONBUILD ", "SHELL ", "HEALTHCHECK ", "$", "${", "=\"", "='", "\" ", "ab=\"c d\" ",
];

/// A piece of Dockerfile syntax, or something the source under test mentions.
fn vocab(s: &mut Src) -> String {
  match dict::hint(s) {
    Some(t) => t,
    None => s.pick::<&str>(VOCAB).to_string(),
  }
}

pub fn soup(s: &mut Src) -> String {
  let n = match s.below(200) {
    198 => s.range(1, 400),
    199 => dict::count(s).filter(|n| *n <= 3000).unwrap_or(1),
    _ => s.range(1, 30),
  };
  let mut t = String::new();
  for _ in 0..n {
    match s.weighted(&[20, 3, 2]) {
      0 => t.push_str(&vocab(s)),
      1 => t.push_str(&gen::token(s)),
      _ => t.push(char::from_u32(s.below(0x2fff)).unwrap_or('?')),
    }
  }
  t
}

/// Lines that start like instructions, with soup behind the keyword.
pub fn line_soup(s: &mut Src) -> String {
  let mut t = String::new();
  for _ in 0..=s.small(4) {
    if s.chance(1, 8) {
      t.push_str(s.pick::<&str>(&[" ", "\t", "#", ""]));
    }
    t.push_str(s.pick::<&str>(&VOCAB[..15]));
    if !s.chance(1, 12) {
      t.push_str(s.pick::<&str>(&[" ", " ", " ", "\t", " \\\n", "\\\n", "  ", " \\\r\n # c\r\n"]));
    } else if s.bool() {
      t.push_str(s.pick::<&str>(&["_", "-", "=", "\"", "'", "[", "1", ".", "\u{b}", "\u{c}", "\u{a0}", "\\", "#", "/", ":", "\u{0}", "é", "$", "S", "x"]));
    }
    for _ in 0..s.small(8) {
      match s.weighted(&[14, 6, 2]) {
        0 => t.push_str(&vocab(s)),
        1 => t.push(' '),
        _ => t.push_str(&gen::token(s)),
      }
    }
    t.push_str(s.pick::<&str>(&["\n", "\n", "\n", "\r\n", "\r", "", "\n\n"]));
  }
  t
}

/// One keyword with soup behind it.
pub fn keyword_soup(s: &mut Src, word: &str) -> String {
  let mut t = match s.below(5) {
    0 => word.to_lowercase(),
    1 => word.chars().map(|c| if s.bool() { c.to_ascii_lowercase() } else { c }).collect(),
    _ => word.to_string(),
  };
  if !s.chance(1, 20) {
    t.push_str(s.pick::<&str>(&[" ", " ", " ", " ", "\t", " \\\n", "\\\n", "  ", " \\\r\n # c\r\n"]));
  }
  for _ in 0..=s.small(8) {
    match s.weighted(&[14, 8, 3]) {
      0 => t.push_str(&vocab(s)),
      1 => t.push(' '),
      _ => t.push_str(&gen::token(s)),
    }
  }
  t
}

fn boundary(t: &str, mut i: usize) -> usize {
  i = i.min(t.len());
  while !t.is_char_boundary(i) {
    i -= 1;
  }
  i
}

/// A few random edits.
pub fn mutate(s: &mut Src, t: &mut String) {
  for _ in 0..=s.small(3) {
    let a = boundary(t, s.below(t.len() as u32 + 1) as usize);
    let len = if s.chance(1, 5) { s.below(40) } else { s.below(4) } as usize;
    let b = boundary(t, a + len).max(a);
    match s.weighted(&[5, 4, 4, 2, 1, 1]) {
      0 => t.insert_str(a, &vocab(s)),
      1 => t.replace_range(a..b, ""),
      2 => t.replace_range(a..b, &vocab(s)),
      3 => {
        let d = t[a..b].to_string();
        let c = boundary(t, s.below(t.len() as u32 + 1) as usize);
        t.insert_str(c, &d);
      }
      4 => t.truncate(a),
      _ => *t = t[a..].to_string(),
    }
  }
}

pub fn mutant(s: &mut Src) -> String {
  let mut t = gen::doc(s, &ALL_KINDS, 1, 4).1.text;
  mutate(s, &mut t);
  t
}

/// Characters that something between file and parser might treat specially.
const SPECIAL: &[char] = &[
  '\u{0}', '\u{1}', '\u{2}', '\u{3}', '\u{4}', '\u{5}', '\u{6}', '\u{7}', '\u{8}', '\t', '\n', '\u{b}', '\u{c}', '\r', '\u{e}', '\u{f}', '\u{10}', '\u{11}', '\u{12}', '\u{13}',
  '\u{14}', '\u{15}', '\u{16}', '\u{17}', '\u{18}', '\u{19}', '\u{1a}', '\u{1b}', '\u{1c}', '\u{1d}', '\u{1e}', '\u{1f}', ' ', '\u{7f}', '\u{80}', '\u{85}', '\u{9f}', '\u{a0}',
  '\u{ad}', '\u{301}', '\u{1680}', '\u{180e}', '\u{2000}', '\u{200b}', '\u{200d}', '\u{200e}', '\u{2028}', '\u{2029}', '\u{202e}', '\u{3000}', '\u{e000}', '\u{fdd0}', '\u{feff}', '\u{fffd}',
  '\u{fffe}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\\', '#', '"', '\'', '`', '$', '%', '&', 'é', 'İ', 'ſ', '\u{212a}', 'ß',
];

/// Puts special characters where they are easily lost: at the edges of the text or of a line.
pub fn edges(s: &mut Src, t: &mut String) {
  for _ in 0..=s.small(2) {
    let n = 1 + s.small(2);
    let x: String = (0..n).map(|_| if s.chance(1, 12) { dict::char(s) } else { *s.pick(SPECIAL) }).collect();
    match s.below(4) {
      0 => t.insert_str(0, &x),
      1 => t.push_str(&x),
      k => {
        let at: Vec<usize> = t.match_indices('\n').map(|m| m.0).take(40).collect();
        if at.is_empty() {
          t.push_str(&x);
        } else {
          let i = *s.pick(&at);
          // never between the two characters of a CRLF by accident: both sides are tried anyway
          t.insert_str(if k == 2 { i } else { i + 1 }, &x);
        }
      }
    }
  }
}

/// Any text. About half of these are accepted by the parser.
pub fn any(s: &mut Src) -> String {
  let mut t = any_inner(s);
  if s.chance(1, 12) {
    edges(s, &mut t);
  }
  t
}

fn any_inner(s: &mut Src) -> String {
  match s.weighted(&[6, 8, 4, 5, 1, 1]) {
    0 => mutant(s),
    1 => line_soup(s),
    2 => soup(s),
    3 => gen::doc(s, &ALL_KINDS, 0, 5).1.text,
    4 => {
      let n = s.small(30);
      (0..n).map(|_| char::from_u32(s.below(0x11_0000)).unwrap_or('\u{fffd}')).collect()
    }
    _ => {
      let mut t = s.pick::<&str>(CORPUS).to_string();
      mutate(s, &mut t);
      t
    }
  }
}

/// Mostly accepted texts.
pub fn likely(s: &mut Src) -> String {
  let mut t = likely_inner(s);
  if s.chance(1, 25) {
    edges(s, &mut t);
  }
  t
}

fn likely_inner(s: &mut Src) -> String {
  match s.weighted(&[10, 3, 3, 1]) {
    0 => gen::doc(s, &ALL_KINDS, 1, 5).1.text,
    1 => line_soup(s),
    2 => mutant(s),
    _ => s.pick::<&str>(CORPUS).to_string(),
  }
}

pub const CORPUS: &[&str] = &[
  "FROM alpine:3.10\n\nRUN apk add --no-cache curl\n",
  "ARG tag=3.10\nFROM alpine:${tag} as build\nRUN echo \"hello world\" > /foo\n\nFROM scratch\nCOPY --from=build /foo /bar\nENTRYPOINT [\"/foo\", \"bar\"]\nCMD [\"x\"]\n",
  "FROM a\nRUN apt-get update && \\\n    # comment\n    apt-get install -y \\\n  # more\n    foo \\\n    bar\n\nENV A=b C=\"d e\" \\\n  F='g'\n",
  "FROM --platform=linux/amd64 node:lts-alpine AS build\nENV foo a b c \\\n  d e\nLABEL a=b \\\n  \"c d\"=\"e \\\nf\"\nLABEL x y\n",
  "# syntax=docker/dockerfile:1\r\nFROM a\r\nRUN b \\\r\n  c\r\nMAINTAINER foo <x@y.z>\r\nWORKDIR /a b\r\n",
  "FROM a\nRUN foo \\\n  # c\n\nCMD [ ]\nENTRYPOINT [ \"a\" , 'b' ,\n",
  "FROM a@sha256:aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa\nENV a=\"\nARG b='\\x'\n",
  "RUN a \\\n b \\\n",
  "RUN [\n",
  "ENV a \"b\" c\n",
  "COPY a\n",
  "LABEL \n",
  "from a as\n",
  "ARG a = b\n",
  "CMD",
];

const REP: &[&str] = &[
  "\"", "'", "\\", "\\\n", "\\\r\n", " ", "\t", "\n", "\r", "#", "# c\n", "a", "a=b ", "a=\"b\" ", "\"a\",", "\"a\" , ", "[", "]", "[\"", "--a=b ", "--", "\\\"", "\\\\", "\\n",
  "\\u0041", "a \\\n", " \\\n # c\n", "x\\\n\n", "FROM a\n", "ARG a\n", "RUN a\n", "LABEL a=\"b\n", "as ", "=", "\"\\\n", "é", "😀", "COPY a b\n", "ENV a b\n", "LABEL a b\n", "ENV a=b\n", "X y\n", "RUN [\"a\"]\n",
  "$X", "${X}", "@", ":", "/", "'a'='b' ", "\"a b\"=c ", "a\\ ", "\\ \n", "\"a", "'a\\'", "`", "RUN a \\\n", "RUN \\\n# c\n", "\u{0}", "\u{1f}", "\"\"", "''", "--a=\"", "[]", ",",
];

/// head, a long repetition of one or two units, tail
/// An accepted text of one instruction with very many parts, or of very many
/// alike; the parts equal, or each different. `froms`: also of many FROMs.
pub fn listy(s: &mut Src, target: usize, froms: bool) -> String {
  let (head, unit, tail) = *s.pick::<(&str, &str, &str)>(&[
    ("CMD [\"a\"", ", \"%\"", "]"), ("RUN ['a'", ",'%'", "]"), ("ENTRYPOINT [\"a\"", ", \\\n \"%\"", "]"), ("RUN [\"a\"", ", \\\n# c%\n \"\\t%\"", "]"),
    ("ENV a=b", " v%=w", ""), ("ENV a=b", " v=w%", ""), ("ENV a=b", " v%='%'", ""), ("ENV a=b", " \\\n v%=\"\"", ""), ("ENV a=b", " \\\n# c%\n v=%", " c=d"),
    ("LABEL a=b", " v%=w", ""), ("LABEL a=b", " v=w%", ""), ("LABEL a=b", " \"v%\"='%'", ""), ("LABEL a=b", " \\\n v%=\"\"", ""), ("LABEL a=\"", "x%\\\n", "\""), ("LABEL a=b", " \\\n# c%\n v=%", " c=d"),
    ("COPY a b", " c%", ""), ("COPY a b", " \\\n c%", ""), ("COPY ", "--f%=g ", "a b"), ("COPY ", "--f=g% \\\n ", "a b"), ("FROM ", "--f%=g ", "a"), ("FROM ", "--f=g% \\\n", "a AS b"),
    ("RUN a", " \\\n x%", ""), ("RUN a", " \\\n# x%", "\\\n b"), ("RUN a", " \\\n# x%\n %", ""), ("RUN a", "\\\n", "\\\nb"), ("CMD x", "\\\n%\\\n ", "y"), ("X a", " \\\n x%", ""), ("ENV a b", " \\\n# c%\n d", ""),
    ("RUN ", "a% ", "x"), ("ENV a ", "b% ", "x"), ("ENV a='", "% ", "'"), ("ARG a=\"", "% ", "\""), ("ARG a=", "x%", ""), ("FROM a", "%", ""), ("FROM a AS b", "%", ""), ("CMD [\"", "\\\\%", "\"]"), ("LABEL a=\"", "\\\"%", "\""),
    ("FROM a", "\nARG v%", ""), ("ARG a", "\nARG v%=w", ""), ("ARG a", "\nARG v=%", "\nFROM a"), ("FROM a", "\nRUN x%", ""), ("FROM a", "\nENV a=%", ""), ("FROM a", "\n# c%", ""), ("X y", "\n\n", ""), ("LABEL a b", "\nLABEL v% w", ""),
    ("CMD a", "\nCMD [\"%\"]", ""), ("COPY a b", "\nCOPY --from=% a b", ""),
    ("FROM a AS b", "\nFROM a% AS b%", ""), ("FROM a AS b", "\nFROM b AS b", ""), ("FROM a", "\nFROM $x%", ""), ("FROM a AS b", "\nFROM b\nCOPY --from=b a %", ""),
  ]);
  if !froms && unit.contains("FROM") {
    return String::new();
  }
  let how = s.below(4);
  let fixed = *s.pick::<&str>(&["", "", "a", "0", "xyz"]);
  let mut t = head.to_string();
  let mut i = 0u32;
  while t.len() < target {
    let x = match how {
      0 | 1 => fixed.to_string(),
      2 => i.to_string(),
      // numbers going down, of one length
      _ => (9_999_999 - i).to_string(),
    };
    let u = unit.replace('%', &x);
    t.push_str(if u.is_empty() { "x" } else { &u });
    i += 1;
  }
  t.push_str(tail);
  t.push('\n');
  t
}

pub fn repetitive(s: &mut Src, target: usize) -> String {
  const HEADS: &[&str] = &[
    "", "FROM ", "ARG a=", "ARG ", "LABEL ", "LABEL a=", "LABEL \"", "RUN ", "RUN [", "RUN [\"", "CMD [", "ENTRYPOINT ['", "COPY ", "COPY a ", "COPY --a=b ", "ENV ", "ENV a ",
    "ENV a=", "ENV a \"", "ENV a='", "X ", "FROM a\n", "#", "FROM --a=b ", "FROM a as ", "ARG a=\"", "LABEL a \"", "RUN \\\n", "RUN a \\\n", "ENV \\\n", "LABEL \\\n", "  ",
  ];
  let mut t = s.pick::<&str>(HEADS).to_string();
  let k = 1 + s.small(2);
  let units: Vec<&str> = (0..k).map(|_| *s.pick::<&str>(REP)).collect();
  while t.len() < target {
    for u in &units {
      t.push_str(u);
    }
  }
  t.push_str(s.pick::<&str>(&["", "\n", "x", "\"", "'", "]", "\"]", "\n!", " !", "\\", "\nFROM a", " x", "\"]\n", "=", "\u{0}", " \n", "\nRUN x\n"]));
  t
}
