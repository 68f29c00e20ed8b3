use dockerfile_parser::*;
#[allow(unused_imports)]
use std::convert::TryFrom;
#[allow(dead_code)]
fn p(s: &str) -> Dockerfile { Dockerfile::parse(s).unwrap_or_else(|e| panic!("rejected {:?}: {}", s, e)) }
fn main() {
assert!(Dockerfile::parse("FROM a as b.c").is_err());
}
