use dockerfile_parser::*;
#[allow(unused_imports)]
use std::convert::TryFrom;
#[allow(dead_code)]
fn p(s: &str) -> Dockerfile { Dockerfile::parse(s).unwrap_or_else(|e| panic!("rejected {:?}: {}", s, e)) }
fn main() {
let s=format!("COPY {}", "a ".repeat(5000)); pest::set_call_limit(std::num::NonZeroUsize::new(200*s.len())); assert!(Dockerfile::parse(&s).is_ok());
}
