use dockerfile_parser::*;
#[allow(unused_imports)]
use std::convert::TryFrom;
#[allow(dead_code)]
fn p(s: &str) -> Dockerfile { Dockerfile::parse(s).unwrap_or_else(|e| panic!("rejected {:?}: {}", s, e)) }
fn main() {
let d=p("COPY --a-b=c d e"); assert_eq!(d.instructions[0].as_copy().unwrap().sources.len(),2);
}
