use dockerfile_parser::*;
#[allow(unused_imports)]
use std::convert::TryFrom;
#[allow(dead_code)]
fn p(s: &str) -> Dockerfile { Dockerfile::parse(s).unwrap_or_else(|e| panic!("rejected {:?}: {}", s, e)) }
fn main() {
let d=p("COPY a --x=y c"); if let Instruction::Copy(c)=&d.instructions[0] { assert_eq!(c.sources.len(),2); }
}
