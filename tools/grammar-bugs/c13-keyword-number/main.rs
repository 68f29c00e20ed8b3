use dockerfile_parser::*;
#[allow(unused_imports)]
use std::convert::TryFrom;
#[allow(dead_code)]
fn p(s: &str) -> Dockerfile { Dockerfile::parse(s).unwrap_or_else(|e| panic!("rejected {:?}: {}", s, e)) }
fn main() {
let s=format!("{} a","x".repeat(50)); let d=p(&s); assert_eq!(d.instructions[0].as_misc().unwrap().instruction.content.len(),50);
}
