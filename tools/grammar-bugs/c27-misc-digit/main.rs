use dockerfile_parser::*;
#[allow(unused_imports)]
use std::convert::TryFrom;
#[allow(dead_code)]
fn p(s: &str) -> Dockerfile { Dockerfile::parse(s).unwrap_or_else(|e| panic!("rejected {:?}: {}", s, e)) }
fn main() {
let d=Dockerfile::parse("a-b c"); if let Ok(d)=d { if let Instruction::Misc(m)=&d.instructions[0] { assert_eq!(m.instruction.content,"a"); } }
}
