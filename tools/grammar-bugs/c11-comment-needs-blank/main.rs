use dockerfile_parser::*;
#[allow(unused_imports)]
use std::convert::TryFrom;
#[allow(dead_code)]
fn p(s: &str) -> Dockerfile { Dockerfile::parse(s).unwrap_or_else(|e| panic!("rejected {:?}: {}", s, e)) }
fn main() {
let d=p("RUN a \\\n #[x]\n b"); if let Instruction::Run(r)=&d.instructions[0] { assert_eq!(r.as_shell().unwrap().components.len(),3); }
}
