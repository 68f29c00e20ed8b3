use dockerfile_parser::*;
#[allow(unused_imports)]
use std::convert::TryFrom;
#[allow(dead_code)]
fn p(s: &str) -> Dockerfile { Dockerfile::parse(s).unwrap_or_else(|e| panic!("rejected {:?}: {}", s, e)) }
fn main() {
let d=p("RUN a \\\r\n# c\r\n b"); if let Instruction::Run(r)=&d.instructions[0] { match &r.as_shell().unwrap().components[1] { BreakableStringComponent::Comment(c)=>assert_eq!(c.content,"# c"), x=>panic!("{:?}",x) } }
}
