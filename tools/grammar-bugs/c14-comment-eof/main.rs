use dockerfile_parser::*;
#[allow(unused_imports)]
use std::convert::TryFrom;
#[allow(dead_code)]
fn p(s: &str) -> Dockerfile { Dockerfile::parse(s).unwrap_or_else(|e| panic!("rejected {:?}: {}", s, e)) }
fn main() {
let _=p("RUN a \\\n# c\nb"); p("ARG \\\n# c\na"); assert!(p("RUN a \\\n# c\n\u{feff}b").instructions.len()==1);
}
