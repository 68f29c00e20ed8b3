//! One function per property. Each builds a case from the tape and decides it.

use crate::tape::{Ctx, Src, R};

pub mod access;
pub mod build;
pub mod instr;
pub mod layout;
pub mod queries;
pub mod splice;
pub mod stages;
pub mod text;
pub mod values;

pub struct Prop {
  pub id: &'static str,
  /// how cases are made and what makes one non-trivial
  pub rule: &'static str,
  pub f: fn(&mut Src, &mut Ctx) -> R,
  pub quick: u64,
  pub thorough: u64,
  pub assumptions: &'static [&'static str],
}

impl Prop {
  pub fn assumptions_json(&self) -> String {
    let v: Vec<String> = self.assumptions.iter().map(|a| crate::runner::json_str(a)).collect();
    format!("[{}]", v.join(", "))
  }
}

pub fn all() -> Vec<&'static Prop> {
  let mut v: Vec<&'static Prop> = Vec::new();
  for l in [text::PROPS, instr::PROPS, layout::PROPS, build::PROPS, stages::PROPS, splice::PROPS, access::PROPS, values::PROPS, queries::PROPS] {
    v.extend(l.iter());
  }
  v.sort_by_key(|p| p.id);
  v
}

pub fn find(id: &str) -> Option<&'static Prop> {
  all().into_iter().find(|p| p.id == id)
}
