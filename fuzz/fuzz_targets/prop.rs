//! Coverage-guided search over the same choice sequences the checks draw at
//! random: the input bytes are the choices, the property decides.
#![no_main]
use libfuzzer_sys::fuzz_target;
use std::sync::OnceLock;
use vharness::props::{self, Prop};
use vharness::tape::{Ctx, Src};

static PROP: OnceLock<&'static Prop> = OnceLock::new();

fuzz_target!(|data: &[u8]| {
  let p = PROP.get_or_init(|| {
    let id = std::env::var("VFUZZ_PROP").expect("VFUZZ_PROP");
    props::find(&id).expect("unknown property")
  });
  let mut s = Src::from_bytes(data);
  let mut c = Ctx { thorough: true, ..Ctx::default() };
  if let Err(m) = (p.f)(&mut s, &mut c) {
    eprintln!("VFUZZ-FAILED {}", m);
    std::process::abort();
  }
});
