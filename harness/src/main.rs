use std::path::PathBuf;
use vharness::runner::{self, Opts};
use vharness::tape::Src;

fn main() {
  let a: Vec<String> = std::env::args().skip(1).collect();
  let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1u64);
  let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()));
  let code = match a.first().map(|s| s.as_str()) {
    Some("list") => {
      for p in vharness::props::all() {
        println!("{} quick={} thorough={}", p.id, p.quick, p.thorough);
      }
      0
    }
    Some("dict") => {
      println!("{:?}", vharness::dict::get());
      0
    }
    // check ID TIER
    Some("check") => runner::check(&Opts {
      id: a[1].clone(),
      thorough: a.get(2).map(|s| s == "thorough").unwrap_or(false),
      seed,
      verif,
    }),
    Some("worker") => {
      let s: u64 = a[3].parse().unwrap();
      runner::worker(&a[1], a[2] == "thorough", s, &PathBuf::from(&a[4]), &PathBuf::from(&a[5]))
    }
    // one ID TIER seed=N|file=F [print]
    Some("one") => {
      let mut src = if let Some(s) = a[3].strip_prefix("seed=") {
        Src::random(s.parse().unwrap())
      } else if let Some(f) = a[3].strip_prefix("file=") {
        Src::replay(runner::parse_tape_file(f).expect("choices= line"))
      } else {
        panic!("seed= or file=")
      };
      if let Ok(d) = std::env::var("VHARNESS_SCRATCH") {
        if let Ok(f) = std::fs::File::create(PathBuf::from(d).join("dump")) {
          src.dump_to(f);
        }
      }
      runner::one(&a[1], src, a[2] == "thorough", a.get(4).is_some())
    }
    // bytes ID FILE
    Some("bytes") => runner::from_bytes_report(
      &Opts { id: a[1].clone(), thorough: true, seed, verif },
      &std::fs::read(&a[2]).unwrap(),
    ),
    // replay FILE
    Some("replay") => {
      let t = std::fs::read_to_string(&a[1]).expect("replay file");
      let val = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").to_string();
      vharness::dict::set(&t);
      let id = val("property=");
      let src = Src::replay(runner::parse_tape_file(&a[1]).expect("choices= line"));
      let c = runner::one(&id, src, val("tier=") == "thorough", true);
      if c == 1 {
        println!("VIOLATION property={} replay={}", id, a[1]);
      }
      c
    }
    _ => {
      eprintln!("usage: vharness list | check ID [quick|thorough] | replay FILE");
      2
    }
  };
  std::process::exit(code);
}
