//! Runs a property over many generated cases, in parallel, in a child process
//! (so that an abort is observed rather than fatal), shrinks a failure, writes
//! the replay file and the evidence file.

use crate::props::{self, Prop};
use crate::tape::{shrink, Ctx, Src, R};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fs;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::Instant;

const THREADS: usize = 8;
const STACK: usize = 8 << 20;
const HANG_WALL_S: u64 = 45;
const HANG_CPU_S: u64 = 90;

thread_local! { static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) }; }

pub fn install_panic_hook() {
  std::panic::set_hook(Box::new(|info| {
    let msg = info
      .payload()
      .downcast_ref::<&str>()
      .map(|s| s.to_string())
      .or_else(|| info.payload().downcast_ref::<String>().cloned())
      .unwrap_or_else(|| "?".into());
    let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
    PANIC_MSG.with(|m| *m.borrow_mut() = format!("{} at {}", msg, loc));
  }));
}

/// Runs `f`, turning a panic into Err(message).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
  catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC_MSG.with(|m| m.borrow().clone()))
}

pub fn run_case(p: &Prop, src: &mut Src, ctx: &mut Ctx) -> R {
  match guarded(|| (p.f)(src, ctx)) {
    Ok(r) => r,
    Err(m) => Err(format!("panicked: {}", m)),
  }
}

fn mix(a: u64, b: u64) -> u64 {
  let mut x = a ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15);
  x ^= x >> 32;
  x = x.wrapping_mul(0xd6e8_feb8_6659_fd93);
  x ^= x >> 29;
  x = x.wrapping_mul(0xd6e8_feb8_6659_fd93);
  x ^ (x >> 32)
}

pub fn hash_str(s: &str) -> u64 {
  let mut h = 0xcbf2_9ce4_8422_2325u64;
  for b in s.bytes() {
    h ^= b as u64;
    h = h.wrapping_mul(0x1000_0000_01b3);
  }
  mix(h, s.len() as u64)
}

fn case_seed(seed: u64, id: &str, idx: u64) -> u64 {
  mix(mix(seed, hash_str(id)), idx)
}

pub fn json_str(s: &str) -> String {
  let mut o = String::from("\"");
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      '\n' => o.push_str("\\n"),
      '\r' => o.push_str("\\r"),
      '\t' => o.push_str("\\t"),
      c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
      c => o.push(c),
    }
  }
  o.push('"');
  o
}

fn clip(s: &str, n: usize) -> String {
  if s.chars().count() <= n {
    s.to_string()
  } else {
    let mut t: String = s.chars().take(n).collect();
    t.push_str(&format!("... [{} bytes in all]", s.len()));
    t
  }
}

#[derive(Default)]
struct Stats {
  evals: u64,
  skipped: u64,
  nontrivial: Vec<u64>,
  tags: BTreeMap<&'static str, u64>,
  samples: Vec<(u64, String)>,
}

fn sample_slot(idx: u64, total: u64) -> bool {
  idx < 64 || (idx % (total / 40).max(1)) < 4
}

/// The child: all cases of one property. Returns the process exit code.
pub fn worker(id: &str, thorough: bool, seed: u64, out: &Path, scratch: &Path) -> i32 {
  let p = props::find(id).expect("unknown property");
  let total = if thorough { p.thorough } else { p.quick };
  // for experiments only: run a fraction of the cases
  let total = match std::env::var("VHARNESS_DIVIDE").ok().and_then(|v| v.parse::<u64>().ok()) {
    Some(d) => (total / d.max(1)).max(1),
    None => total,
  };
  install_panic_hook();
  let next = AtomicU64::new(0);
  let first_fail = AtomicU64::new(u64::MAX);
  let fail_msg: Mutex<BTreeMap<u64, String>> = Mutex::new(BTreeMap::new());
  let all: Mutex<Stats> = Mutex::new(Stats::default());
  let live = AtomicUsize::new(THREADS);
  let slowest = AtomicU64::new(0);
  let started = Instant::now();
  // (index+1 of the running case, start ms) per thread, for the hang monitor
  let cur: Vec<(AtomicU64, AtomicU64)> = (0..THREADS).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect();
  std::thread::scope(|sc| {
    for t in 0..THREADS {
      let (next, first_fail, fail_msg, all, live, cur, slowest) = (&next, &first_fail, &fail_msg, &all, &live, &cur, &slowest);
      std::thread::Builder::new()
        .stack_size(STACK)
        .spawn_scoped(sc, move || {
          let f = fs::File::create(scratch.join(format!("cur{}", t))).unwrap();
          let mut st = Stats::default();
          'o: loop {
            let lo = next.fetch_add(32, SeqCst);
            if lo >= total {
              break;
            }
            for idx in lo..(lo + 32).min(total) {
              if idx > first_fail.load(SeqCst) {
                break 'o;
              }
              let _ = f.write_all_at(&(idx + 1).to_le_bytes(), 0);
              cur[t].1.store(started.elapsed().as_millis() as u64, SeqCst);
              cur[t].0.store(idx + 1, SeqCst);
              let mut src = Src::random(case_seed(seed, id, idx));
              let mut ctx = Ctx { thorough, ..Ctx::default() };
              let r = run_case(p, &mut src, &mut ctx);
              let ms = (started.elapsed().as_millis() as u64).saturating_sub(cur[t].1.load(SeqCst));
              slowest.fetch_max(ms, SeqCst);
              cur[t].0.store(0, SeqCst);
              st.evals += 1;
              if ctx.skipped {
                st.skipped += 1;
              }
              for g in &ctx.tags {
                *st.tags.entry(g).or_default() += 1;
              }
              if ctx.nontrivial && !ctx.skipped {
                st.nontrivial.push(hash_str(&ctx.input));
                if sample_slot(idx, total) && st.samples.len() < 200 {
                  st.samples.push((idx, clip(&ctx.input, 700)));
                }
              }
              if let Err(m) = r {
                first_fail.fetch_min(idx, SeqCst);
                fail_msg.lock().unwrap().insert(idx, m);
                break 'o;
              }
            }
          }
          let _ = f.write_all_at(&0u64.to_le_bytes(), 0);
          let mut a = all.lock().unwrap();
          a.evals += st.evals;
          a.skipped += st.skipped;
          a.nontrivial.append(&mut st.nontrivial);
          for (k, v) in st.tags {
            *a.tags.entry(k).or_default() += v;
          }
          a.samples.append(&mut st.samples);
          drop(a);
          live.fetch_sub(1, SeqCst);
        })
        .unwrap();
    }
    // hang monitor
    while live.load(SeqCst) > 0 {
      std::thread::sleep(std::time::Duration::from_millis(20));
      let now = started.elapsed().as_millis() as u64;
      for c in &cur {
        let i = c.0.load(SeqCst);
        if i != 0 && now.saturating_sub(c.1.load(SeqCst)) > HANG_WALL_S * 1000 && c.0.load(SeqCst) == i {
          let _ = fs::write(scratch.join("hang"), format!("{}", i - 1));
          std::process::exit(97);
        }
      }
    }
  });
  let mut a = all.into_inner().unwrap();
  a.nontrivial.sort_unstable();
  a.nontrivial.dedup();
  a.samples.sort();
  let mut o = String::new();
  o.push_str(&format!("evals {}\nskipped {}\ndistinct {}\nslowest {}\n", a.evals, a.skipped, a.nontrivial.len(), slowest.load(SeqCst)));
  for (k, v) in &a.tags {
    o.push_str(&format!("tag {} {}\n", v, k));
  }
  // a few early and a few spread-out samples
  let n = a.samples.len();
  let mut picked: Vec<usize> = (0..n.min(4)).collect();
  for k in 1..=6 {
    let i = n * k / 7;
    if i < n && !picked.contains(&i) {
      picked.push(i);
    }
  }
  for i in picked {
    o.push_str(&format!("sample {}\n", json_str(&a.samples[i].1)));
  }
  let ff = first_fail.load(SeqCst);
  let mut code = 0;
  if ff != u64::MAX {
    code = 1;
    let first = fail_msg.lock().unwrap().get(&ff).cloned().unwrap_or_default();
    o.push_str(&format!("failidx {}\nfailfirst {}\n", ff, json_str(&first)));
    let choices = on_big_stack(move || shrink_case(p, case_seed(seed, id, ff), thorough));
    o.push_str(&format!("choices {}\n", join(&choices)));
  }
  fs::write(out, o).unwrap();
  code
}

fn join(c: &[u32]) -> String {
  c.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(",")
}

pub fn on_big_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
  std::thread::scope(|s| {
    std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, f).unwrap().join().unwrap()
  })
}

fn shrink_case(p: &Prop, seed: u64, thorough: bool) -> Vec<u32> {
  let mut src = Src::random(seed);
  let _ = run_case(p, &mut src, &mut Ctx { thorough, ..Ctx::default() });
  let t0 = Instant::now();
  shrink(src.rec.clone(), 20_000, &mut |c| {
    if t0.elapsed().as_secs() > 60 {
      return None; // only limits how small the reported case is
    }
    let mut s = Src::replay(c.to_vec());
    let mut ctx = Ctx { thorough, ..Ctx::default() };
    match run_case(p, &mut s, &mut ctx) {
      Err(_) => Some(s.rec),
      Ok(()) => None,
    }
  })
}

/// Runs one case given by choices or seed; used for replays and for crash triage.
/// Exit: 0 passes, 1 fails (message printed).
pub fn one(id: &str, mut src: Src, thorough: bool, print: bool) -> i32 {
  let p = props::find(id).expect("unknown property");
  install_panic_hook();
  on_big_stack(move || {
    let mut ctx = Ctx { thorough, ..Ctx::default() };
    let r = run_case(p, &mut src, &mut ctx);
    if print {
      println!("case: {}", json_str(&clip(&ctx.input, 4000)));
      println!("tags: {:?} nontrivial={} skipped={}", ctx.tags, ctx.nontrivial, ctx.skipped);
    }
    match r {
      Ok(()) => 0,
      Err(m) => {
        println!("FAILED {}: {}", id, m);
        1
      }
    }
  })
}

struct Scratch(PathBuf);
impl Drop for Scratch {
  fn drop(&mut self) {
    let _ = fs::remove_dir_all(&self.0);
  }
}

fn exe() -> PathBuf {
  std::env::current_exe().unwrap()
}

/// Runs `one` in a child under a CPU-time limit. Ok(None): exit 0;
/// Ok(Some(msg)): the case fails (exit 1 or killed by a signal); Err: other.
fn probe(id: &str, args: &[String], scratch: &Path) -> Result<Option<String>, String> {
  let script = format!(
    "ulimit -S -t {}; ulimit -c 0; exec \"$0\" \"$@\"", HANG_CPU_S
  );
  let o = Command::new("/bin/sh")
    .arg("-c").arg(script).arg(exe()).args(args)
    .env("VHARNESS_SCRATCH", scratch)
    .stdin(Stdio::null()).output().map_err(|e| e.to_string())?;
  if let Some(c) = o.status.code() {
    return match c {
      0 => Ok(None),
      1 => Ok(Some(String::from_utf8_lossy(&o.stdout).trim().to_string())),
      c => Err(format!("probe exited with {}", c)),
    };
  }
  let err = String::from_utf8_lossy(&o.stderr);
  match o.status.signal() {
    Some(24) if !matches!(id, "C01" | "C20") => Err(format!("one case used over {} s of CPU time", HANG_CPU_S)),
    Some(24) => Ok(Some(format!("did not terminate within {} s of CPU time (a case normally takes milliseconds)", HANG_CPU_S))),
    Some(s @ (6 | 11 | 4 | 7 | 8)) => Ok(Some(format!("process aborted by signal {}: {}", s, clip(err.trim(), 300)))),
    s => Err(format!("probe killed by signal {:?} (out of memory?)", s)),
  }
}

pub struct Opts {
  pub id: String,
  pub thorough: bool,
  pub seed: u64,
  pub verif: PathBuf,
}

/// The parent. Returns the exit code of the check.
pub fn check(o: &Opts) -> i32 {
  let t0 = Instant::now();
  let p = match props::find(&o.id) {
    Some(p) => p,
    None => {
      eprintln!("unknown property {}", o.id);
      return 2;
    }
  };
  let tier = if o.thorough { "thorough" } else { "quick" };
  let scratch = Scratch(std::env::temp_dir().join(format!("vharness-{}-{}", o.id, std::process::id())));
  fs::create_dir_all(&scratch.0).unwrap();
  let out = scratch.0.join("out");
  let st = Command::new("/bin/sh")
    .arg("-c").arg("ulimit -c 0; exec \"$0\" \"$@\"").arg(exe())
    .args(["worker", &o.id, tier, &o.seed.to_string()])
    .arg(&out).arg(&scratch.0)
    .env("VHARNESS_SCRATCH", &scratch.0)
    .stdin(Stdio::null()).stderr(Stdio::piped())
    .spawn().and_then(|c| c.wait_with_output());
  let st = match st {
    Ok(s) => s,
    Err(e) => {
      eprintln!("cannot run worker: {}", e);
      return 2;
    }
  };
  let mut lines: Vec<(String, String)> = Vec::new();
  if let Ok(t) = fs::read_to_string(&out) {
    for l in t.lines() {
      let (a, b) = l.split_once(' ').unwrap_or((l, ""));
      lines.push((a.into(), b.into()));
    }
  }
  let get = |k: &str| lines.iter().find(|l| l.0 == k).map(|l| l.1.clone());
  let mut violation: Option<(String, String)> = None; // (choices or seed line, message)
  match (st.status.code(), st.status.signal()) {
    (Some(0), _) => {}
    (Some(1), _) => {
      violation = Some((format!("choices={}", get("choices").unwrap_or_default()), get("failfirst").unwrap_or_default()));
    }
    (code, sig) => {
      // died: find the case among those that were running
      let mut cands: Vec<u64> = Vec::new();
      if code == Some(97) {
        cands.extend(fs::read_to_string(scratch.0.join("hang")).ok().and_then(|s| s.parse::<u64>().ok()));
      } else {
        for t in 0..THREADS {
          if let Ok(b) = fs::read(scratch.0.join(format!("cur{}", t))) {
            if b.len() == 8 {
              let v = u64::from_le_bytes(b.try_into().unwrap());
              if v > 0 {
                cands.push(v - 1);
              }
            }
          }
        }
      }
      cands.sort();
      let mut why = format!("(cases {:?})", cands);
      for idx in cands {
        let s = case_seed(o.seed, &o.id, idx);
        let a = vec!["one".to_string(), o.id.clone(), tier.into(), format!("seed={}", s)];
        match probe(&o.id, &a, &scratch.0) {
          Ok(Some(msg)) => {
            // the choices drawn up to the abort were dumped by the child
            let dumped = fs::read_to_string(scratch.0.join("dump")).unwrap_or_default();
            let mut best: Vec<u32> = dumped.lines().filter_map(|l| l.parse().ok()).collect();
            let hang = msg.contains("did not terminate");
            if !hang {
              let t1 = Instant::now();
              best = shrink(best, 400, &mut |c| {
                if t1.elapsed().as_secs() > 60 {
                  return None;
                }
                let f = scratch.0.join("try");
                let _ = fs::write(&f, format!("choices={}\n", join(c)));
                let a = vec!["one".to_string(), o.id.clone(), tier.into(), format!("file={}", f.display())];
                match probe(&o.id, &a, &scratch.0) {
                  Ok(Some(_)) => Some(c.to_vec()),
                  _ => None,
                }
              });
            }
            violation = Some((format!("choices={}", join(&best)), json_str(&msg)));
            break;
          }
          Ok(None) => {}
          Err(e) => why = format!("case {}: {}", idx, e),
        }
      }
      if violation.is_none() {
        eprintln!("ERROR property={}: worker ended with code {:?} signal {:?}; not reproduced {}", o.id, code, sig, why);
        eprintln!("{}", String::from_utf8_lossy(&st.stderr));
        return 2;
      }
    }
  }
  let nviol = violation.is_some() as u32;
  // evidence
  let num = |k: &str| get(k).and_then(|v| v.parse::<u64>().ok()).unwrap_or(0);
  let tags: Vec<String> = lines.iter().filter(|l| l.0 == "tag").map(|l| {
    let (n, name) = l.1.split_once(' ').unwrap();
    format!("{}: {}", json_str(name), n)
  }).collect();
  let samples: Vec<String> = lines.iter().filter(|l| l.0 == "sample").map(|l| l.1.clone()).collect();
  let ev = format!(
    "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"skipped_precondition\": {},\n  \"rule\": {},\n  \"case_classes\": {{{}}},\n  \"samples\": [{}]\n }},\n \"assumptions\": {},\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
    json_str(&o.id), json_str(tier), o.seed, num("evals"), num("distinct"), num("skipped"), json_str(p.rule),
    tags.join(", "), samples.join(",\n   "), p.assumptions_json(), t0.elapsed().as_secs_f64(), nviol
  );
  let evdir = o.verif.join("evidence");
  let _ = fs::create_dir_all(&evdir);
  if let Err(e) = fs::write(evdir.join(format!("{}.json", o.id)), ev) {
    eprintln!("cannot write evidence: {}", e);
    return 2;
  }
  if let Some((tape, msg)) = violation {
    return report(o, tier, &tape, &msg);
  }
  println!(
    "OK property={} tier={} seed={} evaluations={} distinct_nontrivial={} skipped={} slowest={}ms wall={:.1}s",
    o.id, tier, o.seed, num("evals"), num("distinct"), num("skipped"), num("slowest"), t0.elapsed().as_secs_f64()
  );
  0
}

fn report(o: &Opts, tier: &str, tape: &str, msg: &str) -> i32 {
  let dir = o.verif.join("replays");
  let _ = fs::create_dir_all(&dir);
  let path = dir.join(format!("{}-{}-{}.replay", o.id, tier, o.seed));
  // re-run the shrunk case to describe it
  let tmp = std::env::temp_dir().join(format!("vharness-rep-{}", std::process::id()));
  let _ = fs::create_dir_all(&tmp);
  let f = tmp.join("t");
  let _ = fs::write(&f, format!("{}\n", tape));
  let shrunk = Command::new(exe())
    .args(["one", &o.id, tier, &format!("file={}", f.display()), "print"])
    .env("VHARNESS_SCRATCH", &tmp)
    .output().map(|o| String::from_utf8_lossy(&o.stdout).to_string()).unwrap_or_default();
  let _ = fs::remove_dir_all(&tmp);
  let body = format!(
    "property={}\ntier={}\n{}\n{}\n# replay: /verif/check.sh replay <this file>\n# first failure: {}\n# shrunk case:\n{}\n",
    o.id, tier, tape, crate::dict::line(), msg,
    shrunk.lines().map(|l| format!("#   {}", l)).collect::<Vec<_>>().join("\n")
  );
  let _ = fs::write(&path, body);
  println!("{}", clip(shrunk.trim(), 3000));
  println!("first failure: {}", clip(msg, 1500));
  println!("VIOLATION property={} replay={}", o.id, path.display());
  1
}

/// Used by the thorough tier's fuzz stage: a failing byte input becomes a
/// shrunk replay and a VIOLATION line.
pub fn from_bytes_report(o: &Opts, data: &[u8]) -> i32 {
  let p = match props::find(&o.id) { Some(p) => p, None => return 2 };
  install_panic_hook();
  let id = o.id.clone();
  let (rec, msg) = on_big_stack(|| {
    let mut s = Src::from_bytes(data);
    // the choices survive if the case kills the process
    if let Ok(d) = std::env::var("VHARNESS_SCRATCH") {
      if let Ok(f) = fs::File::create(PathBuf::from(d).join("dump")) {
        s.dump_to(f);
      }
    }
    match run_case(p, &mut s, &mut Ctx { thorough: true, ..Ctx::default() }) {
      Ok(()) => (Vec::new(), None),
      Err(m) => (s.rec, Some(m)),
    }
  });
  let msg = match msg {
    Some(m) => m,
    None => {
      eprintln!("ERROR property={}: fuzzer artifact does not reproduce", id);
      return 2;
    }
  };
  let best = on_big_stack(|| {
    shrink(rec, 20_000, &mut |c| {
      let mut s = Src::replay(c.to_vec());
      match run_case(p, &mut s, &mut Ctx { thorough: true, ..Ctx::default() }) {
        Err(_) => Some(s.rec),
        Ok(()) => None,
      }
    })
  });
  report(o, "thorough", &format!("choices={}", join(&best)), &json_str(&msg))
}

pub fn parse_tape_file(path: &str) -> Option<Vec<u32>> {
  let t = fs::read_to_string(path).ok()?;
  let l = t.lines().find(|l| l.starts_with("choices="))?;
  Some(l["choices=".len()..].split(',').filter_map(|v| v.trim().parse().ok()).collect())
}
