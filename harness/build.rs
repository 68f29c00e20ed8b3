// Where the crate under test lives: the dictionary (src/dict.rs) is read there.
fn main() {
  println!("cargo:rerun-if-changed=Cargo.toml");
  let t = std::fs::read_to_string("Cargo.toml").unwrap();
  let p = t.lines().find(|l| l.starts_with("dockerfile-parser")).and_then(|l| l.split('"').nth(1)).unwrap();
  println!("cargo:rustc-env=REPO_SRC={}/src", p);
}
