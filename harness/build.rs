fn main() {
  println!("cargo:rerun-if-changed=build.rs");
  // private helper file: compiled into the harness when it stands on its own
  println!("cargo:rerun-if-changed=/repo/src/patterns/utils.rs");
  println!("cargo:rustc-check-cfg=cfg(vx_utils)");
  if let Ok(t) = std::fs::read_to_string("/repo/src/patterns/utils.rs") { if !t.contains("super::") && !t.contains("crate::") { println!("cargo:rustc-cfg=vx_utils"); } }
  // the variants of the environment enums of the current source
  println!("cargo:rerun-if-changed=/repo/src/ams.rs");
  let t = std::fs::read_to_string("/repo/src/ams.rs").unwrap_or_default();
  let mut o = String::new();
  for (list, name) in [("STRUCTURAL", "StructuralEnv"), ("AMS", "AmsEnv")] {
    let body = t.split(&format!("pub enum {name} {{")).nth(1).and_then(|b| b.split("\n}").next()).unwrap_or("");
    let body: String = body.lines().map(|l| l.split("//").next().unwrap_or("")).collect::<Vec<_>>().join(" ");
    let vs: Vec<&str> = body.split(',').map(|v| v.trim()).map(|v| v.rsplit(|c: char| c.is_whitespace()).next().unwrap_or("")).filter(|v| !v.is_empty() && v.chars().all(|c| c.is_alphanumeric())).collect();
    o.push_str(&format!("pub const {list}: &[(&str, {name})] = &["));
    for v in vs { o.push_str(&format!("(\"{v}\", {name}::{v}), ")); }
    o.push_str("];\n");
  }
  std::fs::write(format!("{}/envs.rs", std::env::var("OUT_DIR").unwrap()), o).unwrap();
}
