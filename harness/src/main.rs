//! Executable contracts: runs the property oracles against the real code in /repo, and replays
//! recorded inputs. Usage: llamapun-replay PROP OUT.json [--seed N] [--secs S] [--thorough]
//! [--known FILE] [--trace FILE] | --replay FILE
mod core;
mod news;
mod o;
mod assume;
use crate::core::*;
use serde_json::{json, Value};
fn main() {
  let a: Vec<String> = std::env::args().collect();
  let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned());
  if let Some(f) = get("--assumptions") { let v = assume::run(); std::fs::write(f, v.to_string()).unwrap(); std::process::exit(if v["status"] == "pass" { 0 } else { 1 }); }
  let props = o::all();
  if let Some(f) = get("--replay") {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(&f).unwrap()).unwrap();
    let p = props.iter().find(|p| p.id == v["property"]).expect("unknown property");
    install(None);
    match run_one(p, &v["input"]) {
      Res::Fail(m) => { println!("FAILS: {m}"); std::process::exit(1) },
      Res::Pass(_) => println!("holds on this input"), Res::Skip => println!("input outside the property's domain"),
    }
    return;
  }
  let p = props.iter().find(|p| p.id == a[1]).expect("unknown property");
  let out = a[2].clone();
  install(get("--trace"));
  watchdog(10, out.clone());
  let thorough = a.iter().any(|x| x == "--thorough");
  let seed = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
  let secs = get("--secs").and_then(|s| s.parse().ok()).unwrap_or(p.secs);
  let known: Vec<(String, Value)> = get("--known").and_then(|f| std::fs::read_to_string(f).ok()).map(|t| t.lines().filter_map(|l| serde_json::from_str::<Value>(l).ok()).filter(|v| v["property"] == p.id && !v["input"].is_null()).map(|v| (v["what"].as_str().unwrap_or("").to_string(), v["input"].clone())).collect()).unwrap_or_default();
  let news: Option<crate::core::Lits> = get("--news").map(|t| { let mut l = crate::core::Lits::default(); l.read(&t, &mut Default::default(), &mut Default::default(), &mut Default::default()); l });
  // the libxml/llamapun code prints to stdout; results go to the file only
  let h = std::thread::Builder::new().stack_size(512 << 20).spawn({
    let id = p.id; move || { let props = o::all(); let p = props.iter().find(|p| p.id == id).unwrap(); explore(p, seed, thorough, secs, &known, news) }
  }).unwrap();
  let v = h.join().unwrap_or_else(|_| json!({"property": a[1], "status": "error"}));
  std::fs::write(&out, v.to_string()).unwrap();
  std::process::exit(if v["status"] == "pass" { 0 } else if v["status"] == "fail" { 1 } else { 2 });
}
