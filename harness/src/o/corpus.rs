//! C24, C25, C26: catalogues, corpus walks, environment names
use super::docs::Scratch;
use crate::core::*;
use crate::fail;
use llamapun::ams::{class_to_env, normalize_env, AmsEnv, StructuralEnv};
use llamapun::{data, parallel_data as par};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::sync::Mutex;

include!(concat!(env!("OUT_DIR"), "/envs.rs"));

// ---------------------------------------------------------------- C24
type Cat = HashMap<String, u64>;
fn cat(g: &mut G, keys: &[&str]) -> Value {
  let n = g.r.range(0, 5);
  let mut m = serde_json::Map::new();
  for _ in 0..n { let k = *g.r.pick(keys); let v = match g.r.below(6) { 0 => 0, 1 => 1u64 << 40, 2 => u32::MAX as u64 + g.r.below(3) as u64, _ => g.r.below(9) as u64 }; m.insert(k.into(), json!(v)); }
  Value::Object(m)
}
fn gen24(g: &mut G, k: usize) -> Value {
  let n = if k < 50 { k % 5 } else { g.r.range(0, 40) };
  let keys: &[&str] = if g.r.chance(1, 2) { &["a", "b", "c", "", "é"] } else { &["a", "b"] };
  let docs: Vec<Value> = (0..n).map(|_| { let a = cat(g, keys); let b = cat(g, keys); json!([a, b]) }).collect();
  json!({"docs": docs, "threads": g.r.range(1, 8)})
}
fn tocat(v: &Value) -> Cat { v.as_object().map(|o| o.iter().map(|(k, v)| (k.clone(), v.as_u64().unwrap_or(0))).collect()).unwrap_or_default() }
fn sorted(c: &Cat) -> BTreeMap<String, u64> { c.iter().map(|(k, v)| (k.clone(), *v)).collect() }
fn check24(v: &Value) -> Res {
  let none = vec![];
  let docs = v["docs"].as_array().unwrap_or(&none);
  let s = Scratch::new();
  for i in 0..docs.len() { std::fs::write(s.0.join(format!("{i}.xhtml")), "<html><p>x</p></html>").unwrap(); }
  let reports: Vec<(Cat, Cat)> = docs.iter().map(|d| (tocat(&d[0]), tocat(&d[1]))).collect();
  let mut want = (Cat::new(), Cat::new());
  for (a, b) in &reports { for (k, x) in a { *want.0.entry(k.clone()).or_insert(0) += x } for (k, x) in b { *want.1.entry(k.clone()).or_insert(0) += x } }
  let corpus = par::Corpus::new(s.0.to_str().unwrap().to_string());
  let idx = |p: &str| std::path::Path::new(p).file_stem().unwrap().to_str().unwrap().parse::<usize>().unwrap();
  let pool = POOLS.with(|p| p[v["threads"].as_u64().unwrap_or(1).clamp(1, 8) as usize - 1].clone());
  for _ in 0..2 {
    let one = pool.install(|| corpus.catalog_with_parallel_walk(|d| reports[idx(&d.path)].0.clone()));
    if one != want.0 { fail!("single catalogue {:?}, expected {:?}", sorted(&one), sorted(&want.0)) }
    let two = pool.install(|| corpus.catalogs_with_parallel_walk(|d| reports[idx(&d.path)].clone()));
    if two != want { fail!("two catalogues ({:?}, {:?}), expected ({:?}, {:?})", sorted(&two.0), sorted(&two.1), sorted(&want.0), sorted(&want.1)) }
  }
  Res::Pass(docs.len() > 1 && want.0.len() > 1)
}
thread_local! { static POOLS: Vec<std::sync::Arc<rayon::ThreadPool>> = (1..=8).map(|n| std::sync::Arc::new(rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap())).collect(); }

// ---------------------------------------------------------------- C25
fn gen25(g: &mut G, _k: usize) -> Value {
  const TAILS: &[&str] = &[".html", ".xhtml", ".html5", ".htm", "html", "xhtml", ".HTML", ".html.zip", ".xml", "", ".tex", ".xhtml5", ".html~", ".5", "l"];
  const EXT: &[&str] = &[".html", ".xhtml", "html", ".html5", "xhtml", "", ".HTML", ".5", "l", "a.html", ".tex"];
  let n = g.r.range(0, 7);
  let mut fs: Vec<String> = vec![];
  for _ in 0..n {
    let d = *g.r.pick(&["", "", "sub/", "sub/deep/", "é/", "sub.dir/"]);
    let b = *g.r.pick(&["a", "b", "x y", "é", "a.html", "doc.5", "html", "z-1", "c.xhtml.d", "Q"]);
    let t = *g.r.pick(TAILS);
    let f = format!("{d}{b}{t}");
    if !fs.contains(&f) { fs.push(f) }
  }
  let e = if g.r.chance(1, 3) { Value::Null } else if g.r.chance(1, 6) && !g.lits.strs.is_empty() { json!(g.r.pick(&g.lits.strs).clone()) } else { json!(*g.r.pick(EXT)) };
  json!({"files": fs, "extension": e})
}
fn check25(v: &Value) -> Res {
  let none = vec![];
  let mut fs: Vec<&str> = v["files"].as_array().unwrap_or(&none).iter().filter_map(|x| x.as_str()).filter(|f| f.split('/').all(|c| !c.is_empty() && c.len() < 200 && c != "." && c != "..")).collect();
  fs.sort(); fs.dedup();
  let ext = v["extension"].as_str();
  let sel = |name: &str| match ext { Some(e) => name.ends_with(e), None => name.ends_with(".html") || name.ends_with(".xhtml") };
  let s = Scratch::new();
  let root = s.0.join("root0"); std::fs::create_dir_all(&root).unwrap();
  let mut dirs = std::collections::BTreeSet::new(); dirs.insert("root0".to_string());
  for f in &fs {
    let p = root.join(f);
    if std::fs::create_dir_all(p.parent().unwrap()).is_err() || std::fs::write(&p, "<html><p>x</p></html>").is_err() { return Res::Skip }
    let mut q = std::path::Path::new(f).parent(); while let Some(d) = q { if let Some(n) = d.file_name() { dirs.insert(n.to_str().unwrap().to_string()); } q = d.parent(); }
  }
  // directories whose name is selected are outside the property's domain, as are hidden files
  if dirs.iter().any(|d| sel(d)) || fs.iter().any(|f| f.split('/').any(|c| c.starts_with('.'))) { return Res::Skip }
  let base = |f: &str| f.rsplit('/').next().unwrap().to_string();
  let mut want: Vec<String> = fs.iter().filter(|f| sel(&base(f))).map(|f| root.join(f).to_str().unwrap().to_string()).collect(); want.sort();
  let mut c = par::Corpus::new(root.to_str().unwrap().to_string()); c.extension = ext.map(|e| e.to_string());
  let seen = Mutex::new(vec![]);
  c.catalog_with_parallel_walk(|d| { seen.lock().unwrap().push(d.path.clone()); HashMap::new() });
  let mut a = seen.into_inner().unwrap(); a.sort();
  if a != want { fail!("catalog_with_parallel_walk with extension {ext:?} processes {a:?}, expected {want:?}") }
  let seen = Mutex::new(vec![]);
  c.catalogs_with_parallel_walk(|d| { seen.lock().unwrap().push(d.path.clone()); (HashMap::new(), HashMap::new()) });
  let mut a = seen.into_inner().unwrap(); a.sort();
  if a != want { fail!("catalogs_with_parallel_walk with extension {ext:?} processes {a:?}, expected {want:?}") }
  let mut c = data::Corpus::new(root.to_str().unwrap().to_string()); c.extension = ext.map(|e| e.to_string());
  let mut a: Vec<String> = c.iter().map(|d| d.path.clone()).collect(); a.sort();
  if a != want { fail!("sequential walk with extension {ext:?} processes {a:?}, expected {want:?}") }
  Res::Pass(!want.is_empty() && want.len() < fs.len())
}

// ---------------------------------------------------------------- C26
fn gen26(g: &mut G, k: usize) -> Value {
  let n = STRUCTURAL.len() + AMS.len();
  if k < 4 * n { return json!({"env": k % n, "case": k / n}) }
  if g.r.chance(1, 4) { return json!({"env": g.r.below(n), "case": 4 + g.r.below(1000)}) }
  const P: &[&str] = &["ltx_theorem", "ltx_proof", "ltx_theorem_lemma", "ltx_theorem_thm", "ltx_theorem_Proof", "ltx_theorem_proof", "ltx_theorem_", "ltx_para", "lemma", "ltx_theorem-x", "theorem", "ltx_theorem_qqq", "ltx_theorem_éa", "ltx_theorem_case", "ltx_theorems", "xltx_theorem_rule", "ltx_theorem_step.", "ltx_proof_x"];
  let m = g.r.range(0, 3);
  let c: Vec<String> = (0..m).map(|_| if g.r.chance(1, 3) { format!("ltx_theorem_{}", g.r.pick(AMS).1.to_string()) } else if g.r.chance(1, 6) && !g.lits.strs.is_empty() { let l = g.r.pick(&g.lits.strs).clone(); if g.r.chance(1, 2) { format!("ltx_theorem_{l}") } else { l } } else { g.r.pick(P).to_string() }).collect();
  json!({"class": c.join(*g.r.pick(&[" ", " ", "", "  "]))})
}
fn cased(s: &str, k: usize) -> String { match k { 0 => s.into(), 1 => s.to_uppercase(), 2 => s.chars().enumerate().map(|(i, c)| if i == 0 { c.to_ascii_uppercase() } else { c }).collect(), 3 => s.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c } else { c.to_ascii_uppercase() }).collect(), _ => { let mut r = Rng::new(k as u64); s.chars().map(|c| if r.chance(1, 2) { c.to_ascii_uppercase() } else { c }).collect() } } }
fn wordchar(c: char) -> bool { c == '_' || c.is_ascii_alphanumeric() || { use std::sync::OnceLock; static R: OnceLock<regex::Regex> = OnceLock::new(); !c.is_ascii() && R.get_or_init(|| regex::Regex::new(r"^\w$").unwrap()).is_match(c.encode_utf8(&mut [0; 4])) } }
fn check26(v: &Value) -> Res {
  if let Some(i) = v["env"].as_u64() {
    let (i, k) = (i as usize, v["case"].as_u64().unwrap_or(0) as usize);
    if i < STRUCTURAL.len() {
      let (id, e) = STRUCTURAL[i];
      let name = e.to_string();
      for (jd, f) in STRUCTURAL { if *jd != id && f.to_string() == name { fail!("StructuralEnv::{id} and StructuralEnv::{jd} are both printed {name:?}") } }
      let c = cased(&name, k);
      let back = StructuralEnv::from(c.as_str());
      if back != e { fail!("{c:?}, the printed name of StructuralEnv::{id}, is recognised as {back:?}") }
    } else if i < STRUCTURAL.len() + AMS.len() {
      let (id, e) = AMS[i - STRUCTURAL.len()];
      let name = e.to_string();
      for (jd, f) in AMS { if *jd != id && f.to_string() == name { fail!("AmsEnv::{id} and AmsEnv::{jd} are both printed {name:?}") } }
      if k == 0 && id != "Other" {
        for c in [format!("ltx_theorem ltx_theorem_{name}"), format!("ltx_theorem_{name}"), format!("ltx_theorem ltx_theorem_{name} x")] { if class_to_env(&c) != Some(e) { fail!("class {c:?} maps to {:?}", class_to_env(&c)) } }
      }
    } else { return Res::Skip }
    return Res::Pass(true)
  }
  let Some(c) = v["class"].as_str() else { return Res::Skip };
  let got = class_to_env(c);
  let want = if c.contains("ltx_theorem") {
    // the environment named after the first marker followed by a word
    let w = c.match_indices("ltx_theorem_").map(|(i, m)| c[i + m.len()..].chars().take_while(|c| wordchar(*c)).collect::<String>()).find(|w| !w.is_empty());
    Some(match w { Some(w) => normalize_env(&w), None => AmsEnv::Theorem })
  } else if c == "ltx_proof" { Some(AmsEnv::Proof) } else { None };
  if got != want { fail!("class {c:?} maps to {got:?}, expected {want:?}") }
  Res::Pass(want.is_some())
}
pub fn props() -> Vec<Prop> {
  vec![
    Prop { id: "C24", rule: "up to 40 scratch documents with random reports, walked on 1 to 8 worker threads twice; non-trivial: several documents and keys", files: &["parallel_data/corpus.rs"], gen: gen24, check: check24, secs: 5.0 },
    Prop { id: "C25", rule: "random scratch trees with look-alike names and extension settings; non-trivial: some file selected and some not", files: &["parallel_data/corpus.rs", "data.rs"], gen: gen25, check: check25, secs: 5.0 },
    Prop { id: "C26", rule: "every environment (read from the enums of the current source) in several letter cases, then random class attributes", files: &[], gen: gen26, check: check26, secs: 4.0 },
  ]
}
