//! C12 C13 C14 C15
use crate::core::*;
use crate::fail;
use llamapun::ngrams::{Dictionary, Ngrams};
use serde_json::{json, Value};
use std::collections::HashMap;

fn words(v: &Value) -> Vec<&str> { v.as_array().map(|a| a.iter().filter_map(|x| x.as_str()).collect()).unwrap_or_default() }
fn gen_words(g: &mut G, k: usize, alpha: &[&str], max: usize) -> Vec<String> {
  let chars: Vec<char> = ('a'..='z').take(alpha.len()).collect();
  if let Some(s) = enum_string(&chars, k, 5) { return s.chars().map(|c| alpha[(c as u8 - b'a') as usize].to_string()).collect(); }
  let n = g.r.range(0, max);
  (0..n).map(|_| if g.r.chance(1, 8) { let p = g.piece(); let p: String = p.chars().filter(|c| !c.is_whitespace()).collect(); if p.is_empty() { "w".into() } else { p } } else { g.r.pick(alpha).to_string() }).collect()
}
fn gen12(g: &mut G, k: usize) -> Value {
  let al = ["a", "b", "é", "the"];
  let n = if g.r.chance(1, 12) { g.r.range(1, 12) } else { g.r.range(1, 4) };
  let m = if g.r.chance(1, 10) { 60 } else { 12 };
  let seqs: Vec<Vec<String>> = if k < 1200 { vec![gen_words(g, k, &al, 12)] } else { (0..g.r.range(1, 3)).map(|_| gen_words(g, usize::MAX / 2, &al, m)).collect() };
  let ins: Vec<String> = if g.r.chance(1, 3) { gen_words(g, usize::MAX / 2, &["a", "b", "a b", "q"], 4) } else { vec![] };
  json!({"n": n, "seqs": seqs, "ins": ins})
}
fn c12(v: &Value) -> Res {
  let n = v["n"].as_u64().unwrap_or(1).max(1) as usize;
  let mut g = if n == 1 { Ngrams::default() } else { Ngrams { n, ..Default::default() } };
  if !g.counts.is_empty() || g.anchor.is_some() { fail!("a new recorder is not empty") }
  let mut want: HashMap<String, usize> = HashMap::new();
  let mut nt = false;
  for s in v["seqs"].as_array().map(|a| a.as_slice()).unwrap_or(&[]) {
    let w = words(s);
    g.record_words(w.clone());
    if w.len() >= n { for i in 0..=w.len() - n { *want.entry(w[i..i + n].join(" ")).or_insert(0) += 1; nt = true; } }
    if g.counts != want { fail!("after recording {:?} with n={n}: {:?}, expected {:?}", w, g.counts, want) }
  }
  for p in words(&v["ins"]) { g.insert(p.to_string()); *want.entry(p.to_string()).or_insert(0) += 1; }
  if g.counts != want { fail!("after insertions: {:?}, expected {:?}", g.counts, want) }
  for (k, c) in &want { if g.get(k) != *c { fail!("get({k:?}) = {}, expected {c}", g.get(k)) } }
  for k in ["", "zz", "a  b", " a"] { let e = want.get(k).copied().unwrap_or(0); if g.get(k) != e { fail!("get({k:?}) = {}, expected {e}", g.get(k)) } }
  if g.distinct_count() != want.len() { fail!("distinct_count {}, expected {}", g.distinct_count(), want.len()) }
  Res::Pass(nt)
}
fn gen13(g: &mut G, k: usize) -> Value {
  let n = g.r.range(1, 3); let w = if g.r.chance(1, 10) { g.r.range(1, 12) } else { g.r.range(1, 4) };
  let toks: Vec<String> = if let Some(s) = enum_string(&['a', 'X'], k, 10) { s.chars().enumerate().map(|(i, c)| if c == 'X' { "X".into() } else { ((b'a' + (i % 26) as u8) as char).to_string() }).collect() }
    else { let m = g.r.range(0, 30); (0..m).map(|i| match g.r.below(16) { 0 | 1 | 2 => "X".to_string(), 3 => "-".into(), 4 => "Xy".into(), 5 => "é".into(), 6 => ".X".into(), 7 => "x".into(), 8 => "3d".into(), 9 => "7".into(), 10 => (*g.r.pick(&["'s", "½", "٣", "_a", "X.", "X,", "\u{2019}q", "ſ", "İ"])).into(), 11 => { let p = g.piece(); let p: String = p.chars().filter(|c| !c.is_whitespace()).collect(); if p.is_empty() { "w".into() } else { p } }, _ => format!("w{}", i % 5) }).collect() };
  let mut s = String::new();
  for t in toks { s.push_str(&t); s.push_str(*g.r.pick(&[" ", " ", "  ", "\n", "\t", " . ", "\u{a0}"])); }
  json!({"n": n, "w": w, "content": s, "anchor": if g.r.chance(1, 15) { *g.r.pick(&[".X", "é", "3d", "Xy", "x"]) } else { "X" }})
}
fn c13(v: &Value) -> Res {
  let n = v["n"].as_u64().unwrap_or(1).max(1) as usize;
  let w = v["w"].as_u64().unwrap_or(1).max(1) as usize;
  let content = st(v, "content");
  let anchor = st(v, "anchor");
  let mut g = Ngrams { n, window_size: w, anchor: Some(anchor.to_string()), ..Default::default() };
  g.add_content(content);
  let ws: Vec<&str> = content.split_ascii_whitespace().filter(|x| x.chars().next().unwrap().is_alphanumeric()).collect();
  let just: Vec<bool> = (0..ws.len()).map(|i| (i.saturating_sub(w)..=(i + w).min(ws.len() - 1)).any(|j| ws[j] == anchor)).collect();
  let mut want: HashMap<String, usize> = HashMap::new();
  let mut i = 0;
  while i < ws.len() {
    if !just[i] { i += 1; continue; }
    let mut j = i; while j < ws.len() && just[j] { j += 1; }
    if j - i >= n { for p in i..=j - n { *want.entry(ws[p..p + n].join(" ")).or_insert(0) += 1; } }
    i = j;
  }
  if g.counts != want { fail!("anchor {anchor:?} W={w} n={n} over {:?}: {:?}, expected {:?}", ws, g.counts, want) }
  Res::Pass(!want.is_empty() && just.iter().any(|b| !b))
}
fn gen14(g: &mut G, k: usize) -> Value { json!({"ins": gen_words(g, k, &["a", "b", "c", "A", ""], 20)}) }
fn c14(v: &Value) -> Res {
  let ins = words(&v["ins"]);
  let mut d = Dictionary::new();
  let mut want: HashMap<String, usize> = HashMap::new();
  for w in &ins {
    d.insert(w.to_string());
    let n = want.len() + 1; want.entry(w.to_string()).or_insert(n);
    if d.map != want || d.count() != want.len() { fail!("after inserting {:?}: map {:?} count {}, expected {:?}", ins, d.map, d.count(), want) }
  }
  Res::Pass(want.len() < ins.len())
}
fn gen15(g: &mut G, k: usize) -> Value {
  if k >= 600 && k % 24 == 0 { // long histories: large counts and large dictionaries
    let mut ins: Vec<String> = vec![];
    if g.r.chance(1, 2) { let big = *g.r.pick(&[256usize, 257, 300, 512, 700]); for _ in 0..big { ins.push("a".into()); } for i in 0..g.r.range(1, 30) { for _ in 0..g.r.range(1, 12) { ins.push(format!("w{i}")); } } }
    else { for i in 0..g.r.range(250, 600) { ins.push(format!("w{i}")); } }
    return json!({"ins": ins});
  }
  gen14(g, k)
}
fn c15(v: &Value) -> Res {
  let ins = words(&v["ins"]);
  let mut d = Dictionary::new(); let mut g = Ngrams::default();
  for w in &ins { d.insert(w.to_string()); g.insert(w.to_string()); }
  for (name, rep, map) in [("dictionary", d.sorted(), &d.map), ("ngrams", g.sorted(), &g.counts)] {
    let m: HashMap<String, usize> = rep.iter().map(|(k, c)| (k.to_string(), *c)).collect();
    if rep.len() != map.len() || &m != map { fail!("{name} report {:?} does not list {:?} once each", rep, map) }
    if rep.windows(2).any(|w| w[0].1 < w[1].1) { fail!("{name} report not descending: {:?}", rep) }
  }
  Res::Pass(g.counts.len() > 1)
}
pub fn props() -> Vec<Prop> {
  let f: &[&str] = &["ngrams.rs"];
  vec![
    Prop { id: "C12", rule: "word sequences (all of length <= 5 over 4 words, then random) recorded with n in 1..12 plus single insertions, compared with a window count; non-trivial: some window exists", files: f, gen: gen12, check: c12, secs: 3.0 },
    Prop { id: "C13", rule: "contents (all anchor placements up to length 10, then random) with W, n; non-trivial: some word is justified and some is not", files: f, gen: gen13, check: c13, secs: 3.0 },
    Prop { id: "C14", rule: "insertion sequences (all of length <= 5 over 5 words, then random); non-trivial: some word repeats", files: f, gen: gen14, check: c14, secs: 3.0 },
    Prop { id: "C15", rule: "as C14; non-trivial: at least two entries", files: f, gen: gen15, check: c15, secs: 3.0 },
  ]
}
