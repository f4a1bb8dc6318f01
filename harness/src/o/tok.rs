//! C09 C10 C11
use super::range::raw;
use crate::core::*;
use crate::fail;
use llamapun::dnm::{DNMParameters, DNMRange, DNM};
use llamapun::tokenizer::Tokenizer;
use serde_json::{json, Value};
thread_local! { static TOK: Tokenizer = Tokenizer::default(); }

fn gen09(g: &mut G, k: usize) -> Value {
  let al: &[char] = &['a', 'A', '.', ' ', '\n', '\'', '(', '?', 'é', '1'];
  let t = enum_string(al, k, 4).unwrap_or_else(|| match g.r.below(5) {
    0 => { let n = g.r.range(0, 14); (0..n).map(|_| *g.r.pick(&['a', 'A', '.', ':', ' ', '\n', '\'', '(', ')', '?', 'É', 'é', '1', '"', '*', '\u{a0}', 'I', '!', '[', ']'])).collect() },
    1 => g.text(20), _ => { let n = g.r.range(1, 25); g.prose(n) } });
  json!({"text": t, "norm": g.r.chance(1, 4)})
}
fn c09(v: &Value) -> Res {
  let p = if v["norm"] == true { DNMParameters::default() } else { raw() };
  let (_d, m) = DNM::from_str(st(v, "text"), Some(p)).unwrap();
  let cs: Vec<char> = m.plaintext.chars().collect();
  let got: Vec<(usize, usize)> = TOK.with(|t| t.sentences(&m).iter().map(|r| (r.start, r.end)).collect());
  let mut last = 0;
  for &(a, b) in &got {
    if !(a < b && b <= cs.len()) { fail!("sentence {a}..{b} empty or outside the text of {} characters ({:?})", cs.len(), got) }
    if a < last { fail!("sentence {a}..{b} starts before the previous ended ({last}); all: {:?}", got) }
    if cs[a].is_whitespace() || cs[b - 1].is_whitespace() { fail!("sentence {a}..{b} starts or ends with whitespace in {:?}", m.plaintext) }
    if let Some(i) = (last..a).find(|i| !cs[*i].is_whitespace()) { fail!("character {i} ({:?}) before sentence {a}..{b} is in no sentence; all {:?}", cs[i], got) }
    last = b;
  }
  Res::Pass(got.len() > 1)
}
fn gen10(g: &mut G, k: usize) -> Value {
  let al: &[char] = &['a', 's', '\'', '’', ' ', 'é', '.', '1'];
  let t = enum_string(al, k, 4).unwrap_or_else(|| if g.r.chance(1, 3) { let n = g.r.range(0, 12); (0..n).map(|_| *g.r.pick(&['a', 's', '\'', '’', ' ', 'é', '.', 't', 'd', 'm', 'l', 'v', 'e', 'r', 'u', 'n', 'h', 'i', 'ß', '中', '-', '_', '٣', '\u{301}'])).collect() } else { g.text(8) });
  let n = t.chars().count();
  let (mut a, mut b) = (0, n);
  if g.r.chance(1, 3) { a = g.r.range(0, n); b = g.r.range(a, n); }
  json!({"text": t, "start": a, "end": b})
}
fn setup(v: &Value) -> Option<(libxml::tree::Document, DNM, usize, usize, Vec<char>)> {
  let (d, m) = DNM::from_str(st(v, "text"), Some(raw())).unwrap();
  let cs: Vec<char> = m.plaintext.chars().collect();
  let a = (v["start"].as_u64().unwrap_or(0) as usize).min(cs.len());
  let b = (v["end"].as_u64().unwrap_or(0) as usize).min(cs.len());
  if a > b { return None; }
  Some((d, m, a, b, cs))
}
fn apos(c: char) -> bool { c == '\'' || c == '’' }
fn c10(v: &Value) -> Res {
  let Some((_d, m, a, b, cs)) = setup(v) else { return Res::Skip };
  let mut want = Vec::new();
  let wc = |i: usize| cs[i].is_alphanumeric() || (apos(cs[i]) && i + 1 < b && cs[i + 1] == 's');
  let mut i = a;
  while i < b { if !wc(i) { i += 1; continue; } let s = i; while i < b && wc(i) { i += 1; } want.push((s, i)); }
  let r = DNMRange { start: a, end: b, dnm: &m };
  let got: Vec<(usize, usize)> = TOK.with(|t| t.words(&r).iter().map(|r| (r.start, r.end)).collect());
  if got != want { fail!("words of {:?}: {:?}, expected {:?}", r.get_plaintext(), got, want) }
  Res::Pass(want.len() > 1)
}
const CONTR: &[&str] = &["t", "s", "un", "th", "ll", "d", "ve", "il", "re", "m"];
fn c11(v: &Value) -> Res {
  let Some((_d, m, a, b, cs)) = setup(v) else { return Res::Skip };
  let mut want = Vec::new();
  let mut i = a;
  let run = |mut j: usize| { while j < b && cs[j].is_alphanumeric() { j += 1; } j };
  while i < b {
    if cs[i].is_whitespace() { i += 1; continue; }
    if cs[i].is_alphanumeric() { let j = run(i); want.push((i, j)); i = j; continue; }
    if apos(cs[i]) {
      let j = run(i + 1);
      let w: String = cs[i + 1..j].iter().collect();
      if CONTR.contains(&w.as_str()) { want.push((i, j)); i = j; continue; }
    }
    want.push((i, i + 1)); i += 1;
  }
  let r = DNMRange { start: a, end: b, dnm: &m };
  let got: Vec<(usize, usize)> = TOK.with(|t| t.words_and_punct(&r).iter().map(|r| (r.start, r.end)).collect());
  if got != want { fail!("tokens of {:?}: {:?}, expected {:?}", r.get_plaintext(), got, want) }
  Res::Pass(want.len() > 1)
}
pub fn props() -> Vec<Prop> {
  let f: &[&str] = &["tokenizer.rs", "dnm/range.rs"];
  vec![
    Prop { id: "C09", rule: "texts (all strings of length <= 4 over 10 sentence-relevant characters, then random prose with abbreviations, stop words, formulas, line breaks, Unicode); non-trivial: at least two sentences", files: f, gen: gen09, check: c09, secs: 6.0 },
    Prop { id: "C10", rule: "texts (all strings of length <= 4 over 8 characters, then random), full or sub-range; non-trivial: at least two words", files: f, gen: gen10, check: c10, secs: 4.0 },
    Prop { id: "C11", rule: "as C10; non-trivial: at least two tokens", files: f, gen: gen10, check: c11, secs: 4.0 },
  ]
}
