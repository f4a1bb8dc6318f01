//! C34: plain strings as document models
use crate::core::*;
use crate::fail;
use libxml::readonly::RoNode;
use llamapun::dnm::{DNMParameters, SpecialTagsOption, DNM};
use serde_json::{json, Value};

const LEX: &[&str] = &["NUM", "a_b", "italic_x", "italic_x_POSTSUBSCRIPT_NUM", "_", "a_", "_b", "__", "___", "xNUM", "NUMx", "NUM,", "a_b.", "_a_b", "é_ü", "the", "mathformula"];
fn gen(g: &mut G, k: usize) -> Value {
  let s = if let Some(s) = enum_string(&['a', '_', ' ', '\n', 'é'], k, 5) { s }
  else {
    let n = g.r.range(0, 7);
    let mut s = String::new();
    for _ in 0..n {
      if g.r.chance(3, 5) { s.push_str(g.r.pick(LEX)); } else { s.push_str(&g.text(2)); }
      match g.r.below(8) { 0..=3 => s.push(' '), 4 | 5 => s.push('\n'), 6 => s.push(g.ws()), _ => {} }
    }
    s
  };
  json!({"s": s, "ams": g.r.chance(3, 5), "p": g.r.below(4), "skip": *g.r.pick(&["", "", "ltx_para", "x"]), "tag": *g.r.pick(&["", "", "div", "body", "html", "p"])})
}
fn params(v: &Value) -> Option<DNMParameters> {
  let p = v["p"].as_u64().unwrap_or(0);
  if p == 0 { return None }
  let mut q = DNMParameters { normalize_white_spaces: p != 2, convert_to_lowercase: p == 3, ..Default::default() };
  let (c, t) = (st(v, "skip"), st(v, "tag"));
  if !c.is_empty() { q.special_tag_class_options.insert(c.into(), SpecialTagsOption::Normalize("PARA".into())); }
  if !t.is_empty() { q.special_tag_name_options.insert(t.into(), SpecialTagsOption::Skip); }
  Some(q)
}
/// a word from its i-th character on is a lexeme
fn lexeme(w: &[char]) -> bool { w == ['N', 'U', 'M'] || (w.len() >= 3 && w[1..w.len() - 1].contains(&'_')) }
fn finished(l: &str) -> String {
  let cs: Vec<char> = l.chars().collect();
  let mut o = String::new();
  let end = |i: usize| { let mut e = i; while e < cs.len() && !cs[e].is_whitespace() { e += 1 } e };
  let mut i = 0;
  while i < cs.len() {
    let mut j = i; let mut hit = false;
    loop {
      let e = end(j);
      if e > j && lexeme(&cs[j..e]) { hit = true; j = (e + 1).min(cs.len()); } else { break }
    }
    if hit { o.push_str("mathformula "); i = j; } else { o.push(cs[i]); i += 1; }
  }
  match o.chars().next() { Some(c) if c.is_ascii_lowercase() => format!("{}{}", (c as u8 - 32) as char, &o[1..]), _ => o }
}
fn rebuilt(s: &str) -> String {
  let mut o = String::new();
  let mut line = String::new();
  let mut first = true;
  let mut put = |l: &mut String| { if !l.is_empty() { if !first { o.push_str(" . ") } first = false; o.push_str(&finished(l)); l.clear(); } };
  for c in s.chars() { if c == '\n' { put(&mut line) } else { line.push(c) } }
  put(&mut line);
  o
}
fn collapsed(s: &str) -> String {
  let mut o = String::new(); let mut ws = true;
  for c in s.chars() { if c.is_whitespace() { if !ws { o.push(' ') } ws = true } else { o.push(c); ws = false } }
  o
}
fn show(n: RoNode, o: &mut String) {
  if n.is_text_node() { o.push_str(&format!("{:?}", n.get_content())); return }
  let mut a: Vec<(String, String)> = n.get_properties().into_iter().collect(); a.sort();
  o.push_str(&format!("{}{a:?}[", n.get_name()));
  for k in n.get_child_nodes() { show(k, o); o.push(';') }
  o.push(']');
}
fn check(v: &Value) -> Res {
  let s = st(v, "s");
  if s.contains('\0') { return Res::Skip }
  let ams = v["ams"] == true;
  let want = if ams { rebuilt(s) } else { s.to_string() };
  let (f, made) = if ams { ("from_ams_paragraph_str", DNM::from_ams_paragraph_str(s, params(v))) } else { ("from_str", DNM::from_str(s, params(v))) };
  let (doc, m) = match made { Ok(x) => x, Err(e) => fail!("{f}({s:?}) fails: {e}") };
  let Some(root) = doc.get_root_readonly() else { fail!("{f}({s:?}): the document has no root") };
  let mut got = String::new(); show(root, &mut got);
  let text = if want.is_empty() { String::new() } else { format!("{want:?};") };
  let tree = format!("html[][body[][div{:?}[{text}];];]", [("class", "ltx_para")]);
  if got != tree { fail!("{f}({s:?}) builds {got}, expected {tree}") }
  if m.root_node != root { fail!("{f}({s:?}): the model is not that of the root") }
  let p = params(v).unwrap_or_default();
  let skipped = ["html", "body", "div"].iter().position(|t| p.special_tag_name_options.contains_key(*t));
  let plain = if skipped.map_or(false, |i| i < 2) { String::new() }
    else if p.special_tag_class_options.contains_key("ltx_para") { "PARA".to_string() }
    else if skipped.is_some() { String::new() }
    else { let t = if p.convert_to_lowercase { want.to_lowercase() } else { want.clone() }; if p.normalize_white_spaces { collapsed(&t) } else { t } };
  if m.plaintext != plain { fail!("{f}({s:?}): the model's text is {:?}, expected {plain:?}", m.plaintext) }
  let other = DNM::new(root, p);
  if (other.node_map != m.node_map) || other.back_map != m.back_map || other.byte_offsets != m.byte_offsets { fail!("{f}({s:?}): not the model of the document under the given parameters") }
  Res::Pass(s.chars().count() > 2)
}
pub fn props() -> Vec<Prop> {
  vec![Prop { id: "C34", rule: "every string of up to five of five characters, then random texts of lexemes, words and white space, as they are and rebuilt as tokenized paragraphs, under four parameter sets with rules on the built elements: the document read back node by node, the model's text and tables; non-trivial: more than two characters", files: &["dnm/c14n.rs", "dnm/mod.rs"], gen, check, secs: 4.0 }]
}
