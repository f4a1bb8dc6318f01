//! C22: canonical form and hash
use super::dnm::esc;
use crate::core::*;
use crate::fail;
use libxml::parser::Parser;
use libxml::readonly::RoNode;
use libxml::tree::NodeType;
use llamapun::dnm::{DNMParameters, SpecialTagsOption, DNM};
use serde_json::{json, Value};

const NAMES: &[&str] = &["p", "div", "semantics", "annotation", "annotation-xml", "math", "span", "Semantics", "mi"];
fn el(g: &mut G, d: usize) -> String {
  let name = if g.r.chance(1, 8) && !g.lits.strs.is_empty() { let l = g.r.pick(&g.lits.strs).clone(); if !l.is_empty() && l.chars().all(|c| c.is_ascii_lowercase()) { l } else { "q".into() } } else { g.r.pick(NAMES).to_string() };
  let mut s = format!("<{name}");
  if g.r.chance(1, 4) { let n = g.r.below(50); s.push_str(&format!(" id=\"i{n}\"")); }
  if g.r.chance(2, 3) {
    let n = g.r.range(0, 5);
    let cs: Vec<&str> = (0..n).map(|_| *g.r.pick(&["b", "a", "c", "aa", "B", "Z", "é", "a-b", "a_b", "10", "9", "ltx_x", "zz"])).collect();
    let sep = *g.r.pick(&[" ", " ", "  ", "\n ", "&#9;", "\u{a0}", "\u{2003}"]);
    let pad = *g.r.pick(&["", "", " "]);
    s.push_str(&format!(" class=\"{pad}{}{pad}\"", cs.join(sep)));
  }
  if g.r.chance(1, 4) { s.push_str(" style=\"x\""); }
  s.push('>');
  let n = if d == 0 { g.r.range(0, 1) } else { g.r.range(0, 4) };
  for _ in 0..n {
    match g.r.below(12) {
      0..=3 => s.push_str(&esc(&g.text(3))),
      4 => { let n = g.r.range(1, 3); s.push_str(&esc(&(0..n).map(|_| *g.r.pick(WS)).collect::<String>())) },
      5 => s.push_str("<!-- c -->"), 6 => s.push_str("<?pi x?>"), 7 => s.push_str("<![CDATA[raw]]>"),
      _ if d > 0 => s.push_str(&el(g, d - 1)),
      _ => {},
    }
  }
  s + &format!("</{name}>")
}
fn gen(g: &mut G, k: usize) -> Value {
  let d = if k < 200 { k % 3 } else { g.r.range(0, 5) };
  json!({"!xml": el(g, d), "norm": g.r.chance(1, 2), "lower": g.r.chance(1, 4), "skip": g.r.chance(1, 4), "tok": g.r.chance(1, 4)})
}
fn want(m: &DNM, n: RoNode, o: &mut String) {
  match n.get_type() {
    Some(NodeType::TextNode) => if let Ok(r) = m.get_range_of_node(n) {
      let t: String = m.plaintext.chars().skip(r.start).take(r.end - r.start).collect();
      if t.chars().any(|c| !c.is_whitespace()) { o.push_str(&t) }
    },
    Some(NodeType::ElementNode) => {
      let name = n.get_name();
      if name == "annotation" || name == "annotation-xml" { return }
      let wrap = name == "semantics";
      if !wrap {
        o.push('<'); o.push_str(&name);
        let c = n.get_property("class").unwrap_or_default();
        let mut cs: Vec<&str> = c.split(|c: char| c.is_whitespace()).filter(|s| !s.is_empty()).collect();
        cs.sort();
        if !cs.is_empty() { o.push_str(&format!(" class=\"{}\"", cs.join(" "))) }
        o.push('>');
      }
      for k in n.get_child_nodes() { want(m, k, o) }
      if !wrap { o.push_str(&format!("</{name}>")) }
    },
    _ => {},
  }
}
fn all(n: RoNode, v: &mut Vec<RoNode>) { v.push(n); for k in n.get_child_nodes() { all(k, v) } }
/// class names reversed, identifiers and other attributes dropped
fn plain(n: RoNode, o: &mut String) {
  match n.get_type() {
    Some(NodeType::TextNode) => o.push_str(&esc(&n.get_content())),
    Some(NodeType::ElementNode) => {
      o.push_str(&format!("<{}", n.get_name()));
      if let Some(c) = n.get_property("class") { let mut w: Vec<&str> = c.split_whitespace().collect(); w.reverse(); if !w.is_empty() { o.push_str(&format!(" class=\" {}\" id=\"other\"", esc(&w.join("   ")))); } }
      o.push('>');
      for k in n.get_child_nodes() { plain(k, o) }
      o.push_str(&format!("</{}>", n.get_name()));
    },
    Some(NodeType::CDataSectionNode) => o.push_str("<![CDATA[raw]]>"),
    Some(NodeType::PiNode) => o.push_str("<?pi x?>"),
    _ => o.push_str("<!-- another comment -->"),
  }
}
fn check(v: &Value) -> Res {
  let x = if v.get("!xml").is_some() { st(v, "!xml") } else { st(v, "xml") };
  let Ok(doc) = Parser::default().parse_string(x) else { return Res::Skip };
  let Some(root) = doc.get_root_readonly() else { return Res::Skip };
  let params = || {
    let mut p = DNMParameters { normalize_white_spaces: v["norm"] == true, convert_to_lowercase: v["lower"] == true, ..Default::default() };
    if v["skip"] == true { p.special_tag_name_options.insert("span".into(), SpecialTagsOption::Skip); }
    if v["tok"] == true { p.special_tag_name_options.insert("math".into(), SpecialTagsOption::Normalize("TOK".into())); }
    p
  };
  let m = DNM::new(root, params());
  let mut nodes = vec![]; all(root, &mut nodes);
  let before = (m.plaintext.clone(), m.back_map.len());
  for n in &nodes {
    let got = m.node_c14n_basic(*n);
    let mut w = String::new(); want(&m, *n, &mut w);
    if got != w { fail!("canonical form of <{}> in {x:?}: {got:?}, expected {w:?}", n.get_name()) }
    let h = m.node_hash_basic(*n);
    if h != crypto::md5::md5_hex(w.as_bytes()) { fail!("hash of {w:?} is {h}, not its MD5") }
  }
  let c = m.to_c14n_basic();
  let mut w = String::new(); want(&m, root, &mut w);
  if c != w { fail!("to_c14n_basic of {x:?}: {c:?}, expected {w:?}") }
  if m.to_hash_basic() != crypto::md5::md5_hex(w.as_bytes()) { fail!("to_hash_basic of {x:?} is not the MD5 of {w:?}") }
  if (m.plaintext.clone(), m.back_map.len()) != before { fail!("computing the canonical form of {x:?} changed the document model") }
  let mut y = String::new(); plain(root, &mut y);
  if let Ok(d2) = Parser::default().parse_string(&y) { if let Some(r2) = d2.get_root_readonly() {
    let c2 = DNM::new(r2, params()).to_c14n_basic();
    if c2 != c { fail!("classes reordered / attributes changed: {c2:?} instead of {c:?} for {x:?}") }
  } }
  Res::Pass(nodes.len() > 2 && w.contains("class=") )
}
pub fn props() -> Vec<Prop> {
  vec![Prop { id: "C22", rule: "random element trees up to depth 5 with classes, identifiers, annotations, semantics, comments, CDATA and instructions; every node's canonical form and hash against a direct reading, and against the same tree with classes reordered and attributes changed; non-trivial: more than two nodes and a class", files: &["dnm/c14n.rs"], gen, check, secs: 4.0 }]
}
