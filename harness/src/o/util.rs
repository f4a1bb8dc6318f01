//! C17: the private XML helpers, compiled from the source file of the current tree
use super::dnm::esc;
use crate::core::*;
use libxml::parser::Parser;
use libxml::readonly::RoNode;
use libxml::tree::NodeType;
use serde_json::{json, Value};
#[cfg(vx_utils)]
#[path = "/repo/src/patterns/utils.rs"]
#[allow(dead_code, unused)]
mod utils;

fn gen(g: &mut G, k: usize) -> Value {
  let n = if k < 400 { k % 4 } else { g.r.range(0, 6) };
  let kids: Vec<Value> = (0..n).map(|_| match g.r.below(12) {
    0..=2 => { let n = g.r.range(1, 3); json!({"t": (0..n).map(|_| *g.r.pick(&[' ', '\n', '\t', '\u{a0}', '\u{2003}'])).collect::<String>()}) },
    3 | 4 => { let mut t = g.text(2); if g.r.chance(1, 2) { t = format!(" {t}\n"); } json!({"t": t}) },
    5 => json!({"c": "note"}), 6 => json!({"d": if g.r.chance(1, 2) { " " } else { "x<y" }}), 7 => json!({"p": 1}),
    _ => json!({"e": *g.r.pick(&["a", "b", "text", "comment"])}),
  }).collect();
  json!({"kids": kids, "trim": g.r.chance(1, 2), "attr": if g.r.chance(2, 3) { json!(g.text(1)) } else { Value::Null }})
}
fn xml(v: &Value) -> String {
  let mut s = String::from("<r");
  if let Some(a) = v["attr"].as_str() { s.push_str(&format!(" name=\"{}\" other=\"1\"", esc(a))); }
  s.push('>');
  let mut text_before = false;
  for k in v["kids"].as_array().unwrap_or(&vec![]) {
    // two text nodes in a row would be one
    let t = k.get("t").is_some();
    if t && text_before { s.push_str("<!--s-->"); }
    text_before = t;
    if let Some(t) = k["t"].as_str() { s.push_str(&esc(t)); }
    else if k.get("c").is_some() { s.push_str("<!-- note -->"); }
    else if let Some(t) = k["d"].as_str() { s.push_str(&format!("<![CDATA[{t}]]>")); }
    else if k.get("p").is_some() { s.push_str("<?pi x?>"); }
    else if let Some(t) = k["e"].as_str() { s.push_str(&format!("<{t}>inner</{t}>")); }
  }
  s + "</r>"
}
#[cfg(vx_utils)]
fn check(v: &Value) -> Res {
  use crate::fail;
  let x = xml(v);
  let Ok(d) = Parser::default().parse_string(&x) else { return Res::Skip };
  let Some(r) = d.get_root_readonly() else { return Res::Skip };
  let kids: Vec<RoNode> = r.get_child_nodes();
  let ty = |n: &RoNode| n.get_type();
  let text = |n: &RoNode| ty(n) == Some(NodeType::TextNode);
  let want: Vec<usize> = kids.iter().filter(|n| !text(n) && ty(n) != Some(NodeType::CommentNode)).map(|n| n.to_hashable()).collect();
  let blank = kids.iter().all(|n| !text(n) || n.get_content().chars().all(|c| c.is_whitespace()));
  let h = |v: &[RoNode]| v.iter().map(|n| n.to_hashable()).collect::<Vec<_>>();
  let fast = utils::fast_get_non_text_children(r);
  if h(&fast) != want { fail!("fast_get_non_text_children of {x}: {} nodes, expected {}", fast.len(), want.len()) }
  match utils::get_non_text_children(r) {
    Ok(c) => { if !blank { fail!("get_non_text_children accepts {x}, which has text") } if h(&c) != want { fail!("get_non_text_children of {x}: {} nodes, expected {}", c.len(), want.len()) } },
    Err(_) => if blank { fail!("get_non_text_children refuses {x}, which has no text") },
  }
  match utils::get_only_child(r) {
    Ok(c) => { if !blank || want.len() != 1 { fail!("get_only_child accepts {x}") } if c.to_hashable() != want[0] { fail!("get_only_child of {x} returns another node") } },
    Err(_) => if blank && want.len() == 1 { fail!("get_only_child refuses {x}") },
  }
  if utils::assert_no_child(r).is_ok() != (blank && want.is_empty()) { fail!("assert_no_child of {x}: {}", utils::assert_no_child(r).is_ok()) }
  for trim in [false, true] {
    let simple = kids.is_empty() || kids.len() == 1 && text(&kids[0]);
    match utils::get_simple_node_content(r, trim) {
      Ok(s) => { if !simple { fail!("get_simple_node_content accepts {x}") } let c = if kids.is_empty() { String::new() } else { kids[0].get_content() }; let w = if trim { c.trim().to_string() } else { c }; if s != w { fail!("get_simple_node_content of {x} (trim {trim}): {s:?}, expected {w:?}") } },
      Err(_) => if simple { fail!("get_simple_node_content refuses {x}") },
    }
  }
  for k in ["name", "other", "missing", "Name"] {
    let w = r.get_property(k);
    match (utils::require_node_property(r, k), w) { (Ok(a), Some(b)) if a == b => {}, (Err(_), None) => {}, (a, b) => fail!("require_node_property({k}) of {x}: {a:?}, the attribute is {b:?}") }
  }
  for p in [None, Some("x".to_string())] { if utils::check_found_property_already(&p, "a", "b").is_ok() != p.is_none() { fail!("check_found_property_already({p:?})") } }
  for n in &kids { if utils::is_comment_node(*n) != (ty(n) == Some(NodeType::CommentNode)) { fail!("is_comment_node of a child of {x}") } }
  Res::Pass(kids.len() > 1)
}
#[cfg(not(vx_utils))]
fn check(_: &Value) -> Res { Res::Skip }
pub fn props() -> Vec<Prop> {
  vec![Prop { id: "C17", rule: "elements with up to 6 children (text, blank text, comments, CDATA, processing instructions, elements), attribute present or not; all helpers; non-trivial: at least two children", files: &["patterns/utils.rs"], gen, check, secs: 4.0 }]
}
