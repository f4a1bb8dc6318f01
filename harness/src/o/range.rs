//! C06 C07 C08 C23
use crate::core::*;
use crate::fail;
use libxml::parser::Parser;
use libxml::xpath::Context;
use llamapun::dnm::{DNMParameters, DNMRange, DNM};
use serde_json::{json, Value};

pub fn raw() -> DNMParameters { DNMParameters { normalize_white_spaces: false, ..Default::default() } }
fn off(v: &Value, k: &str, cap: usize) -> usize { (v[k].as_u64().unwrap_or(0) as usize).min(cap) }

fn gen_text(g: &mut G, k: usize, alpha: &[char], n: usize) -> String {
  enum_string(alpha, k, n).unwrap_or_else(|| if g.r.chance(1, 3) { g.prose(6) } else { g.text(8) })
}
fn gen_range(g: &mut G, k: usize) -> Value {
  let t = gen_text(g, k / 3, &['a', ' ', 'é', '\u{3000}', '😀'], 5);
  let n = t.chars().count();
  let (mut a, mut b) = (g.r.range(0, n), g.r.range(0, n));
  if k % 3 == 0 { a = 0; b = n; }
  if a > b { std::mem::swap(&mut a, &mut b); }
  let m = b - a;
  let (mut c, mut d) = (g.r.range(0, m), g.r.range(0, m));
  if c > d { std::mem::swap(&mut c, &mut d); }
  json!({"text": t, "start": a, "end": b, "rs": c, "re": d, "norm": g.r.chance(1, 4)})
}
fn build(v: &Value) -> (libxml::tree::Document, DNM) {
  let t = st(v, "text");
  let p = if v["norm"] == true { DNMParameters::default() } else { raw() };
  DNM::from_str(t, Some(p)).unwrap()
}
pub fn slice(m: &DNM, a: usize, b: usize) -> String { m.plaintext.chars().skip(a).take(b - a).collect() }

fn c06(v: &Value) -> Res {
  let (_d, m) = build(v);
  let n = m.plaintext.chars().count();
  let (a, b) = (off(v, "start", n), off(v, "end", n));
  if a > b { return Res::Skip; }
  let r = DNMRange { start: a, end: b, dnm: &m };
  let want = slice(&m, a, b);
  if r.get_plaintext() != want { fail!("range {a}..{b}: plaintext {:?}, addressed characters {:?}", r.get_plaintext(), want) }
  if r.is_empty() != want.is_empty() { fail!("is_empty of {a}..{b} is {}", r.is_empty()) }
  let cut = want.trim_end_matches(char::is_whitespace);
  if r.get_plaintext_truncated() != cut { fail!("truncated {:?}, expected {:?}", r.get_plaintext_truncated(), cut) }
  let (c, d) = (off(v, "rs", b - a), off(v, "re", b - a));
  if c <= d {
    let s = r.get_subrange(c, d);
    let sw: String = want.chars().skip(c).take(d - c).collect();
    if s.end < s.start || s.end > n || s.get_plaintext() != sw { fail!("subrange {c}..{d} of {a}..{b} is {}..{}, expected text {:?}", s.start, s.end, sw) }
  }
  let cl = r.clone();
  if (cl.start, cl.end) != (a, b) || cl.get_plaintext() != r.get_plaintext() { fail!("clone of {a}..{b} is {}..{}", cl.start, cl.end) }
  if a < n && r.get_node() != m.back_map[a].0 { fail!("node of {a}..{b} is not the source of character {a}") }
  Res::Pass(want.len() != want.chars().count() && a < b)
}
fn c07(v: &Value) -> Res {
  let (_d, m) = build(v);
  let n = m.plaintext.chars().count();
  let (a, b) = (off(v, "start", n), off(v, "end", n));
  if a > b { return Res::Skip; }
  let cs: Vec<char> = m.plaintext.chars().collect();
  let t = DNMRange { start: a, end: b, dnm: &m }.trim();
  let (mut x, mut y) = (a, b);
  while x < y && cs[x].is_whitespace() { x += 1; }
  while y > x && cs[y - 1].is_whitespace() { y -= 1; }
  if x >= y { x = b; y = b; }
  if (t.start, t.end) != (x, y) { fail!("trim of {a}..{b} gives {}..{}, expected {x}..{y} in {:?}", t.start, t.end, m.plaintext) }
  Res::Pass((x, y) != (a, b) || x == y)
}
fn c08(v: &Value) -> Res {
  let (_d, m) = build(v);
  let cs: Vec<char> = m.plaintext.chars().collect();
  let (a, b) = (off(v, "start", cs.len()), off(v, "end", cs.len()));
  if a >= b { return Res::Skip; }
  let text: String = cs[a..b].iter().collect();
  // byte -> char index
  let mut at = Vec::new();
  for (i, c) in cs[a..b].iter().enumerate() { for _ in 0..c.len_utf8() { at.push(a + i); } }
  let r = DNMRange { start: a, end: b, dnm: &m };
  let len = text.len();
  let step = if len > 60 { len / 30 } else { 1 };
  let mut nt = false;
  for b1 in (0..len).step_by(step) {
    for b2 in (b1 + 1..=len).step_by(step) {
      let s = r.get_subrange_from_byte_offsets(b1, b2);
      let want = (at[b1], at[b2 - 1] + 1);
      if (s.start, s.end) != want { fail!("bytes {b1}..{b2} of {a}..{b}: characters {}..{}, expected {}..{} in {:?}", s.start, s.end, want.0, want.1, m.plaintext) }
      if text.is_char_boundary(b1) && text.is_char_boundary(b2) && s.get_plaintext() != &text[b1..b2] { fail!("bytes {b1}..{b2}: text {:?}", s.get_plaintext()) }
      nt = nt || text.len() != b - a;
    }
  }
  Res::Pass(nt)
}

// ---- C23
fn gen_c23(g: &mut G, k: usize) -> Value {
  let mut id = 0usize;
  fn el(g: &mut G, d: usize, id: &mut usize, depth: usize) -> String {
    let name = if depth == 0 { "html" } else { *g.r.pick(&["p", "div", "span", "b", "i", "em", "text", "comment"]) };
    let mut s = format!("<{name}");
    if depth > 0 && g.r.chance(1, 6) { *id += 1; let i = format!("n{id}"); s.push_str(&format!(" id=\"{i}\"")); }
    if g.r.chance(1, 8) { s.push_str(" class=\"tok\""); }
    s.push('>');
    let n = g.r.range(0, 4);
    let mut last_text = false;
    for _ in 0..n {
      if !last_text && g.r.chance(1, 2) { let t = g.text(3); s.push_str(&super::dnm::esc(&t)); last_text = true; }
      else if d > 0 && g.r.chance(4, 5) { s.push_str(&el(g, d - 1, id, depth + 1)); last_text = false; }
      else if g.r.chance(1, 3) { s.push_str("<![CDATA[q]]>"); last_text = true; }
      else { s.push_str("<!--c-->"); last_text = false; }
    }
    s.push_str(&format!("</{name}>"));
    s
  }
  let d = 1 + k % 4;
  let mut x = el(g, d, &mut id, 0);
  if g.r.chance(1, 4) { x = x.replacen("<html", "<html xmlns=\"http://www.w3.org/1999/xhtml\"", 1); }
  json!({"xml": x, "norm": g.r.chance(1, 2), "pairs": [g.r.next() % 1000, g.r.next() % 1000, g.r.next() % 1000, g.r.next() % 1000]})
}
fn c23(v: &Value) -> Res {
  let xml = st(v, "xml");
  let Ok(doc) = Parser::default().parse_string(xml) else { return Res::Skip };
  let Some(root) = doc.get_root_readonly() else { return Res::Skip };
  let mut p = DNMParameters { normalize_white_spaces: v["norm"] == true, ..Default::default() };
  p.special_tag_class_options.insert("tok".into(), llamapun::dnm::SpecialTagsOption::Normalize("TOKEN".into()));
  let m = DNM::new(root, p);
  let n = m.plaintext.chars().count();
  let cx = Context::new(&doc).unwrap();
  let mut ranges = Vec::new();
  if n <= 12 { for a in 0..n { for b in a + 1..=n { ranges.push((a, b)); } } }
  else { let q: Vec<usize> = v["pairs"].as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).map(|x| x as usize % (n + 1)).collect()).unwrap_or_default();
    for &a in &q { for &b in &q { if a < b { ranges.push((a, b)); } } } ranges.push((0, n)); }
  let is_text = |i: usize| m.back_map[i].1 >= 0;
  let mut nt = false;
  for (a, b) in ranges {
    if !is_text(a) || !is_text(b - 1) || (b < n && !is_text(b)) { continue; }
    // domain: every step of the pointer denotes one node (the root step `//name[k]` is ambiguous
    // when same-named elements nest; recorded as a known finding) and its like-sibling count is
    // that of its own kind
    if v["any"] != true && (!unambiguous(&m, a, xml) || !unambiguous(&m, if b < n { b } else { b - 1 }, xml)) { continue; }
    let r = DNMRange { start: a, end: b, dnm: &m };
    let s = r.serialize();
    // expected pointers
    let (n1, o1) = m.back_map[a];
    let (n2, o2) = if b < n { m.back_map[b] } else { (m.back_map[b - 1].0, m.back_map[b - 1].1 + 1) };
    let want = format!("arange(string-index({},{}),string-index({},{}))", path(&m, n1), o1 + 1, path(&m, n2), o2 + 1);
    if s != want { fail!("range {a}..{b} of {:?} serialises to {s}, expected {want}", m.plaintext) }
    let t = DNMRange::deserialize(&s, &m, &cx);
    if (t.start, t.end) != (a, b) { fail!("{s} (range {a}..{b}) deserialises to {}..{}", t.start, t.end) }
    nt = true;
  }
  Res::Pass(nt)
}
/// does an XPath step naming `b` also select `a`?
fn like(a: libxml::readonly::RoNode, b: libxml::readonly::RoNode) -> bool {
  let t = |n: libxml::readonly::RoNode| n.is_text_node() || n.get_type() == Some(libxml::tree::NodeType::CDataSectionNode);
  if t(b) { t(a) } else { a.get_type() == b.get_type() && a.get_name() == b.get_name() }
}
fn path(m: &DNM, node: libxml::readonly::RoNode) -> String {
  if let Some(id) = node.get_property("id") { return format!("//*[@id=\"{id}\"]"); }
  if node == m.root_node { return "/".into(); }
  let parent = node.get_parent().unwrap();
  let mut rank = 1;
  let mut c = parent.get_first_child();
  while let Some(x) = c { if x == node { break; } if like(x, node) { rank += 1; } c = x.get_next_sibling(); }
  let step = if node.is_text_node() { "text()".to_string() } else if node.get_namespace().is_some() { format!("*[local-name() = '{}']", node.get_name()) } else { node.get_name() };
  format!("{}/{}[{}]", path(m, parent), step, rank)
}
/// does the child-of-root step of this position's pointer select a single node?
fn unambiguous(m: &DNM, i: usize, _xml: &str) -> bool {
  let mut n = m.back_map[i].0;
  loop {
    if n.get_property("id").is_some() { return true; }
    let Some(p) = n.get_parent() else { return true };
    if p == m.root_node { break; }
    n = p;
  }
  if n == m.root_node { return true; }
  let rank = |x: libxml::readonly::RoNode| { let mut r = 1; let mut c = x.get_parent().and_then(|p| p.get_first_child()); while let Some(y) = c { if y == x { break; } if like(y, x) { r += 1; } c = y.get_next_sibling(); } r };
  let k = rank(n);
  fn go(x: libxml::readonly::RoNode, n: libxml::readonly::RoNode, k: i32, rank: &dyn Fn(libxml::readonly::RoNode) -> i32, hits: &mut usize) {
    if like(x, n) && rank(x) == k { *hits += 1; }
    let mut c = x.get_first_child();
    while let Some(y) = c { go(y, n, k, rank, hits); c = y.get_next_sibling(); }
  }
  let mut hits = 0;
  let mut c = m.root_node.get_first_child();
  while let Some(y) = c { go(y, n, k, &rank, &mut hits); c = y.get_next_sibling(); }
  hits == 1
}

pub fn props() -> Vec<Prop> {
  let f: &[&str] = &["dnm/range.rs", "dnm/mod.rs"];
  vec![
    Prop { id: "C06", rule: "text (all strings of length <= 5 over {a, space, e-acute, ideographic space, emoji}, then random) with start/end and subrange offsets; non-trivial: non-empty range holding a multi-byte character", files: f, gen: gen_range, check: c06, secs: 4.0 },
    Prop { id: "C07", rule: "as C06; non-trivial: trimming removes something or the range is blank", files: f, gen: gen_range, check: c07, secs: 4.0 },
    Prop { id: "C08", rule: "as C06, every byte-offset pair of the range; non-trivial: the range holds a multi-byte character", files: f, gen: gen_range, check: c08, secs: 4.0 },
    Prop { id: "C23", rule: "random XML trees (ids, comments, replaced elements, default namespace), every range of short texts; non-trivial: at least one range whose ends are text positions with unambiguous pointers", files: f, gen: gen_c23, check: c23, secs: 6.0 },
  ]
}
