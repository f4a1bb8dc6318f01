//! C16, C27, C28, C30: lexemes, word normalisation, document iterators, document tokenisation
use super::dnm::esc;
use crate::core::*;
use crate::fail;
use libxml::parser::Parser;
use libxml::readonly::RoNode;
use libxml::tree::{Document as Dom, NodeType};
use libxml::xpath::Context;
use llamapun::dnm::{node::lexematize_math, DNMParameters, DNMRange, DNM};
use llamapun::parallel_data as par;
use llamapun::parallel_data::XPathFilteredIterator;
use llamapun::tokenizer::Tokenizer;
use llamapun::util::data_helpers::{ams_normalize_word_range, heading_from_node_aux, LexicalOptions};
use llamapun::{data, util};
use serde_json::{json, Value};

// ---------------------------------------------------------------- the lexeme reading (C16)
const ENDS: &[&str] = &["OPFUNCTION", "OPERATOR", "OPEN", "CLOSE", "UNKNOWN", "RELOP", "ADDOP", "MULOP", "ARROW", "BIGOP", "BINOP", "ID", "OVERACCENT", "UNDERACCENT"];
fn lex_words(s: &str) -> Vec<String> {
  let b: Vec<char> = s.chars().collect();
  let at = |i: usize, p: &str| { let p: Vec<char> = p.chars().collect(); i + p.len() <= b.len() && b[i..i + p.len()] == p[..] };
  let mut o = String::new(); let mut i = 0;
  while i < b.len() {
    if let Some(k) = ENDS.iter().find(|k| at(i, k) && at(i + k.len(), ":end")) { o.push(' '); o.push_str(k); o.push_str(":end "); i += k.len() + 4; } else { o.push(b[i]); i += 1; }
  }
  let o = o.replace(":end", ":end ").replace(":start", ":start ");
  o.split(|c: char| c.is_whitespace()).filter(|w| !w.is_empty()).map(|w| {
    for k in ["NUM", "ARRAY", "ATOM", "SUPERSCRIPTOP"] { if w.starts_with(k) { return k.to_string() } }
    w.replace([':', '-'], "_")
  }).collect()
}
fn annos(n: RoNode, o: &mut Vec<RoNode>) {
  for k in n.get_child_nodes() {
    if k.get_type() == Some(NodeType::ElementNode) { if k.get_name() == "annotation" && k.get_property("encoding").as_deref() == Some("application/x-llamapun") { o.push(k); } }
    annos(k, o);
  }
}
pub fn lexemes(n: RoNode) -> String {
  let mut a = vec![]; annos(n, &mut a);
  let w: Vec<String> = a.iter().flat_map(|x| lex_words(&x.get_content())).collect();
  if w.is_empty() { "mathformula".into() } else { w.join(" ") }
}
fn anno_text(g: &mut G) -> String {
  let n = g.r.range(0, 5);
  let mut s = String::new();
  for _ in 0..n {
    match g.r.below(10) {
      0..=2 => { let k = *g.r.pick(&["OPERATOR", "ID", "RELOP", "ADDOP", "POSTFIX", "ARRAY", "NUM", "ATOM", "SUPERSCRIPTOP", "OVERACCENT", "UNKNOWN", "italic-x", "SUB"]); let e = *g.r.pick(&[":end", ":start", ":plus", "", ":", "-", "s", ":2.5", ":end:start"]); s.push_str(k); s.push_str(e); },
      3 if !g.lits.strs.is_empty() => { let l = g.r.pick(&g.lits.strs).clone(); s.push_str(&l) },
      4 => s.push_str(g.r.pick(&[":end", ":start", ":", "-", "end", ":end:end"])),
      5 => s.push_str(&g.text(1)),
      _ => { s.push_str(g.r.pick(&["x", "alpha", "italic-y", "num", "5", "RELOP:equals"])); },
    }
    if g.r.chance(2, 3) { let w = *g.r.pick(&[' ', '\n', ' ', '\t', '\u{a0}']); s.push(w); if g.r.chance(1, 4) { s.push(' '); } }
  }
  s
}
pub fn math(g: &mut G) -> String {
  let mut s = String::from("<math>");
  let n = if g.r.chance(1, 6) { 0 } else { g.r.range(1, 3) };
  for _ in 0..n {
    let enc = *g.r.pick(&["application/x-llamapun", "application/x-llamapun", "application/x-llamapun", "application/x-tex", "application/x-llamapun2"]);
    let name = *g.r.pick(&["annotation", "annotation", "annotation", "annotation-xml", "mi"]);
    let t = if g.r.chance(1, 6) { *g.r.pick(&["", " ", " \n ", "\u{a0}"]) } else { "" }.to_string();
    let t = if t.is_empty() { anno_text(g) } else { t };
    let a = format!("<{name} encoding=\"{enc}\">{}</{name}>", esc(&t));
    match g.r.below(4) { 0 => s.push_str(&format!("<mrow>{a}</mrow>")), 1 => s.push_str(&format!("<semantics><mi>x</mi>{a}</semantics>")), 2 if name == "annotation" => s.push_str(&format!("<annotation encoding=\"application/x-llamapun\">q {}<b>{a}</b></annotation>", esc(&anno_text(g)))), _ => s.push_str(&a) }
  }
  s + "</math>"
}
fn gen16(g: &mut G, _k: usize) -> Value { json!({"!xml": format!("<r>{}{}</r>", math(g), if g.r.chance(1, 3) { math(g) } else { String::new() })}) }
fn all(n: RoNode, v: &mut Vec<RoNode>) { v.push(n); for k in n.get_child_nodes() { all(k, v) } }
fn check16(v: &Value) -> Res {
  let x = st(v, "!xml");
  let Ok(doc) = Parser::default().parse_string(x) else { return Res::Skip };
  let Some(root) = doc.get_root_readonly() else { return Res::Skip };
  let mut ns = vec![]; all(root, &mut ns);
  let mut ctx = Context::new(&doc).unwrap();
  let mut nt = false;
  for n in ns.iter().filter(|n| n.get_type() == Some(NodeType::ElementNode)) {
    let got = lexematize_math(*n, &mut ctx);
    let want = lexemes(*n);
    if got != want { fail!("lexemes of <{}> in {x:?}: {got:?}, expected {want:?}", n.get_name()) }
    if got.is_empty() || got.starts_with(' ') || got.ends_with(' ') || got.contains("  ") || got.contains(':') || got.contains('-') { fail!("lexemes {got:?} are not normalised ({x:?})") }
    nt |= got != "mathformula" && got.contains(' ');
  }
  Res::Pass(nt)
}

// ---------------------------------------------------------------- documents
fn words_text(g: &mut G, n: usize) -> String {
  let mut s = if g.r.chance(1, 2) { g.prose(n) } else { g.text(n) };
  if g.r.chance(1, 4) { s.push_str(g.r.pick(&[" 3.14", " -12", " 7a", " 5e10", " 12k", " CitationElement.", " x-mathformula", " it's.", " 1.5E-3 ", " ٣٤", " 3rd", " 1234567", " a.", " $", " Citationelement2"])); }
  if g.r.chance(1, 6) { let k = g.r.range(20, 30); let c = *g.r.pick(&['a', 'é', 'Z', '1', 'İ', '中']); s.push(' '); for _ in 0..k { s.push(c); } if g.r.chance(1, 2) { s.push_str(".  Next one. "); } }
  s
}
fn inline(g: &mut G, n: usize) -> String {
  let mut s = String::new();
  for _ in 0..n {
    match g.r.below(9) {
      0 | 1 => s.push_str(&math(g)),
      2 => s.push_str("<cite class=\"ltx_cite\">[1]</cite>"),
      3 => s.push_str("<a class=\"ltx_ref\">2</a>"),
      4 => s.push_str("<em>w</em>"),
      _ => { let t = words_text(g, 5); s.push_str(&esc(&t)) },
    }
    if g.r.chance(1, 2) { s.push(' '); }
  }
  s
}
fn classes(g: &mut G) -> String {
  let n = g.r.range(0, 2);
  (0..n).map(|_| *g.r.pick(&["ltx_para", "ltx_abstract", "ltx_p", "ltx_keywords", "ltx_acknowledgement", "ltx_caption", "ltx_ERROR", "ltx_title", "ltx_title_document", "ltx_ref", "ltx_paragraph", "other", "ltx_acknowledgements", "ltx_reference"])).collect::<Vec<_>>().join(" ")
}
fn block(g: &mut G, d: usize) -> String {
  let (tag, cl) = match g.r.below(16) {
    0..=4 => ("div", "ltx_para".to_string()), 5 => ("div", "ltx_abstract".into()), 6 => ("div", "ltx_keywords".into()), 7 => ("div", "ltx_acknowledgement".into()),
    8 => ("figcaption", "ltx_caption".into()), 9 => ("h2", "ltx_title".into()), 10 => ("p", "ltx_p".into()), 11 if g.r.chance(1, 3) => ("span", "ltx_ERROR".into()),
    12 => (*g.r.pick(&["span", "a"]), "ltx_ref".into()), _ => (*g.r.pick(&["div", "section", "p", "figcaption", "h1", "h3", "span", "figure"]), classes(g)),
  };
  let mut s = format!("<{tag} class=\"{cl}\">");
  if d == 0 { let n = g.r.range(0, 3); s.push_str(&inline(g, n)); } else {
    let n = g.r.range(0, 3);
    for _ in 0..n { if g.r.chance(1, 4) { s.push_str(&inline(g, 1)) } else if g.r.chance(1, 3) { let t = { let k = g.r.range(1, 3); inline(g, k) }; s.push_str(&format!("<p class=\"ltx_p\">{t}</p>")) } else { s.push_str(&block(g, d - 1)) } if g.r.chance(1, 10) { s.push_str("<!-- c -->"); } }
  }
  s + &format!("</{tag}>")
}
fn document(g: &mut G, k: usize) -> String {
  let d = if k < 100 { k % 3 } else { g.r.range(0, 4) };
  let n = g.r.range(1, 4);
  let b: String = (0..n).map(|_| block(g, d)).collect();
  format!("<html><body>{b}</body></html>").chars().filter(|c| *c == '\n' || *c == '\t' || *c == '\r' || *c >= ' ').collect()
}
fn parse(x: &str) -> Option<Dom> { Parser::default().parse_string(x).ok() }

// ---------------------------------------------------------------- C27
fn digit(c: char) -> bool { use std::sync::OnceLock; static R: OnceLock<regex::Regex> = OnceLock::new(); c.is_ascii_digit() || !c.is_ascii() && R.get_or_init(|| regex::Regex::new(r"^\d$").unwrap()).is_match(c.encode_utf8(&mut [0; 4])) }
fn numeric(s: &str) -> bool {
  let c: Vec<char> = s.chars().collect(); let mut i = 0;
  if i < c.len() && c[i] == '-' { i += 1 }
  let j = i; while i < c.len() && digit(c[i]) { i += 1 } if i == j { return false }
  if i == c.len() { return true }
  if i + 1 == c.len() && ('a'..='k').contains(&c[i]) { return true }
  if c[i] != '.' { return false } i += 1;
  let j = i; while i < c.len() && digit(c[i]) { i += 1 } if i == j { return false }
  if i == c.len() { return true }
  if c[i] != 'e' && c[i] != 'E' { return false } i += 1;
  if i < c.len() && (c[i] == '-' || c[i] == '+') { i += 1 }
  let j = i; while i < c.len() && digit(c[i]) { i += 1 }
  i > j && i == c.len()
}
pub fn normal(text: &str, node: RoNode, m: bool, p: bool, c: bool) -> Option<String> {
  let mut w = if c { text.to_lowercase() } else { text.to_string() };
  if p { w = w.chars().filter(|c| c.is_alphanumeric()).collect() }
  if w.len() > 25 { return None }
  let l = w.to_lowercase();
  Some(if l.contains("mathformula") { if m { String::new() } else { lexemes(node) } } else if l.contains("citationelement") { "citationelement".into() } else if numeric(&w) { "NUM".into() } else { w })
}
fn gen27(g: &mut G, k: usize) -> Value {
  let n = g.r.range(1, 4);
  let t = inline(g, n);
  let cuts: Vec<usize> = (0..g.r.range(1, 8)).map(|_| g.r.below(80)).collect();
  json!({"!xml": format!("<r>{t}</r>"), "cuts": cuts, "math": k % 2 == 1, "punct": k / 2 % 2 == 1, "case": k / 4 % 2 == 1, "raw": g.r.chance(1, 4)})
}
fn check27(v: &Value) -> Res {
  let x = st(v, "!xml");
  let Some(doc) = parse(x) else { return Res::Skip };
  let Some(root) = doc.get_root_readonly() else { return Res::Skip };
  let m = DNM::new(root, if v["raw"] == true { DNMParameters::default() } else { DNMParameters::llamapun_normalization() });
  let cs: Vec<char> = m.plaintext.chars().collect();
  let n = cs.len();
  if n == 0 { return Res::Skip }
  let mut ctx = Context::new(&doc).unwrap();
  let mut spans: Vec<(usize, usize)> = vec![];
  let mut i = 0; while i < n { let j = i; while i < n && !cs[i].is_whitespace() { i += 1 } if i > j { spans.push((j, i)); if i - j > 3 { spans.push((j + 1, i)); spans.push((j, i - 1)); } } else { i += 1 } }
  for w in v["cuts"].as_array().unwrap_or(&vec![]).windows(2) { let a = w[0].as_u64().unwrap_or(0) as usize % n; let l = w[1].as_u64().unwrap_or(0) as usize % 28; spans.push((a, (a + l).min(n))); }
  let (dm, dp, dc) = (v["math"] == true, v["punct"] == true, v["case"] == true);
  let mut nt = false;
  for (a, b) in spans {
    let r = DNMRange { start: a, end: b, dnm: &m };
    let t: String = cs[a..b].iter().collect();
    let want = normal(&t, m.back_map[a].0, dm, dp, dc);
    let got = ams_normalize_word_range(&r, &mut ctx, LexicalOptions { discard_math: dm, discard_punct: dp, discard_case: dc }).ok();
    if got != want { fail!("word {t:?} (discard math {dm}, punctuation {dp}, case {dc}): {got:?}, expected {want:?} in {x:?}") }
    nt |= want.as_deref().map_or(true, |w| w != t);
  }
  Res::Pass(nt)
}

// ---------------------------------------------------------------- C28
fn has(n: &RoNode, c: &str) -> bool { n.get_type() == Some(NodeType::ElementNode) && n.get_property("class").map_or(false, |x| x.contains(c)) }
fn el(n: &RoNode) -> bool { n.get_type() == Some(NodeType::ElementNode) }
fn desc_err(n: &RoNode) -> bool { n.get_child_nodes().iter().any(|k| has(k, "ltx_ERROR") || desc_err(k)) }
fn para(n: &RoNode) -> bool {
  if !el(n) || n.get_name() != "div" || !has(n, "ltx_para") || desc_err(n) { return false }
  let mut p = n.get_prev_sibling();
  while let Some(q) = p { if has(&q, "ltx_ERROR") { return false } p = q.get_prev_sibling(); }
  true
}
fn pick(ns: &[RoNode], f: impl Fn(&RoNode) -> bool) -> Vec<RoNode> { ns.iter().filter(|n| f(n)).copied().collect() }
fn hs(v: &[RoNode]) -> Vec<usize> { v.iter().map(|n| n.to_hashable()).collect() }
fn extended(ns: &[RoNode]) -> Vec<RoNode> {
  let sect = |c: &'static str| pick(ns, move |n| el(n) && n.get_name() == "div" && has(n, c) && !desc_err(n));
  // the first element paragraph of each parent counts ("[1]" is per parent), the first in document order is taken
  let abs = sect("ltx_abstract");
  let below = |n: &RoNode| { let mut p = n.get_parent(); while let Some(q) = p { if abs.iter().any(|a| a.to_hashable() == q.to_hashable()) { return true } p = q.get_parent() } false };
  let mut o: Vec<RoNode> = pick(ns, |n| el(n) && n.get_name() == "p" && has(n, "ltx_p") && below(n)).into_iter().take(1).collect();
  o.extend(sect("ltx_keywords").into_iter().take(1));
  o.extend(pick(ns, para));
  o.extend(sect("ltx_acknowledgement").into_iter().take(1));
  o.extend(pick(ns, |n| el(n) && n.get_name() == "figcaption" && has(n, "ltx_caption") && !desc_err(n)));
  o
}
fn gen28(g: &mut G, k: usize) -> Value { json!({"!xml": document(g, k), "f": g.r.below(6), "pre": g.r.chance(1, 3)}) }
fn same(what: &str, got: Vec<(usize, usize)>, want: Vec<(usize, usize)>, x: &str) -> Option<String> { if got != want { Some(format!("{what}: ranges {got:?}, expected {want:?} in {x:?}")) } else { None } }
fn se(v: &[DNMRange]) -> Vec<(usize, usize)> { v.iter().filter(|r| r.start != r.end).map(|r| (r.start, r.end)).collect() }
struct Fixed(Vec<(usize, usize)>);
thread_local! { static PAR: &'static par::Corpus = Box::leak(Box::new(par::Corpus::default())); static SEQ: &'static data::Corpus = Box::leak(Box::new(data::Corpus::default())); }
fn check28(v: &Value) -> Res {
  let x = st(v, "!xml");
  let corpus = PAR.with(|p| *p);
  let Some(dom) = parse(x) else { return Res::Skip };
  let Some(root) = dom.get_root_readonly() else { return Res::Skip };
  let mut ns = vec![]; all(root, &mut ns);
  let tok: &Tokenizer = &corpus.tokenizer;
  let fresh = |n: RoNode| DNM::new(n, DNMParameters::llamapun_normalization());
  let mut d = par::Document { dom, path: "x".into(), corpus, dnm: None };
  // node iterators
  let filter: Box<dyn Fn(&RoNode) -> bool> = match v["f"].as_u64().unwrap_or(0) { 0 => Box::new(|_| true), 1 => Box::new(|n| el(n)), 2 => Box::new(|n| n.is_text_node()), 3 => Box::new(|n| has(n, "ltx")), 4 => Box::new(|n| n.get_child_nodes().len() > 1), _ => Box::new(|n| el(n) && n.get_name() == "p") };
  let lists: Vec<(&str, Vec<RoNode>, Vec<usize>, Vec<String>)> = {
    fn col(i: par::RoNodeIterator) -> (Vec<usize>, Vec<String>) { i.map(|d| (d.dnm.root_node.to_hashable(), d.dnm.plaintext.clone())).unzip() }
    let mut l = vec![];
    let mut add = |w: &'static str, e: Vec<RoNode>, i: par::RoNodeIterator| { let (a, b) = col(i); l.push((w, e, a, b)) };
    add("filter_iter", pick(&ns, |n| filter(n)), d.filter_iter(&*filter));
    add("paragraph_iter", pick(&ns, para), d.paragraph_iter());
    add("extended_paragraph_iter", extended(&ns), d.extended_paragraph_iter());
    add("heading_iter", pick(&ns, |n| has(n, "ltx_title") && !has(n, "ltx_title_document") && ["h1", "h2", "h3", "h4", "h5", "h6"].contains(&n.get_name().as_str()) && !desc_err(n)), d.heading_iter());
    add("xpath_selector_iter", pick(&ns, |n| el(n) && n.get_name() == "p"), d.xpath_selector_iter("//*[local-name()='p']"));
    l
  };
  for (w, want, got, text) in &lists {
    if *got != hs(want) { fail!("{w} of {x:?} delivers {} nodes {got:?}, expected {} nodes {:?}", got.len(), want.len(), hs(want)) }
    for (n, t) in want.iter().zip(text) { if fresh(*n).plaintext != *t { fail!("{w} of {x:?}: the document model of <{}> reads {t:?}", n.get_name()) } }
  }
  for (w, got, want) in [("get_paragraph_nodes", d.get_paragraph_nodes(), pick(&ns, para)), ("get_math_nodes", d.get_math_nodes(), pick(&ns, |n| el(n) && n.get_name() == "math")),
    ("get_ref_nodes", d.get_ref_nodes(), pick(&ns, |n| el(n) && (n.get_name() == "span" || n.get_name() == "a") && n.get_property("class").map_or(false, |c| c == "ltx_ref" || c.contains("ltx_ref "))))] {
    if hs(&got) != hs(&want) { fail!("{w} of {x:?}: {} nodes, expected {}", got.len(), want.len()) }
  }
  for name in ["p", "section", "math", "nosuch"] {
    let (q, want) = (format!("//*[local-name()='{name}']"), pick(&ns, |n| el(n) && n.get_name() == name));
    if hs(&d.get_xpath_nodes(&q)) != hs(&want) { fail!("get_xpath_nodes({q}) of {x:?}: expected {} nodes", want.len()) }
    if d.get_xpath_node(&q).map(|n| n.to_hashable()) != want.first().map(|n| n.to_hashable()) { fail!("get_xpath_node({q}) of {x:?} is not the first of the {} selected nodes", want.len()) }
  }
  // ranges
  let mut nt = false;
  let mut count = 0;
  for mut item in d.extended_paragraph_iter() {
    let m = fresh(item.dnm.root_node);
    let whole = m.get_range().map(|r| (se(&tok.words(&r)), se(&tok.words_and_punct(&r)))).unwrap_or_default();
    let ss: Vec<Fixed> = tok.sentences(&m).iter().filter(|r| r.start != r.end).map(|r| Fixed(vec![(r.start, r.end)])).collect();
    count += ss.len();
    let doc = item.document;
    let a: Vec<_> = item.word_iter().map(|w| (w.range.start, w.range.end)).collect();
    if let Some(e) = same("ItemDNM::word_iter", a, whole.0.clone(), x) { return Res::Fail(e) }
    let mut it2 = par::ItemDNM { dnm: fresh(m.root_node), document: doc };
    if let Some(e) = same("ItemDNM::word_and_punct_iter", it2.word_and_punct_iter().map(|w| (w.range.start, w.range.end)).collect(), whole.1.clone(), x) { return Res::Fail(e) }
    let mut it3 = par::ItemDNM { dnm: fresh(m.root_node), document: doc };
    let mut got = vec![];
    let mut i = it3.iter();
    while let Some(mut s) = i.next() {
      let r = DNMRange { start: s.range.start, end: s.range.end, dnm: &m };
      let (w, p) = (se(&tok.words(&r)), se(&tok.words_and_punct(&r)));
      got.push((s.range.start, s.range.end));
      if w.len() + 1 > 2 { nt = true }
      let mut s2 = par::ItemDNMRange { range: s.range.clone(), document: s.document };
      if let Some(e) = same("ItemDNMRange::word_iter", s.word_iter().map(|w| (w.range.start, w.range.end)).collect(), w, x) { return Res::Fail(e) }
      if let Some(e) = same("ItemDNMRange::word_and_punct_iter", s2.word_and_punct_iter().map(|w| (w.range.start, w.range.end)).collect(), p, x) { return Res::Fail(e) }
    }
    if i.next().is_some() { fail!("the sentence iterator of {x:?} goes on after its end") }
    if let Some(e) = same("ItemDNM::iter", got, ss.iter().map(|f| f.0[0]).collect(), x) { return Res::Fail(e) }
  }
  let whole = DNM::new(root, corpus.dnm_parameters.clone());
  let want: Vec<_> = se(&tok.sentences(&whole));
  let got: Vec<_> = d.sentence_iter().map(|s| (s.range.start, s.range.end)).collect();
  if let Some(e) = same("parallel sentence_iter", got, want.clone(), x) { return Res::Fail(e) }
  let again: Vec<_> = d.sentence_iter().map(|s| (s.range.start, s.range.end)).collect();
  if let Some(e) = same("second parallel sentence_iter", again, want.clone(), x) { return Res::Fail(e) }
  // the sequential structures
  let seq = SEQ.with(|p| *p);
  let Some(dom) = parse(x) else { return Res::Skip };
  let Some(root) = dom.get_root_readonly() else { return Res::Skip };
  let mut ns = vec![]; all(root, &mut ns);
  let mut s = data::Document { dom, path: "x".into(), corpus: seq, dnm: None };
  if v["pre"] == true { s.dnm = Some(DNM::new(root, seq.dnm_parameters.clone())); }
  let got: Vec<_> = s.sentence_iter().map(|s| (s.range.start, s.range.end)).collect();
  if let Some(e) = same("sentence_iter", got, want, x) { return Res::Fail(e) }
  for (w, got, want) in [("math_nodes", s.get_math_nodes(), pick(&ns, |n| el(n) && n.get_name() == "math")), ("paragraph_nodes", data::Document::paragraph_nodes(&s.dom), pick(&ns, para)),
    ("ref_nodes", s.get_ref_nodes(), pick(&ns, |n| el(n) && (n.get_name() == "span" || n.get_name() == "a") && n.get_property("class").map_or(false, |c| c == "ltx_ref" || c.contains("ltx_ref "))))] { if hs(&got) != hs(&want) { fail!("sequential {w} of {x:?}: {} nodes, expected {}", got.len(), want.len()) } }
  let want = pick(&ns, para);
  let mut got = vec![];
  for mut p in s.paragraph_iter() {
    let m = fresh(p.dnm.root_node);
    if p.dnm.plaintext != m.plaintext { fail!("paragraph_iter of {x:?}: model reads {:?}", p.dnm.plaintext) }
    got.push(p.dnm.root_node.to_hashable());
    let ws = se(&tok.sentences(&m));
    let mut gs = vec![];
    for mut q in p.iter() {
      let (a, b) = (q.range.start, q.range.end);
      gs.push((a, b));
      let r = DNMRange { start: a, end: b, dnm: &m };
      let w = se(&tok.words(&r));
      if let Some(e) = same("simple_iter", q.simple_iter().map(|w| (w.range.start, w.range.end)).collect(), w, x) { return Res::Fail(e) }
    }
    if let Some(e) = same("Paragraph::iter", gs, ws, x) { return Res::Fail(e) }
  }
  if got != hs(&want) { fail!("paragraph_iter of {x:?}: {} paragraphs, expected {}", got.len(), want.len()) }
  Res::Pass(nt && count > 0)
}

// ---------------------------------------------------------------- C30
pub struct Scratch(pub std::path::PathBuf);
impl Scratch {
  pub fn new() -> Scratch {
    use std::sync::atomic::{AtomicUsize, Ordering}; static N: AtomicUsize = AtomicUsize::new(0);
    let p = std::env::temp_dir().join(format!("llamapun-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
    std::fs::create_dir_all(&p).unwrap(); Scratch(p)
  }
}
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
fn gen30(g: &mut G, k: usize) -> Value { json!({"!xml": document(g, k), "html": g.r.chance(1, 3)}) }
fn check30(v: &Value) -> Res {
  let x = st(v, "!xml");
  let s = Scratch::new();
  let f = s.0.join(if v["html"] == true { "d.html" } else { "d.xhtml" });
  std::fs::write(&f, x).unwrap();
  let path = f.to_str().unwrap().to_string();
  let seq = SEQ.with(|p| *p);
  let Ok(d) = data::Document::new(path.clone(), seq) else { return Res::Skip };
  let Some(root) = d.dom.get_root_readonly() else { return Res::Skip };
  let mut ns = vec![]; all(root, &mut ns);
  let mut want = String::new();
  let (mut kept, mut dropped) = (0, 0);
  for p in pick(&ns, para) {
    let m = DNM::new(p, DNMParameters::llamapun_normalization());
    let mut b = String::new(); let mut bad = false;
    for r in seq.tokenizer.sentences(&m).iter().filter(|r| r.start != r.end) {
      let mut line = String::new();
      for w in seq.tokenizer.words(r).iter().filter(|w| w.start != w.end) {
        let t: String = m.plaintext.chars().skip(w.start).take(w.end - w.start).collect();
        match normal(&t, m.back_map[w.start].0, false, true, true) { Some(t) => { line.push_str(&t); line.push(' ') }, None => bad = true }
      }
      if !line.is_empty() { b.push_str(&line); b.push('\n') }
    }
    if bad { dropped += 1 } else { want.push_str(&b); if !b.is_empty() { kept += 1 } }
  }
  let got = util::path_helpers::path_to_words(path);
  if got != want { fail!("path_to_words of {x:?}: {got:?}, expected {want:?}") }
  Res::Pass(kept > 0 && (kept + dropped > 1))
}
// ---------------------------------------------------------------- C31
fn gen31(g: &mut G, k: usize) -> Value {
  let n = g.r.range(0, 5);
  let mut t = String::new();
  for _ in 0..n {
    match g.r.below(6) { 0 => { let x = super::title::title(g); t.push_str(&esc(&x)) }, 1 => t.push_str("<span class=\"ltx_tag\">2.1 </span>"), 2 => t.push_str("<em>v 3</em>"), _ => t.push_str(&inline(g, 1)) }
    if g.r.chance(1, 2) { t.push(' '); }
  }
  let pre = if k % 3 == 2 { inline(g, 1) } else { String::new() };
  let x = format!("<html><body>{pre}<h2 class=\"ltx_title\">{t}</h2></body></html>");
  json!({"!xml": x.chars().filter(|c| *c == '\n' || *c == '\t' || *c == '\r' || *c >= ' ').collect::<String>()})
}
fn check31(v: &Value) -> Res {
  let x = st(v, "!xml");
  let Some(doc) = parse(x) else { return Res::Skip };
  let Some(root) = doc.get_root_readonly() else { return Res::Skip };
  let mut ns = vec![]; all(root, &mut ns);
  let tok = Tokenizer::default();
  let mut ctx = Context::new(&doc).unwrap();
  let mut nt = false;
  for n in ns.into_iter().filter(el) {
    let m = DNM::new(n, DNMParameters::llamapun_normalization());
    let cs: Vec<char> = m.plaintext.chars().collect();
    let whole = DNMRange { start: 0, end: cs.len(), dnm: &m };
    let (mut want, mut some) = (Some(String::new()), false);
    for w in tok.words(&whole).iter() {
      let t: String = cs[w.start..w.end].iter().collect();
      match (normal(&t, m.back_map[w.start].0, false, true, true), &mut want) {
        (Some(t), Some(h)) if !t.is_empty() && t != "NUM" => { h.push_str(&t); h.push(' '); }
        (Some(_), _) => some = true,
        (None, _) => want = None,
      }
      if want.is_none() { break }
    }
    let got = heading_from_node_aux(n, &tok, &mut ctx);
    if got != want { fail!("heading {:?}: {got:?}, expected {want:?} in {x:?}", m.plaintext) }
    nt |= want.map_or(true, |h| some && !h.is_empty());
  }
  Res::Pass(nt)
}
// ---------------------------------------------------------------- C33
fn gen33(g: &mut G, k: usize) -> Value {
  let n = if k < 8 { k % 3 } else { g.r.range(1, 4) };
  let ds: Vec<Value> = (0..n).map(|i| json!({"!xml": document(g, k + i), "html": g.r.chance(1, 4)})).collect();
  json!({"docs": ds, "discard": g.r.chance(1, 2)})
}
fn check33(v: &Value) -> Res {
  let none = vec![];
  let s = Scratch::new();
  let dir = s.0.join("corpus"); std::fs::create_dir_all(dir.join("sub")).unwrap();
  let seq = SEQ.with(|p| *p);
  let no_math = v["discard"] == true;
  let mut want = std::collections::BTreeMap::new();
  for k in ["document_count", "paragraph_count", "word_count", "overflow_count", "formula_count", "citation_count", "num_count"] { want.insert(k.to_string(), 0u64); }
  let mut texts = vec![];
  let docs = v["docs"].as_array().unwrap_or(&none);
  for (i, d) in docs.iter().enumerate().take(4) {
    let f = dir.join(format!("{}{i}.{}", if i % 2 == 1 { "sub/" } else { "" }, if d["html"] == true { "html" } else { "xhtml" }));
    std::fs::write(&f, st(d, "!xml")).unwrap();
    let Ok(doc) = data::Document::new(f.to_str().unwrap().to_string(), seq) else { return Res::Skip };
    let Some(root) = doc.dom.get_root_readonly() else { return Res::Skip };
    let mut ns = vec![]; all(root, &mut ns);
    let mut count = |k: &str| *want.get_mut(k).unwrap() += 1;
    count("document_count");
    let mut text = String::new();
    for p in extended(&ns) {
      count("paragraph_count");
      let m = DNM::new(p, DNMParameters::llamapun_normalization());
      let cs: Vec<char> = m.plaintext.chars().collect();
      let (mut line, mut bad) = (String::new(), false);
      for w in seq.tokenizer.words_and_punct(&DNMRange { start: 0, end: cs.len(), dnm: &m }).iter() {
        let t: String = cs[w.start..w.end].iter().collect::<String>().to_lowercase();
        if t.len() > 25 { count("overflow_count"); bad = true; break }
        if t.contains("mathformula") { count("formula_count"); if !no_math { line.push_str(&lexemes(m.back_map[w.start].0)) } }
        else if t.contains("citationelement") { count("citation_count"); line.push_str("citationelement") }
        else if numeric(&t) { count("num_count"); line.push_str("NUM") }
        else { count("word_count"); line.push_str(&t) }
        line.push(' ');
      }
      if !bad { text.push('\n'); text.push_str(&line) }
    }
    texts.push(text);
  }
  if docs.is_empty() { want.clear() }
  let out = s.0.join("model.txt");
  std::fs::write(&out, "what was there before ".repeat(200)).unwrap();
  let got = match util::token_model::extract(dir.to_str().unwrap().to_string(), out.to_str().unwrap().to_string(), no_math) { Ok(c) => c, Err(e) => fail!("the token model cannot be extracted: {e}") };
  let got: std::collections::BTreeMap<String, u64> = got.into_iter().collect();
  if got != want { fail!("token counts {got:?}, expected {want:?} (discard math: {no_math}) for {v}") }
  // the texts of the documents, in some order
  fn arranged(s: &str, left: &[String]) -> bool { if left.is_empty() { return s.is_empty() } (0..left.len()).any(|i| s.starts_with(&left[i]) && { let mut l = left.to_vec(); let t = l.remove(i); arranged(&s[t.len()..], &l) }) }
  let model = std::fs::read_to_string(&out).unwrap_or_default();
  if !arranged(&model, &texts) { fail!("token model {model:?}, expected {texts:?} in some order (discard math: {no_math}) for {v}") }
  Res::Pass(want.get("formula_count").map_or(false, |x| *x > 0) && want["word_count"] > 2)
}
pub fn props() -> Vec<Prop> {
  vec![
    Prop { id: "C33", rule: "corpora of up to three random documents in a scratch directory, with and without math; counts and the written model against a direct reading; non-trivial: a formula and words", files: &["util/token_model.rs", "parallel_data.rs", "parallel_data/document.rs"], gen: gen33, check: check33, secs: 6.0 },
    Prop { id: "C31", rule: "headings of random inline content, numbers, tags and title words, every element of them; non-trivial: a number dropped among words or an overlong word", files: &["util/data_helpers.rs"], gen: gen31, check: check31, secs: 5.0 },
    Prop { id: "C16", rule: "math with up to three (nested) annotations of words, markers, literals of the source and white space; every element's lexeme string against a direct reading; non-trivial: at least two lexemes", files: &["dnm/node.rs"], gen: gen16, check: check16, secs: 4.0 },
    Prop { id: "C27", rule: "every blank-separated word and random ranges of random inline content, all option settings; non-trivial: some word changed or refused", files: &["util/data_helpers.rs"], gen: gen27, check: check27, secs: 5.0 },
    Prop { id: "C28", rule: "random documents with the classes the selectors mention; every iterator of both document types against direct readings of the tree and the tokenizer's ranges; non-trivial: some sentence with words", files: &["data.rs", "parallel_data.rs", "parallel_data/document.rs"], gen: gen28, check: check28, secs: 6.0 },
    Prop { id: "C30", rule: "random documents written to a scratch file, html and xhtml; non-trivial: a kept paragraph among several", files: &["util/path_helpers.rs", "data.rs"], gen: gen30, check: check30, secs: 6.0 },
  ]
}
