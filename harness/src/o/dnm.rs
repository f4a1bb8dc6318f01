//! C01 C02 C03 C04 C05 C29
use crate::core::*;
use crate::fail;
use libxml::parser::Parser;
use libxml::readonly::RoNode;
use libxml::tree::Document;
use llamapun::dnm::{DNMParameters, SpecialTagsOption, DNM};
use serde_json::{json, Map, Value};
use std::collections::HashMap;
use std::sync::Arc;
use unidecode::unidecode_char;

pub fn esc(s: &str) -> String {
  let mut o = String::new();
  for c in s.chars() {
    match c {
      '<' => o.push_str("&lt;"), '&' => o.push_str("&amp;"), '>' => o.push_str("&gt;"), '"' => o.push_str("&quot;"), '\r' => o.push_str("&#13;"),
      '\t' | '\n' => o.push(c),
      c if (c as u32) < 0x20 || c == '\u{fffe}' || c == '\u{ffff}' => {},
      c => o.push(c),
    }
  }
  o
}
fn f_name(n: RoNode) -> String { format!("<{}>", n.get_name()) }
fn f_content(n: RoNode) -> String { format!("[{}]", n.get_content()) }
fn f_unicode(_: RoNode) -> String { "É√ x".into() }
pub const NAMES: &[&str] = &["p", "div", "span", "math", "cite", "sec"];
pub const CLASSES: &[&str] = &["c1", "c2", "c3", "c4", "ltx_x"];

pub fn gen_xml(g: &mut G, depth: usize, text: fn(&mut G) -> String) -> String {
  fn el(g: &mut G, d: usize, text: fn(&mut G) -> String) -> String {
    let name = *g.r.pick(NAMES);
    let mut s = format!("<{name}");
    if g.r.chance(1, 2) {
      let n = g.r.range(0, 3);
      let cs: Vec<&str> = (0..n).map(|_| *g.r.pick(CLASSES)).collect();
      s.push_str(&format!(" class=\"{}\"", cs.join(*g.r.pick(&[" ", " ", "  "]))));
    }
    s.push('>');
    let n = if d == 0 { g.r.range(0, 1) } else { g.r.range(0, 4) };
    for _ in 0..n {
      match g.r.below(10) {
        0..=4 => s.push_str(&esc(&text(g))),
        5 => s.push_str("<!-- c -->"),
        _ if d > 0 => s.push_str(&el(g, d - 1, text)),
        _ => {},
      }
    }
    s.push_str(&format!("</{name}>"));
    s
  }
  el(g, depth, text)
}
fn gtext(g: &mut G) -> String {
  match g.r.below(6) {
    0 => { let n = g.r.range(1, 4); (0..n).map(|_| *g.r.pick(WS)).collect() },
    1 => { let n = g.r.range(1, 6); (0..n).map(|_| *g.r.pick(&['a', ' ', '\n', 'B', 'İ', '€', 'ß', '\u{301}', '中', '\u{a0}', 'Σ', '…', '\t'])).collect() },
    _ => g.text(4),
  }
}
fn gen_rule(g: &mut G) -> Value {
  match g.r.below(6) {
    0 => json!("enter"), 1 => json!("skip"), 2 => json!({"!fun": g.r.below(3)}),
    _ => { let mut t = match g.r.below(5) { 0 => "\nmathformula\n".to_string(), 1 => " ".into(), 2 => "TÖKEN x".into(), 3 => g.piece(), _ => "tok".into() }; t.retain(|c| c != '\0'); if t.is_empty() { t = "t".into(); } json!({"!norm": t}) },
  }
}
fn gen(g: &mut G, k: usize) -> Value {
  let d = if k < 200 { k % 3 } else { g.r.range(0, 5) };
  let xml = gen_xml(g, d, gtext);
  let mut names = Map::new(); let mut classes = Map::new();
  for n in NAMES { if g.r.chance(1, 4) { names.insert(n.to_string(), gen_rule(g)); } }
  for n in CLASSES { if g.r.chance(1, 3) { classes.insert(n.to_string(), gen_rule(g)); } }
  if g.r.chance(1, 12) { names.insert("text".into(), json!("skip")); }
  let mut b = |n, d| g.r.chance(n, d);
  json!({"!xml": xml, "names": names, "classes": classes, "norm": b(1, 2), "wrap": b(1, 2), "uni": b(1, 3), "lower": b(1, 3), "noback": b(1, 6)})
}
fn rule(v: &Value) -> SpecialTagsOption {
  if v == "enter" { SpecialTagsOption::Enter } else if v == "skip" { SpecialTagsOption::Skip }
  else if let Some(t) = v.get("!norm") { SpecialTagsOption::Normalize(t.as_str().unwrap_or("t").to_string()) }
  else { let f: fn(RoNode) -> String = match v["!fun"].as_u64().unwrap_or(0) { 0 => f_name, 1 => f_content, _ => f_unicode }; SpecialTagsOption::FunctionNormalize(Arc::new(f)) }
}
pub fn params(v: &Value) -> DNMParameters {
  let tab = |k: &str| -> HashMap<String, SpecialTagsOption> { v[k].as_object().map(|o| o.iter().map(|(k, r)| (k.clone(), rule(r))).collect()).unwrap_or_default() };
  DNMParameters {
    special_tag_name_options: tab("names"), special_tag_class_options: tab("classes"),
    normalize_white_spaces: v["norm"] == true, wrap_tokens: v["wrap"] == true, normalize_unicode: v["uni"] == true,
    stem_words_once: false, stem_words_full: false, convert_to_lowercase: v["lower"] == true, support_back_mapping: v["noback"] != true,
  }
}
struct B { _doc: Document, root: RoNode, m: DNM }
fn build(v: &Value) -> Option<B> {
  // "pretty printed" input may be given as !xml (not shrunk) or xml (shrunk)
  let x = if v.get("!xml").is_some() { st(v, "!xml") } else { st(v, "xml") };
  let doc = Parser::default().parse_string(x).ok()?;
  let root = doc.get_root_readonly()?;
  let m = DNM::new(root, params(v));
  Some(B { _doc: doc, root, m })
}
fn kids(n: RoNode) -> Vec<RoNode> { let mut v = Vec::new(); let mut c = n.get_first_child(); while let Some(x) = c { v.push(x); c = x.get_next_sibling(); } v }
enum Pol { Enter, Skip, Tok(String) }
/// C05's decision, read off the attribute text
fn policy(p: &DNMParameters, n: RoNode) -> Pol {
  let class = n.get_property("class").unwrap_or_default();
  let r = class.split_whitespace().find_map(|c| p.special_tag_class_options.get(c)).or_else(|| p.special_tag_name_options.get(&n.get_name()));
  match r { None | Some(SpecialTagsOption::Enter) => Pol::Enter, Some(SpecialTagsOption::Skip) => Pol::Skip,
    Some(SpecialTagsOption::Normalize(t)) => Pol::Tok(t.clone()), Some(SpecialTagsOption::FunctionNormalize(f)) => Pol::Tok(f(n)) }
}
fn walk(p: &DNMParameters, n: RoNode, f: &mut dyn FnMut(RoNode, Option<&Pol>)) {
  if n.is_text_node() { f(n, None); return; }
  let pol = policy(p, n);
  f(n, Some(&pol));
  if let Pol::Enter = pol { for k in kids(n) { walk(p, k, f); } }
}
fn below(n: RoNode, f: &mut dyn FnMut(RoNode)) { for k in kids(n) { f(k); below(k, f); } }

fn c01(v: &Value) -> Res {
  let Some(b) = build(v) else { return Res::Skip };
  let m = &b.m;
  let chars: Vec<char> = m.plaintext.chars().collect();
  if chars != m.runtime.chars { fail!("plaintext {:?} differs from the collected characters {:?}", m.plaintext, m.runtime.chars) }
  if m.get_plaintext() != m.plaintext { fail!("get_plaintext() differs from plaintext") }
  let mut want: Vec<usize> = m.plaintext.char_indices().map(|(i, _)| i).collect();
  want.push(m.plaintext.len());
  if m.byte_offsets != want { fail!("byte offsets {:?}, expected {:?} for {:?}", m.byte_offsets, want, m.plaintext) }
  let w = if v["noback"] == true { 0 } else { chars.len() };
  if m.back_map.len() != w { fail!("back map has {} entries, expected {w} ({:?})", m.back_map.len(), m.plaintext) }
  Res::Pass(chars.len() > 1 && chars.len() != m.plaintext.len())
}
fn c02(v: &Value) -> Res {
  let Some(b) = build(v) else { return Res::Skip };
  let (m, n) = (&b.m, b.m.plaintext.chars().count());
  let mut err: Option<String> = None;
  let mut count = 0usize;
  let get = |x: RoNode| m.node_map.get(&x.to_hashable()).copied();
  let mut nt = false;
  walk(&m.parameters, b.root, &mut |x, pol| {
    if err.is_some() { return; }
    count += 1;
    let Some((s, e)) = get(x) else { err = Some(format!("visited node {:?} is not recorded", x.get_name())); return };
    match m.get_range_of_node(x) { Ok(r) if (r.start, r.end) == (s, e) => {}, _ => { err = Some("get_range_of_node differs from the node map".into()); return } }
    if !(s <= e && e <= n) { err = Some(format!("range {s}..{e} of {:?} in a text of {n}", x.get_name())); return; }
    match pol {
      Some(Pol::Enter) => {
        let mut at = s;
        for k in kids(x) { match get(k) { Some((a, z)) if a == at => at = z, o => { err = Some(format!("child {:?} of {:?} has range {:?}, expected start {at} in {s}..{e}", k.get_name(), x.get_name(), o)); return } } }
        if at != e { err = Some(format!("children of {:?} end at {at}, its range is {s}..{e}", x.get_name())); }
        nt = nt || kids(x).len() > 1;
      },
      Some(Pol::Skip) => if s != e { err = Some(format!("skipped {:?} has range {s}..{e}", x.get_name())); },
      _ => {},
    }
    if let Some(Pol::Skip | Pol::Tok(_)) = pol {
      below(x, &mut |y| if get(y).is_some() || m.get_range_of_node(y).is_ok() { err = Some(format!("node {:?} below a skipped or replaced element is recorded", y.get_name())) });
    }
  });
  if let Some(e) = err { fail!("{e}") }
  if get(b.root) != Some((0, n)) { fail!("root range {:?}, text length {n}", get(b.root)) }
  if m.get_range().map(|r| (r.start, r.end)).ok() != Some((0, n)) { fail!("get_range() is not 0..{n}") }
  if m.node_map.len() != count { fail!("{} nodes recorded, {count} visited", m.node_map.len()) }
  Res::Pass(nt && n > 0)
}
/// transliterated/lowercased text of a text node with the source index of every character
fn processed(p: &DNMParameters, content: &str) -> Vec<(char, i32)> {
  let mut v: Vec<(char, i32)> = content.chars().enumerate().map(|(i, c)| (c, i as i32)).collect();
  if p.normalize_unicode { v = v.into_iter().flat_map(|(c, i)| unidecode_char(c).chars().map(move |d| (d, i))).collect(); }
  if p.convert_to_lowercase {
    let low = v.iter().map(|x| x.0).collect::<String>().to_lowercase();
    let offs: Vec<i32> = v.iter().flat_map(|(c, i)| c.to_lowercase().map(move |_| *i)).collect();
    v = low.chars().zip(offs).collect();
  }
  v
}
/// expected (char, source index) list of a text node given whether whitespace is pending
fn normalised(p: &DNMParameters, content: &str, mut pending: bool) -> Vec<(char, i32)> {
  let v = processed(p, content);
  if !p.normalize_white_spaces { return v; }
  let mut o = Vec::new();
  for (c, i) in v { if c.is_whitespace() { if !pending { o.push((' ', i)); pending = true; } } else { o.push((c, i)); pending = false; } }
  o
}
/// runs `f(node, start, end, pending-whitespace-before)` over recorded text nodes, tracking the pending state
fn texts(b: &B, f: &mut dyn FnMut(RoNode, usize, usize, bool) -> Option<String>) -> Option<String> {
  let m = &b.m;
  let mut pending = true;
  let mut err = None;
  walk(&m.parameters, b.root, &mut |x, pol| {
    if err.is_some() { return; }
    let Some((s, e)) = m.node_map.get(&x.to_hashable()).copied() else { return };
    if !(s <= e && e <= m.runtime.chars.len()) { return; }
    match pol {
      None => { err = f(x, s, e, pending); if e > s { pending = m.runtime.chars[e - 1].is_whitespace(); } },
      Some(Pol::Tok(_)) => pending = m.parameters.wrap_tokens,
      _ => {},
    }
  });
  err
}
fn c03(v: &Value) -> Res {
  let Some(b) = build(v) else { return Res::Skip };
  let mut nt = false;
  let p = &b.m.parameters;
  let e = texts(&b, &mut |x, s, e, pending| {
    let want = normalised(p, &x.get_content(), pending);
    let wc: Vec<char> = want.iter().map(|t| t.0).collect();
    if b.m.runtime.chars[s..e] != wc[..] { return Some(format!("text node {:?} contributes {:?}, expected {:?} (whitespace pending: {pending})", x.get_content(), &b.m.runtime.chars[s..e], wc)); }
    if p.support_back_mapping && p.normalize_white_spaces {
      for (j, (c, o)) in want.iter().enumerate() { if *c == ' ' && b.m.back_map.get(s + j).map(|t| t.1) != Some(*o) { return Some(format!("the space at {} is mapped to {:?}, expected source position {o}", s + j, b.m.back_map.get(s + j).map(|t| t.1))); } }
    }
    nt = nt || processed(p, &x.get_content()).len() != want.len();
    None
  });
  if let Some(e) = e { fail!("{e}") }
  Res::Pass(nt)
}
fn c04(v: &Value) -> Res {
  if v["noback"] == true { return Res::Skip; }
  let Some(b) = build(v) else { return Res::Skip };
  let m = &b.m; let p = &m.parameters;
  let mut nt = false;
  let e = texts(&b, &mut |x, s, e, pending| {
    let want: Vec<i32> = normalised(p, &x.get_content(), pending).iter().map(|t| t.1).collect();
    if m.back_map.len() < e { return Some(format!("back map has only {} entries", m.back_map.len())); }
    if m.back_map[s..e].iter().any(|t| t.0 != x) { return Some(format!("characters {s}..{e} are not all mapped to their text node")); }
    let got: Vec<i32> = m.back_map[s..e].iter().map(|t| t.1).collect();
    if got != want { return Some(format!("text node {:?}: offsets {:?}, expected {:?}", x.get_content(), got, want)); }
    if got.windows(2).any(|w| w[0] > w[1]) { return Some(format!("offsets decrease: {:?}", got)); }
    nt = nt || want.iter().enumerate().any(|(i, o)| i as i32 != *o);
    None
  });
  if let Some(e) = e { fail!("{e}") }
  let mut err = None;
  walk(p, b.root, &mut |x, pol| if let (Some(Pol::Tok(_)), Some((s, e))) = (pol, m.node_map.get(&x.to_hashable()).copied()) {
    if e > m.back_map.len() || s > e || m.back_map[s..e].iter().any(|t| t.0 != x || t.1 != -1) { err = Some(format!("replacement characters {s}..{e} of {:?} are not mapped to (element, -1)", x.get_name())); }
  });
  if let Some(e) = err { fail!("{e}") }
  Res::Pass(nt)
}
fn c05(v: &Value) -> Res {
  let Some(b) = build(v) else { return Res::Skip };
  let m = &b.m; let p = &m.parameters;
  let cs = &m.runtime.chars;
  let mut pending = true;
  let mut err: Option<String> = None;
  let mut nt = false;
  let mut seen = 0;
  walk(p, b.root, &mut |x, pol| {
    if err.is_some() { return; }
    let get = |y: RoNode| m.node_map.get(&y.to_hashable()).copied().filter(|(s, e)| s <= e && *e <= cs.len());
    let Some((s, e)) = get(x) else { err = Some(format!("{:?} should have been visited", x.get_name())); return };
    match pol {
      None => { if e > s { pending = cs[e - 1].is_whitespace(); } },
      Some(Pol::Skip) => if e != s { err = Some(format!("skipped {:?} contributes {:?}", x.get_name(), &cs[s..e])); },
      Some(Pol::Tok(t)) => {
        let mut w = String::new();
        if p.wrap_tokens { if !(p.normalize_white_spaces && pending) { w.push(' '); } }
        w.push_str(t);
        if p.wrap_tokens { w.push(' '); }
        let got: String = cs[s..e].iter().collect();
        if got != w { err = Some(format!("{:?} (class {:?}) contributes {got:?}, expected {w:?}", x.get_name(), x.get_property("class"))); }
        if kids(x).iter().any(|k| get(*k).is_some()) { err = Some(format!("children of replaced {:?} were visited", x.get_name())); }
        pending = p.wrap_tokens;
        nt = true;
      },
      Some(Pol::Enter) => { seen += 1; let mut at = s; for k in kids(x) { match get(k) { Some((a, z)) if a >= at => at = z, o => { err = Some(format!("child {:?} of entered {:?} out of order or missing: {:?}", k.get_name(), x.get_name(), o)); return } } } },
    }
  });
  if let Some(e) = err { fail!("{e}") }
  Res::Pass(nt && seen > 0)
}

// ---- C29
const SKIP_N: &[&str] = &["img", "table", "head", "footer"];
const SKIP_C: &[&str] = &["ltx_authors", "ltx_TOC", "ltx_note_mark", "ltx_note_outer", "ltx_bibliography", "ltx_tag_figure", "ltx_tag_table"];
fn opt(o: &SpecialTagsOption) -> String { match o { SpecialTagsOption::Enter => "enter".into(), SpecialTagsOption::Skip => "skip".into(), SpecialTagsOption::Normalize(t) => format!("norm:{t}"), SpecialTagsOption::FunctionNormalize(_) => "fun".into() } }
fn tab(t: &HashMap<String, SpecialTagsOption>) -> Vec<(String, String)> { let mut v: Vec<_> = t.iter().map(|(k, o)| (k.clone(), opt(o))).collect(); v.sort(); v }
fn flags(p: &DNMParameters) -> [bool; 7] { [p.normalize_white_spaces, p.wrap_tokens, p.normalize_unicode, p.stem_words_once, p.stem_words_full, p.convert_to_lowercase, p.support_back_mapping] }
fn c29(v: &Value) -> Res {
  let d = DNMParameters::default();
  if flags(&d) != [true, false, false, false, false, false, true] || !d.special_tag_name_options.is_empty() || !d.special_tag_class_options.is_empty() { fail!("default parameters are {:?}", d) }
  let l = DNMParameters::llamapun_normalization();
  if flags(&l) != [false, true, true, false, false, false, true] { fail!("preset flags {:?}", flags(&l)) }
  let mut wn: Vec<(String, String)> = SKIP_N.iter().map(|n| (n.to_string(), "skip".to_string())).collect();
  wn.push(("math".into(), "norm:mathformula".into())); wn.push(("cite".into(), "norm:CitationElement".into())); wn.sort();
  let mut wc: Vec<(String, String)> = SKIP_C.iter().map(|n| (n.to_string(), "skip".to_string())).collect();
  for (k, t) in [("ltx_equation", "\nmathformula\n"), ("ltx_equationgroup", "\nmathformula\n"), ("ltx_ref", "REF")] { wc.push((k.into(), format!("norm:{t}"))); } wc.sort();
  if tab(&l.special_tag_name_options) != wn { fail!("preset element rules {:?}", tab(&l.special_tag_name_options)) }
  if tab(&l.special_tag_class_options) != wc { fail!("preset class rules {:?}", tab(&l.special_tag_class_options)) }
  let bits = v["bits"].as_u64().unwrap_or(0);
  let b = |i: u64| bits >> i & 1 == 1;
  let mut p = params(v);
  p.normalize_white_spaces = b(0); p.wrap_tokens = b(1); p.normalize_unicode = b(2); p.stem_words_once = b(3); p.stem_words_full = b(4); p.convert_to_lowercase = b(5); p.support_back_mapping = b(6);
  let before = (flags(&p), tab(&p.special_tag_name_options), tab(&p.special_tag_class_options));
  if bits != 127 { // `check` reports with dbg!, which is silenced by redirecting stderr in the driver
    p.check();
  }
  if before != (flags(&p), tab(&p.special_tag_name_options), tab(&p.special_tag_class_options)) { fail!("check() changed the parameters") }
  Res::Pass(true)
}
fn gen29(g: &mut G, k: usize) -> Value { if k >= 127 && k % 50 != 0 { return Value::Null; } let mut names = Map::new(); if k > 10 { names.insert("p".into(), gen_rule(g)); } json!({"bits": k % 127, "names": names}) }

pub fn props() -> Vec<Prop> {
  let f: &[&str] = &["dnm/mod.rs", "dnm/parameters.rs"];
  let rule = "random XML trees (depth <= 5, classes, comments, whitespace runs, characters that expand or vanish) x random rule tables (enter/skip/replace/function) x all five flags";
  let mk = |id, check: CheckFn| Prop { id, rule, files: f, gen, check, secs: 5.0 };
  vec![mk("C01", c01), mk("C02", c02), mk("C03", c03), mk("C04", c04), mk("C05", c05),
    Prop { id: "C29", rule: "the complete rule tables and flags of both presets; every flag combination through check()", files: f, gen: gen29, check: c29, secs: 1.0 }]
}
