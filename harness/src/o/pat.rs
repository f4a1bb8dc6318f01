//! C18 C19 C20 C21: pattern files written to disk, loaded and matched by the real code; an own
//! reader and interpreter of the same files says what the answer is.
use crate::core::*;
use crate::fail;
use libxml::parser::Parser;
use libxml::readonly::RoNode;
use libxml::tree::NodeType;
use llamapun::dnm::{DNMParameters, DNMRange, SpecialTagsOption, DNM};
use llamapun::patterns::{match_sentence, MarkerEnum, Match, PatternFile};
use senna::phrase::Phrase;
use senna::pos::POS;
use senna::sentence::{PSGNode, PSGPhrase, Sentence, Word};
use serde_json::{json, Value};
use std::collections::HashMap;

// ---------------------------------------------------------------- pattern files as JSON
// element: {"E": name, "a": [[key, value]], "c": [element | text]}
fn el(n: &str, a: Vec<(&str, String)>, c: Vec<Value>) -> Value { json!({"E": n, "a": a.into_iter().map(|(k, v)| json!([k, v])).collect::<Vec<_>>(), "c": c}) }
fn esc(s: &str) -> String { s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;") }
fn write(v: &Value, o: &mut String) {
  if let Some(s) = v.as_str() { if s == "!" { o.push_str("<!-- note -->") } else { o.push_str(&esc(s)) } return; }
  let n = st(v, "E"); if n.is_empty() { return; }
  o.push_str(&format!("<{n}"));
  let mut seen = vec![];
  for p in arr(v, "a") { let k = p[0].as_str().unwrap_or(""); if k.is_empty() || seen.contains(&k) { continue; } seen.push(k); o.push_str(&format!(" {k}=\"{}\"", esc(p[1].as_str().unwrap_or("")))); }
  o.push('>');
  let mut t = false;
  for c in arr(v, "c") { let s = c.is_string() && c != "!"; if s && t { o.push_str("<!--s-->"); } t = s; write(c, o); }
  o.push_str(&format!("</{n}>"));
}
fn arr<'a>(v: &'a Value, k: &str) -> &'a [Value] { v[k].as_array().map(|a| a.as_slice()).unwrap_or(&[]) }
fn attr<'a>(v: &'a Value, k: &str) -> Option<&'a str> { arr(v, "a").iter().find(|p| p[0] == k).map(|p| p[1].as_str().unwrap_or("")) }

// ---------------------------------------------------------------- own reader
#[derive(Clone, Debug)]
enum Po { Is(String), Not(Box<Po>), Or(Vec<Po>), Ref(String) }
#[derive(Clone, Debug)]
enum Mt { Any, Or(Vec<Mt>), Lit(String), Not(Box<Mt>), Ref(String) }
#[derive(Clone, Debug)]
enum Ma { Any, Ref(String), Mark(Box<Ma>, Mk), Or(Vec<Ma>), Node(Option<String>, Option<String>, Option<(Vec<Ma>, String)>), Desc(Box<Ma>, String) }
#[derive(Clone, Debug)]
enum Wo { Ref(String), Or(Vec<Wo>), Lit(String), Pos(Po, Box<Wo>), Math(Ma), Any, Not(Box<Wo>), Mark(Box<Wo>, Mk) }
#[derive(Clone, Debug)]
enum Sq { Ref(String), Word(Wo), Seq(Vec<Sq>), Phrase(String, bool, Option<(Box<Sq>, bool)>, Option<Box<Sq>>), Mark(Box<Sq>, Mk), Or(Vec<Sq>, String) }
#[derive(Clone, Debug, PartialEq)]
struct Mk { name: String, tags: Vec<String> }
#[derive(Default, Debug)]
struct File { summary: String, po: HashMap<String, (String, Po)>, mt: HashMap<String, (String, Mt)>, ma: HashMap<String, (String, Ma)>, wo: HashMap<String, (String, Wo)>, sq: HashMap<String, (String, Sq)>, refs: Vec<(char, String)>, order: Vec<(char, String, Vec<(char, String)>)> }
/// why a file is not valid; `Odd`: a case the property does not settle
#[derive(Debug)]
enum Bad { Invalid(String), Odd }
type R<T> = Result<T, Bad>;
fn bad<T>(s: impl Into<String>) -> R<T> { Err(Bad::Invalid(s.into())) }
fn kids(v: &Value) -> R<Vec<&Value>> {
  let mut o = vec![];
  for c in arr(v, "c") {
    if let Some(s) = c.as_str() { if s != "!" && !s.trim().is_empty() { return bad(format!("text in {}", st(v, "E"))); } }
    else if !st(c, "E").is_empty() { o.push(c); }
  }
  Ok(o)
}
fn only(v: &Value) -> R<&Value> { let k = kids(v)?; if k.len() == 1 { Ok(k[0]) } else { bad(format!("{} children of {}", k.len(), st(v, "E"))) } }
fn none(v: &Value) -> R<()> { if kids(v)?.is_empty() { Ok(()) } else { bad("child") } }
fn req(v: &Value, k: &str) -> R<String> { attr(v, k).map(|s| s.to_string()).ok_or(Bad::Invalid(format!("{} without {k}", st(v, "E")))) }
fn content(v: &Value) -> R<String> {
  let c: Vec<&Value> = arr(v, "c").iter().filter(|c| c.is_string() && c.as_str() != Some("") || !st(c, "E").is_empty()).collect();
  if c.is_empty() { return Ok(String::new()); }
  if c.len() == 1 && c[0].is_string() && c[0] != "!" { Ok(c[0].as_str().unwrap().trim().to_string()) } else { bad("content") }
}
fn mk(v: &Value) -> R<Mk> { Ok(Mk { name: req(v, "name")?, tags: attr(v, "tags").map(|t| t.split(',').map(|s| s.trim().to_string()).collect()).unwrap_or_default() }) }
fn po(v: &Value, f: &mut File) -> R<Po> {
  Ok(match st(v, "E") {
    "pos" => { none(v)?; let t = req(v, "tag")?; if !POS::all().iter().any(|p| p.0 == t) { return bad("tag"); } Po::Is(t) },
    "pos_not" => Po::Not(Box::new(po(only(v)?, f)?)),
    "pos_ref" => { none(v)?; let r = req(v, "ref")?; f.refs.push(('p', r.clone())); Po::Ref(r) },
    "pos_or" => Po::Or(kids(v)?.into_iter().map(|c| po(c, f)).collect::<R<_>>()?),
    x => return bad(x),
  })
}
fn mt(v: &Value, f: &mut File) -> R<Mt> {
  Ok(match st(v, "E") {
    "mtext_any" => { none(v)?; Mt::Any },
    "mtext_or" => Mt::Or(kids(v)?.into_iter().map(|c| mt(c, f)).collect::<R<_>>()?),
    "mtext_lit" => { none(v)?; Mt::Lit(req(v, "str")?) },
    "mtext_not" => Mt::Not(Box::new(mt(only(v)?, f)?)),
    "mtext_ref" => { none(v)?; let r = req(v, "ref")?; f.refs.push(('t', r.clone())); Mt::Ref(r) },
    x => return bad(x),
  })
}
fn ma(v: &Value, f: &mut File) -> R<Ma> {
  Ok(match st(v, "E") {
    "math_any" => { none(v)?; Ma::Any },
    "math_marker" => Ma::Mark(Box::new(ma(only(v)?, f)?), mk(v)?),
    "math_ref" => { none(v)?; let r = req(v, "ref")?; f.refs.push(('m', r.clone())); Ma::Ref(r) },
    "math_or" => Ma::Or(kids(v)?.into_iter().map(|c| ma(c, f)).collect::<R<_>>()?),
    "math_node" => {
      let (mut t, mut ch) = (None, None);
      for c in kids(v)? { match st(c, "E") {
        "math_children" => { if ch.is_some() { return bad("second math_children"); } let ty = req(c, "match_type")?; if !["starts_with", "exact", "ends_with", "arbitrary"].contains(&ty.as_str()) { return bad("type"); }
          let k: Vec<Ma> = kids(c)?.into_iter().map(|c| ma(c, f)).collect::<R<_>>()?; if k.is_empty() { return bad("no children"); } ch = Some((k, ty)); },
        "mtext_ref" => { if t.is_some() { return bad("second mtext_ref"); } none(c)?; let r = req(c, "ref")?; f.refs.push(('t', r.clone())); t = Some(r); },
        x => return bad(x),
      } }
      Ma::Node(attr(v, "name").map(|s| s.to_string()), t, ch)
    },
    "math_descendant" => { let ty = req(v, "match_type")?; if !["first", "at_least_one", "arbitrary"].contains(&ty.as_str()) { return bad("type"); } Ma::Desc(Box::new(ma(only(v)?, f)?), ty) },
    x => return bad(x),
  })
}
fn wo(v: &Value, f: &mut File) -> R<Wo> {
  Ok(match st(v, "E") {
    "word_ref" => { none(v)?; let r = req(v, "ref")?; f.refs.push(('w', r.clone())); Wo::Ref(r) },
    "word_or" => Wo::Or(kids(v)?.into_iter().map(|c| wo(c, f)).collect::<R<_>>()?),
    "word" => Wo::Lit(content(v)?),
    "word_math" => Wo::Math(ma(only(v)?, f)?),
    "word_any" => { if !arr(v, "c").is_empty() { return Err(Bad::Odd); } Wo::Any },
    "word_not" => Wo::Not(Box::new(wo(only(v)?, f)?)),
    "word_marker" => Wo::Mark(Box::new(wo(only(v)?, f)?), mk(v)?),
    "word_pos" => {
      let (mut p, mut w) = (None, None);
      for c in kids(v)? { if st(c, "E") == "pos" { if p.is_some() { return bad("second pos"); } p = Some(po(only(c)?, f)?); } else { if w.is_some() { return bad("second word"); } w = Some(wo(c, f)?); } }
      match (p, w) { (Some(p), Some(w)) => Wo::Pos(p, Box::new(w)), _ => return bad("word_pos") }
    },
    x => return bad(x),
  })
}
fn sq(v: &Value, f: &mut File) -> R<Sq> {
  Ok(match st(v, "E") {
    "seq_ref" => { none(v)?; let r = req(v, "ref")?; f.refs.push(('s', r.clone())); Sq::Ref(r) },
    "seq_word" => Sq::Word(wo(only(v)?, f)?),
    "seq_seq" => Sq::Seq(kids(v)?.into_iter().map(|c| sq(c, f)).collect::<R<_>>()?),
    "phrase" => {
      let tag = req(v, "tag")?; let (mut long, mut types, mut a, mut b) = (true, 0, None, None);
      for c in kids(v)? { match st(c, "E") {
        "match_type" => { types += 1; long = match content(c)?.as_str() { "shortest" => false, "longest" => true, _ => return bad("type") }; },
        "starts_with_seq" => { if a.is_some() { return bad("second start"); } a = Some((Box::new(sq(only(c)?, f)?), match attr(c, "containment") { None | Some("any") => false, Some("lessorequal") => true, _ => return bad("containment") })); },
        "ends_with_seq" => { if b.is_some() { return bad("second end"); } b = Some(Box::new(sq(only(c)?, f)?)); },
        x => return bad(x),
      } }
      if !Phrase::all().iter().any(|p| p.0 == tag) { return bad("tag"); }
      if types > 1 { return Err(Bad::Odd); }
      Sq::Phrase(tag, long, a, b)
    },
    "seq_marker" => Sq::Mark(Box::new(sq(only(v)?, f)?), mk(v)?),
    "seq_or" => { let t = attr(v, "match_type").unwrap_or("first").to_string(); if !["first", "atleastone", "any", "longest"].contains(&t.as_str()) { return bad("type"); } Sq::Or(kids(v)?.into_iter().map(|c| sq(c, f)).collect::<R<_>>()?, t) },
    x => return bad(x),
  })
}
fn meta(v: &Value) -> R<String> {
  let mut s = None;
  for c in kids(v)? { if st(c, "E") != "description" || s.is_some() { return bad("meta"); } s = Some(content(c)?); }
  Ok(s.unwrap_or_default())
}
fn rule<T>(v: &Value, f: &mut File, load: fn(&Value, &mut File) -> R<T>) -> R<(String, (String, T))> {
  let n = req(v, "name")?; let (mut m, mut p) = (None, None);
  for c in kids(v)? { if st(c, "E") == "meta" { if m.is_some() { return bad("second meta"); } m = Some(meta(c)?); } else { if p.is_some() { return bad("second pattern"); } p = Some(load(c, f)?); } }
  match p { Some(p) => Ok((n, (m.unwrap_or_default(), p))), None => bad("no pattern") }
}
fn read(v: &Value) -> R<File> {
  let mut f = File::default(); let mut m = None;
  // an oddity anywhere leaves the file undecided, whatever else is wrong with it
  fn odd(v: &Value) -> bool { st(v, "E") == "word_any" && !arr(v, "c").is_empty() || st(v, "E") == "phrase" && arr(v, "c").iter().filter(|c| st(c, "E") == "match_type").count() > 1 || arr(v, "c").iter().any(odd) }
  if odd(v) { return Err(Bad::Odd); }
  macro_rules! add { ($map:ident, $load:ident, $c:expr, $k:expr) => {{ let at = f.refs.len(); let (n, r) = rule($c, &mut f, $load)?; let rs = f.refs[at..].to_vec(); f.order.push(($k, n.clone(), rs)); if f.$map.insert(n, r).is_some() { return bad("defined twice"); } }} }
  for c in kids(v)? { match st(c, "E") {
    "meta" => { if m.is_some() { return bad("second meta"); } m = Some(meta(c)?); },
    "pos_rule" => add!(po, po, c, 'p'), "mtext_rule" => add!(mt, mt, c, 't'), "math_rule" => add!(ma, ma, c, 'm'), "word_rule" => add!(wo, wo, c, 'w'), "seq_rule" => add!(sq, sq, c, 's'),
    x => return bad(x),
  } }
  for (k, n) in &f.refs { let ok = match k { 'p' => f.po.contains_key(n), 't' => f.mt.contains_key(n), 'm' => f.ma.contains_key(n), 'w' => f.wo.contains_key(n), _ => f.sq.contains_key(n) }; if !ok { return bad(format!("undefined {n}")); } }
  f.summary = m.unwrap_or_default();
  Ok(f)
}
fn circular(f: &File) -> bool {
  let g: HashMap<(char, String), &Vec<(char, String)>> = f.order.iter().map(|(k, n, r)| ((*k, n.clone()), r)).collect();
  fn go(x: &(char, String), g: &HashMap<(char, String), &Vec<(char, String)>>, path: &mut Vec<(char, String)>, done: &mut Vec<(char, String)>) -> bool {
    if path.contains(x) { return true; } if done.contains(x) { return false; }
    path.push(x.clone());
    if let Some(r) = g.get(x) { for y in r.iter() { if go(y, g, path, done) { return true; } } }
    path.pop(); done.push(x.clone()); false
  }
  let mut done = vec![]; g.keys().any(|k| go(k, &g, &mut vec![], &mut done))
}

// ---------------------------------------------------------------- own interpreter
#[derive(Debug, Clone, PartialEq)]
struct M { mark: Mk, at: At, subs: Vec<M> }
#[derive(Debug, Clone, PartialEq)]
enum At { Text(usize, usize), Node(usize) }
struct W { text: String, tag: POS, start: usize, end: usize, node: RoNode, b: (usize, usize) }
struct Tree { label: String, first: usize, last: usize, kids: Vec<Tree> }
struct Cx<'a> { f: &'a File, words: &'a [W], tree: &'a Tree }
fn elems(n: RoNode) -> Vec<RoNode> { n.get_child_nodes().into_iter().filter(|c| !matches!(c.get_type(), Some(NodeType::TextNode) | Some(NodeType::CommentNode))).collect() }
fn simple(n: RoNode) -> Option<String> { let k = n.get_child_nodes(); if k.is_empty() { Some(String::new()) } else if k.len() == 1 && k[0].get_type() == Some(NodeType::TextNode) { Some(k[0].get_content()) } else { None } }
impl Cx<'_> {
  fn po(&self, p: &Po, t: POS) -> bool { match p { Po::Is(s) => POS::all().iter().any(|x| x.0 == s && x.1 == t), Po::Not(q) => !self.po(q, t), Po::Or(v) => v.iter().any(|q| self.po(q, t)), Po::Ref(n) => self.po(&self.f.po[n].1, t) } }
  fn mt(&self, p: &Mt, t: &str) -> bool { match p { Mt::Any => true, Mt::Lit(s) => s == t, Mt::Not(q) => !self.mt(q, t), Mt::Or(v) => v.iter().any(|q| self.mt(q, t)), Mt::Ref(n) => self.mt(&self.f.mt[n].1, t) } }
  fn ma(&self, p: &Ma, n: RoNode) -> Option<Vec<M>> {
    match p {
      Ma::Any => Some(vec![]),
      Ma::Ref(r) => self.ma(&self.f.ma[r].1, n),
      Ma::Mark(q, k) => self.ma(q, n).map(|s| vec![M { mark: k.clone(), at: At::Node(n.to_hashable()), subs: s }]),
      Ma::Or(v) => v.iter().find_map(|q| self.ma(q, n)),
      Ma::Node(name, t, ch) => {
        if let Some(x) = name { if *x != n.get_name() { return None; } }
        if let Some(r) = t { if !simple(n).map_or(false, |c| self.mt(&self.f.mt[r].1, &c)) { return None; } }
        if let Some((v, ty)) = ch {
          let k = elems(n); if k.len() < v.len() { return None; }
          let at = |s: usize| -> Option<Vec<M>> { let mut o = vec![]; for (i, q) in v.iter().enumerate() { o.extend(self.ma(q, k[s + i])?); } Some(o) };
          return match ty.as_str() { "starts_with" => at(0), "ends_with" => at(k.len() - v.len()), "exact" => if k.len() == v.len() { at(0) } else { None }, _ => (0..=k.len() - v.len()).find_map(at) };
        }
        Some(vec![])
      },
      Ma::Desc(q, ty) => {
        let mut all = vec![]; fn pre(n: RoNode, o: &mut Vec<RoNode>) { o.push(n); for c in elems(n) { pre(c, o); } } pre(n, &mut all);
        let hits: Vec<Vec<M>> = all.into_iter().filter_map(|x| self.ma(q, x)).collect();
        match ty.as_str() { "first" => hits.into_iter().next(), "at_least_one" => if hits.is_empty() { None } else { Some(hits.concat()) }, _ => Some(hits.concat()) }
      },
    }
  }
  fn wo(&self, p: &Wo, w: &W) -> Option<Vec<M>> {
    match p {
      Wo::Any => Some(vec![]), Wo::Lit(s) => if *s == w.text { Some(vec![]) } else { None },
      Wo::Ref(r) => self.wo(&self.f.wo[r].1, w), Wo::Or(v) => v.iter().find_map(|q| self.wo(q, w)),
      Wo::Not(q) => if self.wo(q, w).is_some() { None } else { Some(vec![]) },
      Wo::Pos(a, b) => if self.po(a, w.tag) { self.wo(b, w) } else { None },
      Wo::Mark(q, k) => self.wo(q, w).map(|s| vec![M { mark: k.clone(), at: At::Text(w.start, w.end), subs: s }]),
      Wo::Math(q) => { if w.node.get_name() != "math" { return None; } let c = elems(w.node); let c = *c.first()?; if c.get_name() == "semantics" { self.ma(q, *elems(c).first()?) } else { self.ma(q, c) } },
    }
  }
  fn ends(&self, t: &Tree, pos: usize, l: &str, o: &mut Vec<usize>) { for k in &t.kids { self.ends(k, pos, l, o); } if t.first == pos && t.label == l { o.push(t.last + 1); } }
  fn sq(&self, p: &Sq, pos: usize) -> Option<(usize, Vec<M>)> {
    match p {
      Sq::Ref(r) => self.sq(&self.f.sq[r].1, pos),
      Sq::Word(w) => self.wo(w, self.words.get(pos)?).map(|m| (pos + 1, m)),
      Sq::Seq(v) => { let (mut at, mut o) = (pos, vec![]); for q in v { let (e, m) = self.sq(q, at)?; at = e; o.extend(m); } Some((at, o)) },
      Sq::Mark(q, k) => { let (e, m) = self.sq(q, pos)?; if e == pos { return Some((e, m)); } Some((e, vec![M { mark: k.clone(), at: At::Text(self.words[pos].start, self.words[e - 1].end), subs: m }])) },
      Sq::Or(v, ty) => {
        let hits: Vec<(usize, Vec<M>)> = v.iter().filter_map(|q| self.sq(q, pos)).collect();
        if hits.is_empty() { return if ty == "any" { Some((pos, vec![])) } else { None }; }
        Some(match ty.as_str() {
          "first" => hits[0].clone(),
          "longest" => { let m = hits.iter().map(|h| h.0).max().unwrap(); hits.into_iter().find(|h| h.0 == m).unwrap() },
          _ => (hits.iter().map(|h| h.0).max().unwrap(), hits.into_iter().flat_map(|h| h.1).collect()),
        })
      },
      Sq::Phrase(l, long, a, b) => {
        let mut e = vec![]; self.ends(self.tree, pos, l, &mut e);
        e.sort(); if *long { e.reverse(); }
        e.into_iter().find_map(|end| {
          let mut o = match a { None => vec![], Some((q, le)) => { let (x, m) = self.sq(q, pos)?; if *le && x > end { return None; } m } };
          if let Some(q) = b { o.extend((pos..end).find_map(|s| self.sq(q, s).filter(|r| r.0 == end).map(|r| r.1))?); }
          Some((end, o))
        })
      },
    }
  }
}
fn seen(m: &Match) -> M {
  let (k, at) = match &m.marker { MarkerEnum::Text(t) => (&t.marker, At::Text(t.range.start, t.range.end)), MarkerEnum::Math(x) => (&x.marker, At::Node(x.node.to_hashable())) };
  M { mark: Mk { name: k.name.clone(), tags: k.tags.clone() }, at, subs: m.sub_matches.iter().map(seen).collect() }
}
fn flat(m: &M, o: &mut Vec<(Mk, At)>) { o.push((m.mark.clone(), m.at.clone())); for s in &m.subs { flat(s, o); } }

// ---------------------------------------------------------------- running both
fn scratch() -> String { format!("{}/vx_pattern_{}.xml", std::env::temp_dir().display(), std::process::id()) }
fn load(ast: &Value) -> Result<PatternFile, String> {
  let mut x = String::from("<?xml version=\"1.0\"?>\n"); write(ast, &mut x);
  let p = scratch(); std::fs::write(&p, &x).unwrap();
  let r = PatternFile::load(&p);
  let _ = std::fs::remove_file(&p);
  r
}
fn tree(v: &Value, next: &mut usize) -> Option<(PSGNode, Option<Tree>, usize, usize)> {
  if v == "." { *next += 1; return Some((PSGNode::Leaf(*next - 1), None, *next - 1, *next - 1)); }
  let a = v.as_array()?; let l = a.first()?.as_str()?;
  let label = Phrase::all().into_iter().find(|p| p.0 == l)?.1;
  let (mut ns, mut ts, mut span) = (vec![], vec![], None);
  for c in &a[1..] { if c == "_" { *next += 1; continue; } let (n, t, x, y) = tree(c, next)?; ns.push(n); ts.extend(t); span = Some((span.map_or(x, |s: (usize, usize)| s.0), y)); }
  let (x, y) = span?;
  Some((PSGNode::Parent(Box::new(PSGPhrase { label, children: ns })), Some(Tree { label: l.to_string(), first: x, last: y, kids: ts }), x, y))
}
fn markup(t: &str) -> bool { t.starts_with("<math") || t.starts_with("<cite") }
fn compare(pf: &PatternFile, f: &File, v: &Value) -> Res {
  let ws = arr(v, "words");
  let mut x = format!("<html><p>{}</p><p>", esc(st(v, "before")));
  for w in ws { let t = w[0].as_str().unwrap_or(""); if t.is_empty() || !markup(t) && t.contains(char::is_whitespace) { return Res::Skip; } if markup(t) { x.push_str(t); } else { x.push_str(&esc(t)); } x.push(' '); }
  x.push_str("</p></html>");
  let Ok(doc) = Parser::default().parse_string(&x) else { return Res::Skip };
  let mut p = DNMParameters { normalize_white_spaces: false, ..Default::default() };
  p.special_tag_name_options.insert("math".into(), SpecialTagsOption::Normalize("mathformula".into()));
  p.special_tag_name_options.insert("cite".into(), SpecialTagsOption::Normalize("citationelement".into()));
  let dnm = DNM::new(doc.get_root_readonly().unwrap(), p);
  let cs: Vec<char> = dnm.plaintext.chars().collect();
  let skip = st(v, "before").chars().count();
  if cs.len() < skip { return Res::Skip; }
  let range = DNMRange { start: skip, end: cs.len(), dnm: &dnm };
  let text: String = cs[skip..].iter().collect();
  let (mut words, mut i) = (vec![], 0);
  while i < cs.len() - skip {
    if cs[skip + i].is_whitespace() { i += 1; continue; }
    let s = i; while i < cs.len() - skip && !cs[skip + i].is_whitespace() { i += 1; }
    let b: usize = cs[skip..skip + s].iter().map(|c| c.len_utf8()).sum();
    let t: String = cs[skip + s..skip + i].iter().collect();
    let k = words.len(); if k >= ws.len() { return Res::Skip; }
    let tag = POS::all().into_iter().find(|p| p.0 == ws[k][1].as_str().unwrap_or("")).map_or(POS::NOT_SET, |p| p.1);
    words.push(W { b: (b, b + t.len()), text: t, tag, start: skip + s, end: skip + i, node: dnm.back_map[skip + s].0 });
  }
  if words.len() != ws.len() { return Res::Skip; }
  let sw: Vec<Word> = words.iter().enumerate().map(|(i, w)| Word::new(&w.text, w.b.0, w.b.1, w.tag, i as u32)).collect();
  let mut n = 0;
  let (psg, tr) = match tree(&v["tree"], &mut n) { Some((p, Some(t), _, _)) if n <= words.len() => (p, t), _ => return Res::Skip };
  let mut s = Sentence { string: &text, words: sw, psg: Some(psg) };
  let cx = Cx { f, words: &words, tree: &tr };
  let mut nt = false;
  for (name, (_, p)) in &f.sq {
    let Ok(got) = match_sentence(pf, &s, &range, name) else { fail!("match_sentence fails for the defined rule {name:?}") };
    let g: Vec<M> = got.iter().map(seen).collect();
    let w: Vec<M> = (0..words.len()).filter_map(|i| cx.sq(p, i)).flat_map(|r| r.1).collect();
    if g != w { fail!("rule {name:?} on {x}: found {g:?}, expected {w:?}") }
    for m in &got {
      let l: Vec<(Mk, At)> = m.get_marker_list().iter().map(|k| { let q = seen(&Match { marker: k.clone(), sub_matches: vec![] }); (q.mark, q.at) }).collect();
      let mut e = vec![]; flat(&seen(m), &mut e);
      if l != e { fail!("marker list {l:?}, expected {e:?}") }
    }
    nt |= w.len() > 0 && (0..words.len()).any(|i| cx.sq(p, i).is_none());
  }
  if !f.sq.contains_key("no such rule") && match_sentence(pf, &s, &range, "no such rule").is_ok() { fail!("an unknown rule is matched") }
  if let Some(name) = f.sq.keys().next() {
    s.psg = Some(PSGNode::Leaf(0));
    if match_sentence(pf, &s, &range, name).is_ok() { fail!("a parse without phrase is accepted") }
    s.psg = None;
    if match_sentence(pf, &s, &range, name).is_ok() { fail!("a missing parse is accepted") }
  }
  Res::Pass(nt)
}
fn check(v: &Value) -> Res {
  let Ok(f) = read(&v["file"]) else { return Res::Skip };
  if circular(&f) { return Res::Skip; }
  // loading itself is property C21
  let Ok(pf) = load(&v["file"]) else { return Res::Skip };
  compare(&pf, &f, v)
}
fn c21(v: &Value) -> Res {
  if st(&v["file"], "E").is_empty() { return Res::Skip; }
  let got = load(&v["file"]);
  let f = match read(&v["file"]) {
    Err(Bad::Odd) => return Res::Skip,
    Err(Bad::Invalid(why)) => { if got.is_ok() { fail!("an invalid file ({why}) is loaded") } return Res::Pass(true); },
    Ok(f) => f,
  };
  let pf = match got { Ok(p) => p, Err(e) => fail!("a valid file is refused: {e}") };
  if pf.description.get_summary() != f.summary { fail!("summary {:?}, expected {:?}", pf.description.get_summary(), f.summary) }
  macro_rules! names { ($map:expr, $rules:expr, $names:expr, $k:expr) => {{
    if $names.len() != $map.len() { fail!("{} {} names, expected {:?}", $names.len(), $k, $map.keys()) }
    if $rules.len() != $map.len() { fail!("{} {} rules, expected {}", $rules.len(), $k, $map.len()) }
    for (n, (s, _)) in &$map { match $names.get(n) { None => fail!("{} {n:?} is missing", $k), Some(p) => if $rules[*p].description.get_summary() != s { fail!("{} {n:?} is mapped to the rule described {:?}, expected {s:?}", $k, $rules[*p].description.get_summary()) } } }
  }} }
  names!(f.po, pf.pos_rules, pf.pos_rule_names, "pos_rule"); names!(f.mt, pf.mtext_rules, pf.mtext_rule_names, "mtext_rule"); names!(f.ma, pf.math_rules, pf.math_rule_names, "math_rule"); names!(f.wo, pf.word_rules, pf.word_rule_names, "word_rule"); names!(f.sq, pf.sequence_rules, pf.sequence_rule_names, "seq_rule");
  if circular(&f) { return Res::Pass(true); }
  match compare(&pf, &f, v) { Res::Skip => Res::Pass(false), r => r }
}

// ---------------------------------------------------------------- generation
const TAGS: &[&str] = &["NN", "VB", "DT", "JJ"];
const VOC: &[&str] = &["a", "let", "be", "é", "x"];
const LAB: &[&str] = &["NP", "VP", "S"];
const MN: &[&str] = &["mi", "mo", "mrow", "msub"];
const MC: &[&str] = &["x", "+", "n", ""];
struct Gen { kind: u8 }
fn pick(g: &mut G, v: &[&str]) -> String { g.r.pick(v).to_string() }
fn refto(g: &mut G, k: &str, i: usize, n: usize) -> Option<String> { if i + 1 < n { Some(format!("{k}{}", g.r.range(i + 1, n - 1))) } else { None } }
fn marker(g: &mut G, e: &str, c: Value) -> Value { let mut a = vec![("name", pick(g, &["m1", "m2", "M é"]))]; if g.r.chance(1, 3) { a.push(("tags", pick(g, &["t", "t, u", "a,,b", " c "]))); } el(e, a, vec![c]) }
fn blank(g: &mut G, v: &mut Vec<Value>) { if g.r.chance(1, 8) { let i = g.r.range(0, v.len()); v.insert(i, json!(*g.r.pick(&["!", " ", "\n"]))); } }
impl Gen {
  fn many(&self, g: &mut G, mx: usize, f: &mut dyn FnMut(&mut G) -> Value) -> Vec<Value> { let n = if g.r.chance(1, 10) { 0 } else { g.r.range(1, mx) }; let mut v: Vec<Value> = (0..n).map(|_| f(g)).collect(); blank(g, &mut v); v }
  fn po(&self, g: &mut G, d: usize, i: usize) -> Value { match g.r.below(if d == 0 { 2 } else { 6 }) {
    0 | 1 | 5 => el("pos", vec![("tag", pick(g, TAGS))], vec![]), 2 => { let c = self.po(g, d - 1, i); el("pos_not", vec![], vec![c]) }, 3 => { let c = self.many(g, 3, &mut |g| self.po(g, d - 1, i)); el("pos_or", vec![], c) },
    _ => match refto(g, "p", i, 3) { Some(r) => el("pos_ref", vec![("ref", r)], vec![]), None => self.po(g, 0, i) } } }
  fn mt(&self, g: &mut G, d: usize, i: usize) -> Value { match g.r.below(if d == 0 { 3 } else { 6 }) {
    0 => el("mtext_any", vec![], vec![]), 1 | 2 => el("mtext_lit", vec![("str", pick(g, MC))], vec![]), 3 => { let c = self.mt(g, d - 1, i); el("mtext_not", vec![], vec![c]) }, 4 => { let c = self.many(g, 3, &mut |g| self.mt(g, d - 1, i)); el("mtext_or", vec![], c) },
    _ => match refto(g, "t", i, 3) { Some(r) => el("mtext_ref", vec![("ref", r)], vec![]), None => self.mt(g, 0, i) } } }
  fn ma(&self, g: &mut G, d: usize, i: usize) -> Value { match g.r.below(if d == 0 { 3 } else { 10 }) {
    0 => el("math_any", vec![], vec![]),
    1 | 2 | 6 | 7 => {
      let a = if g.r.chance(2, 3) { vec![("name", pick(g, MN))] } else { vec![] }; let mut c = vec![];
      if g.r.chance(1, 3) { c.push(el("mtext_ref", vec![("ref", format!("t{}", g.r.below(3)))], vec![])); }
      if d > 0 && g.r.chance(1, 2) { let k = self.many(g, 3, &mut |g| self.ma(g, d - 1, i)); let k = if k.iter().any(|x| x.is_object()) { k } else { vec![el("math_any", vec![], vec![])] }; let e = el("math_children", vec![("match_type", pick(g, &["starts_with", "exact", "ends_with", "arbitrary", "arbitrary"]))], k); let at = g.r.range(0, c.len()); c.insert(at, e); }
      el("math_node", a, c)
    },
    3 => { let c = self.ma(g, d - 1, i); el("math_descendant", vec![("match_type", pick(g, &["first", "at_least_one", "arbitrary"]))], vec![c]) },
    4 | 8 => { let c = self.ma(g, d - 1, i); marker(g, "math_marker", c) }, 5 => { let c = self.many(g, 3, &mut |g| self.ma(g, d - 1, i)); el("math_or", vec![], c) },
    _ => match refto(g, "m", i, 3) { Some(r) => el("math_ref", vec![("ref", r)], vec![]), None => self.ma(g, 0, i) } } }
  fn wo(&self, g: &mut G, d: usize, i: usize) -> Value {
    if self.kind == 19 && g.r.chance(2, 3) { let c = self.ma(g, 3, if i == 9 { 0 } else { i }); return el("word_math", vec![], vec![c]); }
    match g.r.below(if d == 0 { 4 } else { 10 }) {
    0 => el("word_any", vec![], vec![]), 1 | 2 | 9 => { let w = pick(g, VOC); let s = if g.r.chance(1, 4) { format!(" {w}\n") } else { w }; el("word", vec![], vec![json!(s)]) },
    3 => { let c = self.ma(g, if d > 0 { 1 } else { 0 }, 2); el("word_math", vec![], vec![c]) },
    4 => { let c = self.wo(g, d - 1, i); el("word_not", vec![], vec![c]) }, 5 => { let c = self.many(g, 3, &mut |g| self.wo(g, d - 1, i)); el("word_or", vec![], c) }, 6 | 8 => { let c = self.wo(g, d - 1, i); marker(g, "word_marker", c) },
    7 => { let p = el("pos", vec![], vec![self.po(g, 2, 0)]); let w = self.wo(g, d - 1, i); let mut c = if g.r.chance(1, 2) { vec![p, w] } else { vec![w, p] }; blank(g, &mut c); el("word_pos", vec![], c) },
    _ => match refto(g, "w", i, 3) { Some(r) => el("word_ref", vec![("ref", r)], vec![]), None => self.wo(g, 0, i) } } }
  fn sq(&self, g: &mut G, d: usize, i: usize) -> Value {
    if self.kind != 20 && g.r.chance(2, 3) { let w = self.wo(g, 3, 0); let w = marker(g, "word_marker", w); return el("seq_word", vec![], vec![w]); }
    match g.r.below(if d == 0 { 3 } else { 12 }) {
    0..=2 => { let w = if g.r.chance(1, 3) { el("word_any", vec![], vec![]) } else { self.wo(g, 1, 0) }; el("seq_word", vec![], vec![w]) },
    3 | 4 => { let c = self.many(g, 3, &mut |g| self.sq(g, d - 1, i)); el("seq_seq", vec![], c) },
    5 | 6 => { let a = if g.r.chance(4, 5) { vec![("match_type", pick(g, &["first", "atleastone", "any", "longest", "longest"]))] } else { vec![] }; let c = self.many(g, 3, &mut |g| self.sq(g, d - 1, i)); el("seq_or", a, c) },
    7 | 8 => { let c = self.sq(g, d - 1, i); marker(g, "seq_marker", c) },
    9 | 10 => {
      let mut c = vec![];
      if g.r.chance(2, 3) { c.push(el("match_type", vec![], vec![json!(pick(g, &["shortest", "longest", " shortest "]))])); }
      if g.r.chance(1, 2) { let q = self.sq(g, d - 1, i); let a = match g.r.below(3) { 0 => vec![], 1 => vec![("containment", "lessorequal".to_string())], _ => vec![("containment", "any".to_string())] }; c.push(el("starts_with_seq", a, vec![q])); }
      if g.r.chance(1, 2) { let q = self.sq(g, d - 1, i); let at = g.r.range(0, c.len()); c.insert(at, el("ends_with_seq", vec![], vec![q])); }
      blank(g, &mut c); el("phrase", vec![("tag", pick(g, LAB))], c)
    },
    _ => match refto(g, "s", i, 3) { Some(r) => el("seq_ref", vec![("ref", r)], vec![]), None => self.sq(g, 0, i) } } }
  fn file(&self, g: &mut G) -> Value {
    let mut rs = vec![];
    let rule = |g: &mut G, k: &str, n: String, p: Value| { let mut c = vec![p]; if g.r.chance(2, 3) { let at = g.r.range(0, 1); c.insert(at, el("meta", vec![], vec![el("description", vec![], vec![json!(format!(" about {k} {n}"))])])); } blank(g, &mut c); el(k, vec![("name", n)], c) };
    for i in 0..3 {
      let p = self.po(g, 2, i); rs.push(rule(g, "pos_rule", format!("p{i}"), p)); let p = self.mt(g, 2, i); rs.push(rule(g, "mtext_rule", format!("t{i}"), p)); let p = self.ma(g, 3, i); rs.push(rule(g, "math_rule", format!("m{i}"), p));
      let p = self.wo(g, 2, i); rs.push(rule(g, "word_rule", format!("w{i}"), p)); let p = self.sq(g, if self.kind == 20 { 4 } else { 2 }, i); rs.push(rule(g, "seq_rule", format!("s{i}"), p));
    }
    for i in (1..rs.len()).rev() { let j = g.r.below(i + 1); rs.swap(i, j); }
    if g.r.chance(1, 2) { let at = g.r.range(0, rs.len()); rs.insert(at, el("meta", vec![], vec![el("description", vec![], vec![json!("all of it")])])); }
    blank(g, &mut rs);
    el("pattern_file", vec![], rs)
  }
}
fn math(g: &mut G, d: usize) -> String {
  let n = pick(g, MN);
  if d == 0 || g.r.chance(1, 3) { let c = esc(&pick(g, MC)); return format!("<{n}>{c}</{n}>"); }
  let k = g.r.range(0, 4); let mut s = format!("<{n}>"); for _ in 0..k { if g.r.chance(1, 6) { s.push_str(*g.r.pick(&["<!--c-->", " "])); } s.push_str(&math(g, d - 1)); } s + &format!("</{n}>")
}
fn sentence(g: &mut G, o: &mut serde_json::Map<String, Value>, mw: usize) {
  let n = g.r.range(1, 6);
  let words: Vec<Value> = (0..n).map(|_| { let w = if g.r.chance(mw, 6) { let m = math(g, 3); match g.r.below(7) { 6 => format!("<cite>{m}</cite>"), 0 => format!("<math><semantics>{m}<annotation>q</annotation></semantics></math>"), 1 => "<math></math>".into(), 2 => "<math><semantics></semantics></math>".into(), 3 => format!("<math><!--c-->{m}<mi>z</mi></math>"), _ => format!("<math>{m}</math>") } } else { pick(g, VOC) }; json!([w, pick(g, TAGS)]) }).collect();
  fn tree(g: &mut G, left: &mut usize, d: usize) -> Value {
    let mut v = vec![json!(pick(g, LAB))];
    let m = g.r.range(1, 3);
    for i in 0..m { if *left == 0 { break; } if g.r.chance(1, 12) && *left > 1 && i > 0 { v.push(json!("_")); *left -= 1; } if d > 0 && g.r.chance(2, 3) { v.push(tree(g, left, d - 1)); } else { v.push(json!(".")); *left -= 1; } }
    Value::Array(v)
  }
  let mut left = n;
  let mut t = vec![json!(pick(g, LAB))];
  while left > 0 { if g.r.chance(3, 4) { let d = g.r.range(0, 4); t.push(tree(g, &mut left, d)); } else { t.push(json!(".")); left -= 1; } if g.r.chance(1, 8) { break; } }
  o.insert("words".into(), json!(words)); o.insert("tree".into(), Value::Array(t)); o.insert("before".into(), json!(*g.r.pick(&["", "", "é ", "some words "])));
}
fn gen(g: &mut G, kind: u8) -> Value {
  let mut o = serde_json::Map::new();
  let f = Gen { kind }.file(g); o.insert("file".into(), f);
  sentence(g, &mut o, if kind == 19 { 5 } else { 2 });
  Value::Object(o)
}
fn gen18(g: &mut G, _: usize) -> Value { gen(g, 18) }
fn gen19(g: &mut G, _: usize) -> Value { gen(g, 19) }
fn gen20(g: &mut G, _: usize) -> Value { gen(g, 20) }
const NAMES: &[&str] = &["bogus", "pos", "pos_not", "pos_ref", "pos_or", "mtext_any", "mtext_or", "mtext_lit", "mtext_not", "mtext_ref", "math_any", "math_marker", "math_ref", "math_or", "math_node", "math_children", "math_descendant", "word_ref", "word_or", "word", "word_math", "word_any", "word_not", "word_marker", "word_pos", "seq_ref", "seq_word", "seq_seq", "phrase", "seq_marker", "seq_or", "match_type", "starts_with_seq", "ends_with_seq", "meta", "description", "pos_rule", "mtext_rule", "math_rule", "word_rule", "seq_rule"];
const VALS: &[&str] = &["bogus", "", "p0", "p1", "t1", "t2", "m2", "w1", "w2", "s0", "s1", "s2", "NN", "NP", "VP", "first", "any", "longest", "arbitrary", "exact", "lessorequal", "atleastone", "at_least_one", "starts_with", "x"];
fn count(v: &Value) -> usize { if v.is_object() { 1 + arr(v, "c").iter().map(count).sum::<usize>() } else { 0 } }
fn nth<'a>(v: &'a mut Value, k: &mut usize) -> Option<&'a mut Value> {
  if !v.is_object() { return None; }
  if *k == 0 { return Some(v); }
  *k -= 1;
  for c in v["c"].as_array_mut()?.iter_mut() { let n = count(c); if *k < n { return nth(c, k); } *k -= n; }
  None
}
fn gen21(g: &mut G, k: usize) -> Value {
  let kind = [18, 19, 20][k % 3];
  let mut v = gen(g, kind);
  if g.r.chance(1, 2) {
    // keep a few rules only, sometimes so small that references are left undefined
    let c = v["file"]["c"].as_array_mut().unwrap(); let keep = g.r.range(1, c.len()); if g.r.chance(1, 4) { c.truncate(keep); }
  }
  let muts = [0, 1, 1, 1, 2][g.r.below(5)];
  for _ in 0..muts {
    let n = count(&v["file"]); let mut i = g.r.range(0, n - 1);
    let extra = Gen { kind: 20 }.sq(g, 1, 2);
    let (op, nm, val, x) = (g.r.below(9), pick(g, NAMES), if g.r.chance(1, 4) && !g.lits.strs.is_empty() { let j = g.r.below(g.lits.strs.len()); g.lits.strs[j].clone() } else { pick(g, VALS) }, g.r.next() as usize);
    let val: String = val.chars().filter(|c| !c.is_control()).collect();
    let Some(e) = nth(&mut v["file"], &mut i) else { continue };
    let (la, lc) = (arr(e, "a").len(), arr(e, "c").len());
    match op {
      0 => e["E"] = json!(nm),
      1 => if la > 0 { e["a"].as_array_mut().unwrap().remove(x % la); },
      2 | 8 => if la > 0 { e["a"][x % la][1] = json!(val); },
      3 => if lc > 0 { e["c"].as_array_mut().unwrap().remove(x % lc); },
      4 => if lc > 0 { let c = e["c"][x % lc].clone(); e["c"].as_array_mut().unwrap().push(c); },
      5 => { e["c"].as_array_mut().unwrap().push(json!(["x", "!", " ", "two words"][x % 4])); },
      6 => { e["c"].as_array_mut().unwrap().push(extra); },
      7 => { let at = if lc > 0 { x % lc } else { 0 }; e["c"].as_array_mut().unwrap().insert(at, json!({"E": nm, "a": [["name", val], ["ref", val]], "c": []})); },
      _ => {},
    }
  }
  v
}
pub fn props() -> Vec<Prop> {
  let fs: &[&str] = &["patterns/rules.rs", "patterns/matching.rs"];
  let ru = "pattern files of 15 rules (depth up to 4, every operator and option) matched on sentences of up to 6 tagged words with formulas and a phrase tree; compared with an own interpreter; non-trivial: the rule matches somewhere with a marker and not everywhere";
  vec![
    Prop { id: "C18", rule: ru, files: fs, gen: gen18, check, secs: 8.0 }, Prop { id: "C19", rule: ru, files: fs, gen: gen19, check, secs: 8.0 }, Prop { id: "C20", rule: ru, files: fs, gen: gen20, check, secs: 8.0 },
    Prop { id: "C21", rule: "pattern files, unchanged or with up to two changes (element, attribute, child, text), compared with an own reader; accepted files also matched; non-trivial: refused, or accepted with matches", files: fs, gen: gen21, check: c21, secs: 8.0 },
  ]
}
