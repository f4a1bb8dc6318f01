//! Executes the contracts that the proofs assume about the standard library, regex,
//! circular-queue and libxml (units/*.inc), on enumerated or generated arguments.
//! The right hand sides are written after the specifications, not after the libraries.
use crate::core::*;
use crate::o::dnm::gen_xml;
use libxml::parser::Parser;
use libxml::readonly::RoNode;
use libxml::tree::NodeType;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};

pub struct T { group: &'static str, pub out: BTreeMap<&'static str, (u64, u64, Vec<String>)> }
impl T {
  fn g(&mut self, g: &'static str) { self.group = g; }
  fn ok(&mut self, b: bool, what: impl Fn() -> String) {
    let e = self.out.entry(self.group).or_default();
    e.0 += 1;
    if !b { e.1 += 1; if e.2.len() < 5 { e.2.push(what()); } }
  }
}
fn a_upper(c: char) -> bool { 'A' <= c && c <= 'Z' }
fn a_lower(c: char) -> bool { 'a' <= c && c <= 'z' }
fn a_digit(c: char) -> bool { '0' <= c && c <= '9' }
fn a_ws(c: char) -> bool { c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\x0C' }
fn a_low(c: char) -> char { if a_upper(c) { char::from_u32(c as u32 + 32).unwrap() } else { c } }
fn a_up(c: char) -> char { if a_lower(c) { char::from_u32(c as u32 - 32).unwrap() } else { c } }
fn u8len(c: char) -> usize { if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 } }

fn chars(t: &mut T) {
  t.g("character classes (every character)");
  let word = regex::Regex::new(r"^\w$").unwrap();
  let _ = word;
  for c in '\0'..=char::MAX {
    let (al, an, nu, ws) = (c.is_alphabetic(), c.is_alphanumeric(), c.is_numeric(), c.is_whitespace());
    t.ok(!al || an, || format!("alphabetic not alphanumeric {c:?}"));
    t.ok(!nu || an, || format!("numeric not alphanumeric {c:?}"));
    t.ok(!(an && ws), || format!("alphanumeric whitespace {c:?}"));
    t.ok(c.is_ascii() == ((c as u32) < 128), || format!("is_ascii {c:?}"));
    t.ok(c.is_ascii_whitespace() == a_ws(c) && (!a_ws(c) || ws), || format!("ascii_whitespace {c:?}"));
    t.ok(c.is_ascii_digit() == a_digit(c) && (!a_digit(c) || an && nu), || format!("ascii_digit {c:?}"));
    t.ok(c.is_ascii_uppercase() == a_upper(c) && (!a_upper(c) || an && c.is_uppercase()), || format!("ascii_uppercase {c:?}"));
    t.ok(c.is_ascii_lowercase() == a_lower(c) && (!a_lower(c) || an), || format!("ascii_lowercase {c:?}"));
    t.ok(c.is_ascii_alphabetic() == (a_upper(c) || a_lower(c)) && (!c.is_ascii_alphabetic() || an && al), || format!("ascii_alphabetic {c:?}"));
    t.ok(c.is_ascii_alphanumeric() == (a_upper(c) || a_lower(c) || a_digit(c)), || format!("ascii_alphanumeric {c:?}"));
    t.ok(!c.is_ascii_punctuation() || !an && !ws && (c as u32) < 128, || format!("ascii_punctuation {c:?}"));
    t.ok(c.to_ascii_lowercase() == a_low(c) && c.to_ascii_uppercase() == a_up(c), || format!("ascii case {c:?}"));
    t.ok((c as u32) >= 0x80 || ws == (c == ' ' || c == '\t' || c == '\n' || c == '\r' || c as u32 == 0x0b || c as u32 == 0x0c), || format!("ASCII whitespace {c:?}"));
    t.ok(c.len_utf8() == u8len(c), || format!("len_utf8 {c:?}"));
    t.ok(c.to_string().to_lowercase().chars().count() == c.to_lowercase().count(), || format!("to_lowercase {c:?}"));
  }
  t.ok(!'.'.is_alphabetic() && !'.'.is_whitespace(), || "dot".into());
  for a in 0..128u8 { for b in 0..128u8 { let (a, b) = (a as char, b as char); t.ok(a.eq_ignore_ascii_case(&b) == (a_low(a) == a_low(b)), || format!("eq_ignore_ascii_case {a:?} {b:?}")); } }
}

const ALPHA: &[char] = &['a', 'B', '0', '.', ' ', '\n', '\u{a0}', 'é', 'İ', 'Σ', '€', '😀'];
fn strings(n: usize) -> Vec<Vec<char>> {
  let mut all = vec![vec![]]; let mut last = vec![vec![]];
  for _ in 0..n {
    let mut next = Vec::new();
    for s in &last { for c in ALPHA { let mut x: Vec<char> = s.clone(); x.push(*c); next.push(x); } }
    all.extend(next.clone()); last = next;
  }
  all
}
fn st(s: &[char]) -> String { s.iter().collect() }
fn white_words(s: &[char]) -> Vec<String> {
  if s.is_empty() { return vec![]; }
  if s[s.len() - 1].is_whitespace() { return white_words(&s[..s.len() - 1]); }
  let mut k = s.len(); while k > 0 && !s[k - 1].is_whitespace() { k -= 1; }
  let mut v = white_words(&s[..k]); v.push(st(&s[k..])); v
}
fn strs(t: &mut T) {
  t.g("str methods (every string up to 4 characters over 12)");
  for s in strings(4) {
    let x = st(&s);
    t.ok(x.len() == s.iter().map(|c| u8len(*c)).sum::<usize>(), || format!("len {x:?}"));
    t.ok(x.chars().collect::<Vec<_>>() == s && x.is_empty() == s.is_empty(), || format!("chars {x:?}"));
    let mut te = s.clone(); while te.last().map_or(false, |c| c.is_whitespace()) { te.pop(); }
    let ts: Vec<char> = s.iter().copied().skip_while(|c| c.is_whitespace()).collect();
    let tt: Vec<char> = te.iter().copied().skip_while(|c| c.is_whitespace()).collect();
    t.ok(x.trim_end() == st(&te) && x.trim_start() == st(&ts) && x.trim() == st(&tt), || format!("trim {x:?}"));
    t.ok(x.split_whitespace().map(|w| w.to_string()).collect::<Vec<_>>() == white_words(&s), || format!("split_whitespace {x:?}"));
    t.ok(x.to_lowercase().chars().count() == s.iter().map(|c| c.to_lowercase().count()).sum::<usize>(), || format!("to_lowercase {x:?}"));
    t.ok(x.eq_ignore_ascii_case(&x.to_ascii_uppercase()), || format!("eq_ignore_ascii_case {x:?}"));
    let mut b = 0; let mut at = vec![0]; for c in &s { b += u8len(*c); at.push(b); }
    for i in 0..at.len() { for j in i..at.len() { t.ok(x[at[i]..at[j]] == st(&s[i..j]), || format!("slice {x:?} {i} {j}")); } }
    for i in 0..=b { t.ok(x.is_char_boundary(i) == at.contains(&i), || format!("boundary {x:?} {i}")); }
  }
  t.g("str patterns (every string up to 3 characters over 12; character, string and closure patterns)");
  let pats: Vec<Vec<char>> = strings(2);
  for s in strings(3) {
    let x = st(&s);
    let f = |c: char| c.is_whitespace() || c == '.';
    let e = s.iter().rposition(|c| !f(*c)).map_or(0, |i| i + 1); let b = s.iter().position(|c| !f(*c)).unwrap_or(s.len());
    t.ok(x.trim_end_matches(f) == st(&s[..e]) && x.trim_start_matches(f) == st(&s[b..]), || format!("trim_matches {x:?}"));
    t.ok(x.starts_with(f) == (s.first().map_or(false, |c| f(*c))) && x.ends_with(f) == (s.last().map_or(false, |c| f(*c))), || format!("starts/ends closure {x:?}"));
    for p in &pats {
      let q = st(p);
      let pre = s.len() >= p.len() && s[..p.len()] == p[..]; let suf = s.len() >= p.len() && s[s.len() - p.len()..] == p[..];
      t.ok(x.starts_with(&q) == pre && x.ends_with(&q) == suf, || format!("starts/ends {x:?} {q:?}"));
      t.ok(x.strip_prefix(&q[..]) == if pre { Some(&x[q.len()..]) } else { None } && x.strip_suffix(&q[..]) == if suf { Some(&x[..x.len() - q.len()]) } else { None }, || format!("strip {x:?} {q:?}"));
      t.ok(x.contains(&q) == (0..=s.len()).any(|i| s.len() - i >= p.len() && s[i..i + p.len()] == p[..]), || format!("contains {x:?} {q:?}"));
      let first = (0..=s.len()).find(|i| s.len() - i >= p.len() && s[*i..i + p.len()] == p[..]).map(|i| s[..i].iter().map(|c| u8len(*c)).sum::<usize>());
      t.ok(x.find(&q[..]) == first, || format!("find {x:?} {q:?}"));
      if p.len() == 1 {
        let c = p[0];
        t.ok(x.find(c) == first, || format!("find {x:?} {c:?}"));
        t.ok(x.starts_with(c) == pre && x.ends_with(c) == suf, || format!("starts/ends char {x:?} {c:?}"));
      }
      if !p.is_empty() {
        let v: Vec<&str> = x.split(&q[..]).collect();
        t.ok(!v.is_empty() && v.join(&q) == x && v.iter().all(|w| !w.contains(&q)), || format!("split {x:?} {q:?}"));
        t.ok(x.splitn(2, &q[..]).count() <= 2 && x.splitn(1, &q[..]).collect::<Vec<_>>() == vec![&x[..]] && x.rsplitn(1, &q[..]).collect::<Vec<_>>() == vec![&x[..]] && x.splitn(0, &q[..]).count() == 0, || format!("splitn {x:?} {q:?}"));
      }
    }
  }
  t.g("str order and equality are those of the contents");
  let v: Vec<String> = strings(2).iter().map(|s| st(s)).collect();
  for a in &v { for b in &v { t.ok((a == b) == a.chars().eq(b.chars()) && (a <= b) == a.chars().le(b.chars()), || format!("{a:?} {b:?}")); } }
}

fn lists(t: &mut T) {
  t.g("list adaptors (every list up to 5 elements over 3)");
  let mut all: Vec<Vec<usize>> = vec![vec![]]; let mut last = all.clone();
  for _ in 0..5 { let mut n = Vec::new(); for v in &last { for k in 0..3usize { let mut w = v.clone(); w.push(k); n.push(w); } } all.extend(n.clone()); last = n; }
  for v in &all {
    let n = v.len();
    let mut sel = Vec::new(); for x in v { if *x != 1 { sel.push(*x); } }
    t.ok(v.iter().copied().filter(|x| *x != 1).collect::<Vec<_>>() == sel, || format!("filter {v:?}"));
    let mut r = v.clone(); r.retain(|x| *x != 1); t.ok(r == sel, || format!("retain {v:?}"));
    let e: Vec<(usize, usize)> = (0..n).map(|i| (i, v[i])).collect(); t.ok(v.iter().copied().enumerate().collect::<Vec<_>>() == e, || format!("enumerate {v:?}"));
    let rv: Vec<usize> = (0..n).map(|i| v[n - 1 - i]).collect(); t.ok(v.iter().copied().rev().collect::<Vec<_>>() == rv, || format!("rev {v:?}"));
    let mut fl = Vec::new(); for x in v { for _ in 0..*x { fl.push(*x); } } t.ok(v.iter().flat_map(|x| vec![*x; *x]).collect::<Vec<_>>() == fl, || format!("flat_map {v:?}"));
    t.ok(v.iter().any(|x| *x == 1) == v.contains(&1) && v.iter().all(|x| *x == 1) == (0..n).all(|i| v[i] == 1), || format!("any/all {v:?}"));
    t.ok(v.iter().last() == if n == 0 { None } else { Some(&v[n - 1]) }, || format!("last {v:?}"));
    for k in 0..7 {
      t.ok(v.iter().copied().take(k).collect::<Vec<_>>() == v[..k.min(n)] && v.iter().copied().skip(k).collect::<Vec<_>>() == v[k.min(n)..] && v.iter().nth(k) == if k < n { Some(&v[k]) } else { None }, || format!("take/skip/nth {v:?} {k}"));
      let z: Vec<(usize, usize)> = (0..n.min(k)).map(|i| (v[i], i)).collect(); t.ok(v.iter().copied().zip(0..k).collect::<Vec<_>>() == z, || format!("zip {v:?}"));
      let mut c = v.clone(); c.extend(0..k); t.ok(v.iter().copied().chain(0..k).collect::<Vec<_>>() == c, || format!("chain {v:?}"));
    }
    let p = (0..n).find(|i| v[*i] == 1); let l = p.unwrap_or(n);
    t.ok(v.iter().position(|x| *x == 1) == p && v.iter().copied().take_while(|x| *x != 1).collect::<Vec<_>>() == v[..l] && v.iter().copied().skip_while(|x| *x != 1).collect::<Vec<_>>() == v[l..], || format!("position {v:?}"));
    // a permutation in the order of the comparison
    let mut s: Vec<(usize, usize)> = e.clone(); s.sort_by(|a, b| b.1.cmp(&a.1));
    let mut seen = vec![false; n]; for (i, x) in &s { t.ok(v[*i] == *x && !seen[*i], || format!("sort_by permutes {v:?}")); seen[*i] = true; }
    t.ok(s.len() == n && s.windows(2).all(|w| w[0].1 >= w[1].1), || format!("sort_by orders {v:?}"));
    let w: Vec<String> = v.iter().map(|x| ["a", "B", "é"][*x].to_string()).collect(); let mut u: Vec<&str> = w.iter().map(|x| &x[..]).collect(); u.sort_unstable();
    t.ok(u.windows(2).all(|p| p[0] <= p[1]) && ["a", "B", "é"].iter().all(|k| u.iter().filter(|x| *x == k).count() == w.iter().filter(|x| x == k).count()), || format!("sort_unstable {v:?}"));
    let mut j = String::new(); for (i, x) in w.iter().enumerate() { if i > 0 { j.push_str(", "); } j.push_str(x); } t.ok(w.join(", ") == j, || format!("join {v:?}"));
    for a in 0..n { for b in 0..n { let mut s = v.clone(); s.swap(a, b); let mut m = v.clone(); m[a] = v[b]; m[b] = v[a]; t.ok(s == m, || format!("swap {v:?}")); } }
  }
  t.g("circular queue (capacity 0 to 4, up to 9 pushes)");
  for cap in 0..5usize { for clear in 0..9usize {
    let mut q = circular_queue::CircularQueue::with_capacity(cap); let mut m: Vec<usize> = vec![];
    for k in 0..9usize {
      if k == clear { q.clear(); m.clear(); }
      q.push(k);
      if cap > 0 { if m.len() >= cap { m.remove(0); } m.push(k); }
      t.ok(q.len() == m.len() && q.len() <= cap && q.is_full() == (m.len() == cap) && q.is_empty() == m.is_empty() && q.capacity() == cap && q.asc_iter().copied().collect::<Vec<_>>() == m, || format!("cap {cap} k {k}"));
    }
  } }
  t.g("hash map (random operation sequences against a finite map)");
  let mut r = Rng::new(7);
  for _ in 0..300 {
    let mut h: HashMap<String, usize> = HashMap::new(); let mut m: BTreeMap<String, usize> = BTreeMap::new();
    for _ in 0..40 {
      let k = ["a", "b", "", "é", "aa"][r.below(5)].to_string(); let x = r.below(9);
      match r.below(5) {
        0 => { let a = h.insert(k.clone(), x); let b = m.get(&k).copied(); m.insert(k, x); t.ok(a == b, || "insert".into()) },
        1 => { let a = h.remove(&k); let b = m.get(&k).copied(); m.remove(&k); t.ok(a == b, || "remove".into()) },
        2 => { *h.entry(k.clone()).or_insert(x) += 1; let o = m.get(&k).copied().unwrap_or(x); m.insert(k, o + 1); },
        3 => { if let Some(y) = h.get_mut(&k) { *y += 2; } if m.contains_key(&k) { let o = m[&k]; m.insert(k, o + 2); } },
        _ => t.ok(h.get(&k) == m.get(&k) && h.contains_key(&k) == m.contains_key(&k), || "get".into()),
      }
      let mut l: Vec<(String, usize)> = h.iter().map(|(k, v)| (k.clone(), *v)).collect(); l.sort();
      let mut ks: Vec<String> = h.keys().cloned().collect(); ks.sort();
      t.ok(h.len() == m.len() && h.is_empty() == m.is_empty() && l == m.clone().into_iter().collect::<Vec<_>>() && ks == m.keys().cloned().collect::<Vec<_>>(), || format!("{h:?} {m:?}"));
    }
  }
  t.g("integer and option functions");
  let dec = |i: i32| { let s = i.to_string(); t.ok(s.parse::<i32>() == Ok(i) && (i < 0 || !s.is_empty() && s.chars().all(a_digit)) && format!("{i}") == s, || format!("dec {i}")); };
  let mut dec = dec; for i in -1200..70000 { dec(i); } for i in 0..31 { for d in -2..3i32 { dec((1i32 << i).wrapping_add(d)); dec(i32::MAX - i - (d + 2)); } } dec(i32::MIN);
  for a in [i32::MIN, -2, -1, 0, 1, 2, i32::MAX] { for b in [i32::MIN, -2, -1, 0, 1, 2, i32::MAX] {
    let (s, d) = (a as i64 + b as i64, a as i64 - b as i64); let c = |x: i64| x.max(i32::MIN as i64).min(i32::MAX as i64);
    t.ok(a.saturating_add(b) as i64 == c(s) && a.saturating_sub(b) as i64 == c(d), || format!("{a} {b}"));
  } }
  for o in [None, Some(1), Some(2)] { for p in [None, Some(3)] {
    t.ok(o.or(p) == if o.is_some() { o } else { p } && o.or_else(|| p) == o.or(p) && o.and(p) == if o.is_some() { p } else { None } && o.filter(|x| *x == 1) == if o == Some(1) { o } else { None }
      && o.map_or(0, |x| x + 1) == match o { Some(x) => x + 1, None => 0 } && o.is_some_and(|x| x == 1) == (o == Some(1)) && o.is_none_or(|x| x == 1) == (o != Some(2)), || format!("{o:?} {p:?}"));
  } }
}

fn regexes(t: &mut T) {
  t.g("the environment marker pattern");
  let re = regex::Regex::new(r"ltx_theorem_(\w+)").unwrap();
  let mut r = Rng::new(3);
  let m: Vec<char> = "ltx_theorem_".chars().collect();
  let is_w = |c: char| regex::Regex::new(r"^\w$").unwrap().is_match(&c.to_string());
  let alpha: Vec<(char, bool)> = ['a', ' ', '-', '_', 'é', '5', '.'].iter().map(|c| (*c, is_w(*c))).collect();
  for _ in 0..20000 {
    let mut s = String::new();
    for _ in 0..r.below(5) { match r.below(4) { 0 => s.push_str("ltx_theorem_"), 1 => s.push_str("ltx_"), _ => for _ in 0..r.below(4) { s.push(alpha[r.below(alpha.len())].0) } } }
    let c: Vec<char> = s.chars().collect();
    let w = |c: char| c.is_ascii_alphanumeric() || alpha.iter().any(|(d, b)| *d == c && *b);
    let mut exp = None;
    for i in 0..=c.len() { if c[i..].starts_with(&m) { let run: String = c[i + m.len()..].iter().copied().take_while(|c| w(*c)).collect(); if !run.is_empty() { exp = Some(run); break; } } }
    let got = re.captures(&s);
    t.ok(got.as_ref().map(|g| g.get(1).unwrap().as_str().to_string()) == exp && got.is_some() == re.is_match(&s), || format!("{s:?}"));
  }
}

fn walk(n: RoNode, out: &mut Vec<RoNode>) { out.push(n); for k in n.get_child_nodes() { walk(k, out); } }
fn trees(t: &mut T) {
  t.g("libxml tree accessors (generated documents)");
  let mut g = G { r: Rng::new(11), lits: Lits::default(), news: Lits::default(), thorough: false };
  for k in 0..400 {
    let xml = gen_xml(&mut g, 3, |g| ["x", " ", "&<", "é\u{a0}", "a b"][g.r.below(5)].to_string());
    let xml = if k % 3 == 0 { format!("<?xml version=\"1.0\"?><!DOCTYPE r><!-- top --><r id=\"q\" empty=\"\"><![CDATA[c d]]>{xml}<?pi x?><e/></r><!-- after -->") } else { xml };
    let Ok(doc) = Parser::default().parse_string(&xml) else { continue };
    let Some(root) = doc.get_root_readonly() else { t.ok(false, || "no root".into()); continue };
    let mut v = Vec::new(); walk(root, &mut v);
    for (i, a) in v.iter().enumerate() { for (j, b) in v.iter().enumerate() { t.ok((a.to_hashable() == b.to_hashable()) == (i == j) && (a == b) == (i == j), || "hash".into()); } }
    for n in &v {
      let kids = n.get_child_nodes();
      let els: Vec<RoNode> = kids.iter().copied().filter(|k| k.is_element_node()).collect();
      t.ok(n.get_first_child() == kids.first().copied() && n.get_last_child() == kids.last().copied() && n.get_child_elements() == els && n.get_first_element_child() == els.first().copied() && n.get_last_element_child() == els.last().copied(), || format!("children of {}", n.get_name()));
      t.ok(!n.is_text_node() || kids.is_empty(), || "text with children".into());
      if n.is_text_node() { for a in ["class", "id", "empty", "none", "content", "name"] { t.ok(n.get_property(a).is_none(), || "property of a text node".into()); } }
      t.ok(n.get_type().is_some() && n.is_text_node() == (n.get_type() == Some(NodeType::TextNode)) && n.is_element_node() == (n.get_type() == Some(NodeType::ElementNode)), || "type".into());
      for (i, k) in kids.iter().enumerate() {
        t.ok(k.get_parent() == Some(*n) && k.get_next_sibling() == kids.get(i + 1).copied() && k.get_prev_sibling() == if i > 0 { Some(kids[i - 1]) } else { None }, || "siblings".into());
        t.ok(k.get_next_element_sibling() == kids[i + 1..].iter().copied().find(|k| k.is_element_node()) && k.get_prev_element_sibling() == kids[..i].iter().copied().rev().find(|k| k.is_element_node()), || "element siblings".into());
      }
      if n.is_element_node() { for a in ["class", "id", "empty", "none"] {
        t.ok(n.get_attribute(a) == n.get_property(a) && n.has_property(a) == n.get_property(a).is_some() && n.has_attribute(a) == n.has_property(a), || format!("attribute {a} of {xml}"));
      } }
      t.ok(n.get_content() == n.get_content() && n.get_content().chars().count() < i32::MAX as usize - 1, || "content".into());
    }
    if k % 4 == 0 {
      let x = format!("<r>{}</r>", crate::o::docs::math(&mut g));
      if let Ok(d) = Parser::default().parse_string(&x) {
        let root = d.get_root_readonly().unwrap(); let mut v = Vec::new(); walk(root, &mut v);
        let ctx = libxml::xpath::Context::new(&d).unwrap();
        for n in &v {
          let mut below = Vec::new(); walk(*n, &mut below);
          let exp: Vec<RoNode> = below[1..].iter().copied().filter(|a| a.is_element_node() && a.get_name() == "annotation" && a.get_property("encoding").as_deref() == Some("application/x-llamapun")).collect();
          let got = ctx.node_evaluate_readonly(".//*[local-name()='annotation' and @encoding='application/x-llamapun']", *n).map(|o| o.get_readonly_nodes_as_vec());
          t.ok(got == Ok(exp), || format!("annotations in {x}"));
        }
      }
    }
  }
}

fn building(t: &mut T) {
  t.g("libxml documents under construction are read back as built");
  use libxml::tree::{Document, Node};
  #[derive(Clone, Debug)] enum Op { Child(usize), Attr(&'static str, &'static str), Text(&'static str) }
  enum Kid { Sub(usize), Txt(String) }
  fn same(n: RoNode, i: usize, ops: &[Vec<Op>]) -> bool {
    let mut kids: Vec<Kid> = vec![]; let mut attrs: BTreeMap<String, String> = BTreeMap::new();
    for o in &ops[i] { match o {
      Op::Child(c) => kids.push(Kid::Sub(*c)), Op::Attr(k, v) => { attrs.insert(k.to_string(), v.to_string()); },
      Op::Text(s) => if !s.is_empty() { if let Some(Kid::Txt(p)) = kids.last_mut() { p.push_str(s) } else { kids.push(Kid::Txt(s.to_string())) } },
    } }
    let got = n.get_child_nodes();
    n.is_element_node() && n.get_name() == format!("n{i}") && n.get_properties().into_iter().collect::<BTreeMap<_, _>>() == attrs && got.len() == kids.len()
      && got.iter().zip(&kids).all(|(g, k)| match k { Kid::Sub(c) => same(*g, *c, ops), Kid::Txt(s) => g.is_text_node() && g.get_content() == *s })
  }
  let mut r = Rng::new(17);
  for _ in 0..3000 {
    let mut doc = Document::new().unwrap();
    t.ok(doc.get_root_readonly().is_none(), || "a new document has a root".into());
    let n = r.range(1, 4);
    let mut nodes: Vec<Node> = (0..n).map(|i| Node::new(&format!("n{i}"), None, &doc).unwrap()).collect();
    doc.set_root_element(&nodes[0]);
    let mut ops: Vec<Vec<Op>> = vec![vec![]; n]; let mut parent: Vec<bool> = vec![false; n]; parent[0] = true;
    for _ in 0..r.range(0, 9) {
      let i = r.below(n);
      match r.below(3) {
        0 => if let Some(c) = (i + 1..n).find(|c| !parent[*c]) {
          let (a, b) = nodes.split_at_mut(c); let ok = a[i].add_child(&mut b[0]).is_ok(); t.ok(ok, || "add_child of an unlinked node".into());
          parent[c] = true; ops[i].push(Op::Child(c));
        },
        1 => { let k = *r.pick(&["class", "id", "x"]); let v = *r.pick(&["", "a", "a b", "é<&\"", "ltx_para"]); let ok = nodes[i].set_attribute(k, v).is_ok(); t.ok(ok, || "set_attribute".into()); ops[i].push(Op::Attr(k, v)); },
        _ => { let s = *r.pick(&["", "a", " ", "é\n", "<&amp;>", "\r\t\u{1}", "x\u{85}y"]); let ok = nodes[i].append_text(s).is_ok(); t.ok(ok, || "append_text".into()); ops[i].push(Op::Text(s)); },
      }
    }
    let root = doc.get_root_readonly();
    t.ok(root.map_or(false, |x| same(x, 0, &ops)), || format!("{ops:?}"));
    std::mem::forget(nodes);
  }
}
fn parts(t: &mut T) {
  t.g("String::get_mut, make_ascii_uppercase, split at a character");
  for s in strings(4) {
    let x = st(&s);
    let b: Vec<usize> = (0..=s.len()).map(|i| s[..i].iter().map(|c| u8len(*c)).sum()).collect();
    for lo in 0..=x.len() + 1 { for hi in 0..=x.len() + 1 {
      let mut y = x.clone();
      let i = b.iter().position(|p| *p == lo); let j = b.iter().position(|p| *p == hi);
      let some = match y.get_mut(lo..hi) { Some(r) => { let ok = lo <= hi && i.is_some() && j.is_some() && r.chars().eq(s[i.unwrap()..j.unwrap()].iter().copied()); t.ok(ok, || format!("get_mut({lo}..{hi}) of {x:?}")); r.make_ascii_uppercase(); true }, None => false };
      t.ok(some == (lo <= hi && i.is_some() && j.is_some()), || format!("get_mut({lo}..{hi}) of {x:?}"));
      let exp: String = if some { s.iter().enumerate().map(|(k, c)| if i.unwrap() <= k && k < j.unwrap() { a_up(*c) } else { *c }).collect() } else { x.clone() };
      t.ok(y == exp, || format!("upper case of {lo}..{hi} in {x:?}"));
    } }
    for c in ['\n', ' ', 'a'] { t.ok(x.split(c).eq(x.split(c.to_string().as_str())), || format!("{x:?} split at {c:?}")); }
  }
}
fn titles(t: &mut T) {
  use crate::o::title::{stripped, title, STEPS, TYPES};
  t.g("title patterns: a replacement keeps or shortens; heading types are left alone");
  let rs: Vec<(regex::Regex, &str)> = STEPS.iter().map(|(p, b)| (regex::Regex::new(p).unwrap(), *b)).collect();
  let mut g = G { r: Rng::new(11), lits: Lits { chars: vec!['N', 'U', 'M', 'x', 'i', 's', ' '], strs: vec![], ints: vec![] }, news: Lits::default(), thorough: false };
  let go = |t: &mut T, s: &str| for (r, b) in &rs { let o = r.replace_all(s, *b); t.ok(o == s || o.chars().count() < s.chars().count(), || format!("{r} on {s:?}")); };
  go(t, "");
  for _ in 0..4000 { let s = title(&mut g); go(t, &s); go(t, &s.to_lowercase()); let x = g.text(6); go(t, &x); }
  for s in TYPES.iter().copied().chain(["", "method"]) { go(t, s); t.ok(stripped(s) == if s == "methods" { "method" } else { s }, || format!("type {s:?} stripped to {:?}", stripped(s))); }
}
pub fn run() -> Value {
  let mut t = T { group: "", out: BTreeMap::new() };
  chars(&mut t); strs(&mut t); lists(&mut t); regexes(&mut t); trees(&mut t); building(&mut t); parts(&mut t); titles(&mut t);
  let f: u64 = t.out.values().map(|v| v.1).sum();
  json!({"status": if f == 0 { "pass" } else { "fail" }, "groups": t.out.iter().map(|(k, (n, f, w))| json!({"contracts": k, "instances": n, "failures": f, "examples": w})).collect::<Vec<_>>()})
}
