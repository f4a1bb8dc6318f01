//! What the current source says that the baseline does not: the literals of new or changed lines.
//! They steer part of the generated cases; on the unchanged tree there are none.
use crate::core::{Lits, G};
use serde_json::Value;
use std::collections::{HashMap, HashSet};

fn files(dir: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
  let Ok(d) = std::fs::read_dir(dir) else { return };
  let mut v: Vec<_> = d.flatten().map(|e| e.path()).collect(); v.sort();
  for p in v { if p.is_dir() { files(&p, out) } else if p.extension().map_or(false, |e| e == "rs") { out.push(p) } }
}
fn code(t: &str) -> Vec<String> { t.lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty() && !l.starts_with("//")).collect() }
/// literals of the lines that the baseline does not have
pub fn mine() -> Lits {
  let base = std::path::Path::new(env!("CARGO_MANIFEST_DIR")).join("../baseline/src");
  let root = std::path::Path::new("/repo/src");
  let mut fs = vec![]; files(root, &mut fs);
  let mut l = Lits::default();
  if !base.exists() { return l }
  let mut text = String::new();
  for f in fs {
    let Ok(t) = std::fs::read_to_string(&f) else { continue };
    let b = std::fs::read_to_string(base.join(f.strip_prefix(root).unwrap())).unwrap_or_default();
    let mut have: HashMap<String, usize> = HashMap::new();
    for x in code(&b) { *have.entry(x).or_insert(0) += 1; }
    for x in code(&t) { match have.get_mut(&x) { Some(n) if *n > 0 => *n -= 1, _ => { text.push_str(&x); text.push('\n'); } } }
  }
  if text.len() > 20_000 { text.truncate((0..=20_000).rev().find(|i| text.is_char_boundary(*i)).unwrap()) }
  l.read(&text, &mut HashSet::new(), &mut HashSet::new(), &mut HashSet::new());
  let hex = regex::Regex::new(r"\b0x([0-9a-fA-F_]{1,6})|\b(\d{1,3}(?:_\d{3})+)\b|1\s*<<\s*(\d+)").unwrap();
  for c in hex.captures_iter(&text) {
    let n = c.get(1).and_then(|m| u64::from_str_radix(&m.as_str().replace('_', ""), 16).ok()).or_else(|| c.get(2).and_then(|m| m.as_str().replace('_', "").parse().ok())).or_else(|| c.get(3).and_then(|m| m.as_str().parse::<u32>().ok()).filter(|s| *s < 20).map(|s| 1 << s));
    if let Some(n) = n { l.ints.push(n); }
  }
  if text.contains("u8") || text.contains("i8") { l.ints.extend([128, 256]); }
  l.ints.sort(); l.ints.dedup();
  // sizes that can be reached, but that the generators do not reach by themselves
  l.ints.retain(|n| *n <= 4200);
  for c in ["\u{300}", "é"] { if text.contains("ascii") { l.chars.push(c.chars().next().unwrap()); } }
  l.strs.retain(|s| !s.is_empty() && !s.contains('\0'));
  l.chars.retain(|c| *c != '\0');
  l
}
/// what may be changed in the cases of a property
#[derive(Clone, Copy, PartialEq)] pub enum Mode { All, Text, Off }
pub fn mode(id: &str) -> Mode {
  match id {
    // a case is a pattern file with references between its parts, valid as a whole
    "C18" | "C19" | "C20" | "C21" => Mode::Off,
    // identifiers are unique
    "C23" => Mode::Text,
    _ => Mode::All,
  }
}
pub fn any(l: &Lits) -> bool { !l.strs.is_empty() || !l.chars.is_empty() || !l.ints.is_empty() }

fn size(g: &mut G, cap: usize) -> usize {
  if g.news.ints.is_empty() { return g.r.range(1, 3) }
  let i = g.r.below(g.news.ints.len());
  ((g.news.ints[i] as usize + g.r.below(4)).saturating_sub(1)).min(cap)
}
fn word(g: &mut G) -> String {
  let (s, c) = (g.news.strs.len(), g.news.chars.len());
  if s + c == 0 { return g.piece() }
  let i = g.r.below(s + c);
  let w = if i < s { g.news.strs[i].clone() } else { g.news.chars[i - s].to_string() };
  // part of a class list or of an expression, a stretched or an upper-case variant
  match g.r.below(10) {
    0 => w.to_uppercase(), 1 => w.to_lowercase(), 2 => w.split(|c: char| !c.is_alphanumeric() && c != '_' && c != '-').filter(|x| !x.is_empty()).last().unwrap_or("q").to_string(),
    3 => format!("{w}{}", g.piece()), 4 => format!("{}{w}", g.piece()), _ => w,
  }
}
fn escape(s: &str) -> String { s.chars().filter(|c| !c.is_control() || c.is_whitespace()).collect::<String>().replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;") }
fn stretch(g: &mut G, cap: usize) -> String {
  let n = size(g, cap);
  match g.r.below(4) { 0 => g.ws().to_string().repeat(n), 1 => { let w = word(g); let k = w.chars().count().max(1); w.repeat((n / k).max(1)) }, 2 => (0..n).map(|i| if i % 7 == 6 { ' ' } else { 'a' }).collect(), _ => { let c = *g.r.pick(&['a', 'é', 'Z', '1', '中', '.']); std::iter::repeat(c).take(n).collect() } }
}
/// an element `<n ..>..</n>` without an element of its own name inside: (start of the tag, end of the tag, start of the closing tag, end)
fn element(g: &mut G, s: &str) -> Option<(String, usize, usize, usize, usize)> {
  let re = regex::Regex::new(r"<([A-Za-z][\w:-]*)([^<>]*[^<>/]|)>").unwrap();
  let all: Vec<_> = re.captures_iter(s).map(|c| (c[1].to_string(), c.get(0).unwrap().start(), c.get(0).unwrap().end())).collect();
  if all.is_empty() { return None }
  for _ in 0..4 {
    let (n, a, b) = g.r.pick(&all).clone();
    let close = format!("</{n}>");
    if let Some(c) = s[b..].find(&close).map(|i| i + b) { if !all.iter().any(|x| x.0 == n && x.1 >= b && x.1 < c) { return Some((n, a, b, c, c + close.len())) } }
  }
  None
}
fn xml(g: &mut G, s: &mut String, mode: Mode) {
  if !s.contains('>') { return }
  match if mode == Mode::Text { 0 } else { g.r.below(7) } {
    0 | 1 => { // text
      let at: Vec<usize> = s.match_indices('>').map(|x| x.0 + 1).collect();
      let i = *g.r.pick(&at);
      let t = if g.r.chance(1, 2) || g.news.ints.is_empty() { word(g) } else { stretch(g, 2000) };
      let t = if g.r.chance(1, 2) { format!(" {t} ") } else { t };
      s.insert_str(i, &escape(&t));
    },
    2 => { // class
      if let Some((n, a, b, _, _)) = element(g, s) {
        let w = escape(&word(g)); let tag = s[a..b].to_string();
        let re = regex::Regex::new("class=\"([^\"]*)\"").unwrap();
        let new = match re.captures(&tag) { Some(c) => { let old = c[1].to_string(); let to = match g.r.below(3) { 0 => w, 1 => format!("{old} {w}"), _ => format!("{w} {old}") }; tag.replacen(&c[0], &format!("class=\"{to}\""), 1) }, None => tag.replacen(&format!("<{n}"), &format!("<{n} class=\"{w}\""), 1) };
        s.replace_range(a..b, &new);
      }
    },
    3 => { // attribute
      if let Some((n, a, b, _, _)) = element(g, s) {
        let w: String = word(g).chars().filter(|c| c.is_ascii_alphanumeric() || *c == '-').collect();
        if w.starts_with(|c: char| c.is_ascii_alphabetic()) { let x = if g.r.chance(1, 2) { escape(&word(g)) } else { "v".into() }; let tag = s[a..b].replacen(&format!("<{n}"), &format!("<{n} {w}=\"{x}\""), 1); s.replace_range(a..b, &tag); }
      }
    },
    4 => { // name
      if let Some((n, a, _, c, d)) = element(g, s) {
        let w = word(g);
        if w.starts_with(|c: char| c.is_ascii_alphabetic()) && w.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') { s.replace_range(c..d, &format!("</{w}>")); s.replace_range(a + 1..a + 1 + n.len(), &w); }
      }
    },
    5 => { // many of them
      if let Some((n, a, _, _, d)) = element(g, s) { if n != "html" && n != "body" { let e = s[a..d].to_string(); let k = size(g, (40_000 / e.len().max(1)).min(600)).max(1); s.insert_str(a, &e.repeat(k)); } }
    },
    _ => { // deep inside
      if let Some((_, _, b, c, _)) = element(g, s) { let k = size(g, 120).max(1); let t = *g.r.pick(&["span", "em", "div"]); s.insert_str(c, &format!("</{t}>").repeat(k)); s.insert_str(b, &format!("<{t}>").repeat(k)); }
    },
  }
}
fn leaves(v: &Value, at: &mut Vec<String>, out: &mut Vec<String>) {
  out.push(at.concat());
  match v {
    Value::Array(a) => for (i, x) in a.iter().enumerate() { at.push(format!("/{i}")); leaves(x, at, out); at.pop(); },
    Value::Object(o) => for (k, x) in o { at.push(format!("/{}", k.replace('~', "~0").replace('/', "~1"))); leaves(x, at, out); at.pop(); },
    _ => {},
  }
}
/// one change to a case
pub fn amplify(g: &mut G, v: &mut Value, mode: Mode) {
  let old = v.clone();
  let mut ps = vec![]; leaves(v, &mut vec![], &mut ps);
  let p = g.r.pick(&ps).clone();
  let Some(x) = v.pointer_mut(&p) else { return };
  match x {
    Value::String(s) => {
      if s.contains('<') && s.contains("</") { xml(g, s, mode) }
      else {
        let n = s.chars().count(); let at = g.r.range(0, n); let i = s.char_indices().nth(at).map_or(s.len(), |x| x.0);
        match g.r.below(6) {
          0 | 1 | 2 => { let w = word(g); s.insert_str(i, &w) },
          3 => { let w = word(g); s.insert_str(i, &format!(" {w} ")) },
          4 => { let w = stretch(g, 2000); s.insert_str(i, &w) },
          _ => *s = word(g),
        }
        s.retain(|c| c != '\0');
      }
    },
    Value::Array(a) => if !a.is_empty() && mode == Mode::All {
      let e = a[g.r.below(a.len())].clone(); let n = size(g, 600); let at = g.r.range(0, a.len());
      if e.is_string() && g.r.chance(1, 2) { let w = word(g); a.insert(at, Value::String(w)) }
      else { while a.len() < n { a.insert(at, e.clone()); } }
    },
    Value::Number(k) => if k.is_u64() && mode == Mode::All { *x = Value::from(size(g, 2000)) },
    _ => {},
  }
  if v.to_string().len() > 60_000 { *v = old }
}
