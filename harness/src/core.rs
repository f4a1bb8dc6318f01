//! Case generation, execution, shrinking and counting shared by all properties.
use serde_json::{json, Value};
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Rng(u64);
impl Rng {
  pub fn new(s: u64) -> Rng { Rng(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03) }
  pub fn next(&mut self) -> u64 {
    self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = self.0;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
  }
  pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
  pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }
  pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
  pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
}

/// string, character and integer literals of the current source
#[derive(Default)]
pub struct Lits { pub strs: Vec<String>, pub chars: Vec<char>, pub ints: Vec<u64> }
impl Lits {
  pub fn mine(files: &[&str]) -> Lits {
    let mut l = Lits::default();
    let mut ss = HashSet::new(); let mut cs = HashSet::new(); let mut is = HashSet::new();
    for f in files {
      let Ok(t) = std::fs::read_to_string(format!("/repo/src/{f}")) else { continue };
      let t: String = t.lines().filter(|l| !l.trim_start().starts_with("//")).collect::<Vec<_>>().join("\n");
      l.read(&t, &mut ss, &mut cs, &mut is);
    }
    l
  }
  pub fn read(&mut self, t: &str, ss: &mut HashSet<String>, cs: &mut HashSet<char>, is: &mut HashSet<u64>) {
    let l = self;
    let re = regex::Regex::new(r#""((?:[^"\\]|\\.)*)""#).unwrap();
    let rc = regex::Regex::new(r"'(\\?.|\\u\{[0-9a-fA-F]+\})'").unwrap();
    let ri = regex::Regex::new(r"\b(\d{1,6})(?:usize|i32|u32|u64|u16|u8)?\b").unwrap();
    {
      for c in re.captures_iter(t) {
        let s = unescape(&c[1]);
        if s.chars().count() <= 40 && ss.insert(s.clone()) { l.strs.push(s); }
      }
      for c in rc.captures_iter(t) { if let Some(ch) = unescape(&c[1]).chars().next() { if cs.insert(ch) { l.chars.push(ch); } } }
      for c in ri.captures_iter(t) { if let Ok(i) = c[1].parse::<u64>() { if is.insert(i) { l.ints.push(i); } } }
    }
  }
}
fn unescape(s: &str) -> String {
  let mut o = String::new(); let mut it = s.chars().peekable();
  while let Some(c) = it.next() {
    if c != '\\' { o.push(c); continue; }
    match it.next() {
      Some('n') => o.push('\n'), Some('t') => o.push('\t'), Some('r') => o.push('\r'), Some('0') => {},
      Some('u') => { let mut h = String::new(); for c in it.by_ref() { if c == '{' { continue; } if c == '}' { break; } h.push(c); }
        if let Some(c) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) { o.push(c); } },
      Some('\n') => { while it.peek().map_or(false, |c| c.is_whitespace()) { it.next(); } },
      Some(c) => o.push(c), None => {},
    }
  }
  o
}

pub struct G { pub r: Rng, pub lits: Lits, pub news: Lits, pub thorough: bool }

/// outcome of one case
pub enum Res { Pass(bool), Skip, Fail(String) }
pub type CheckFn = fn(&Value) -> Res;
/// `gen(g, k)` makes case number k (small enumerated cases first, then random ones)
pub type GenFn = fn(&mut G, usize) -> Value;

pub struct Prop { pub id: &'static str, pub rule: &'static str, pub files: &'static [&'static str], pub gen: GenFn, pub check: CheckFn, pub secs: f64 }

static CURRENT: Mutex<Option<(Instant, String, String)>> = Mutex::new(None);
static TRACE: Mutex<Option<String>> = Mutex::new(None);
static MSG: Mutex<String> = Mutex::new(String::new());

pub fn install(trace: Option<String>) {
  *TRACE.lock().unwrap() = trace;
  std::panic::set_hook(Box::new(|i| {
    let m = i.payload().downcast_ref::<String>().cloned().or(i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
    let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
    if let Ok(mut g) = MSG.lock() { *g = format!("panic at {at}: {m}"); }
  }));
}
/// watchdog: a case running for more than `limit` seconds is a non-termination finding
pub fn watchdog(limit: u64, out: String) {
  std::thread::spawn(move || loop {
    std::thread::sleep(Duration::from_millis(300));
    let c = CURRENT.lock().unwrap();
    if let Some((t, id, inp)) = c.as_ref() {
      if t.elapsed() > Duration::from_secs(limit) {
        let input: Value = serde_json::from_str(inp).unwrap_or(Value::Null);
        let v = json!({"property": id, "status": "fail", "input": input, "message": format!("no result within {limit} s (non-termination)")});
        let _ = std::fs::write(&out, v.to_string());
        std::process::exit(1);
      }
    }
  });
}

pub fn run_one(p: &Prop, v: &Value) -> Res {
  let s = v.to_string();
  if let Some(f) = TRACE.lock().unwrap().as_ref() { let _ = std::fs::write(f, json!({"property": p.id, "input": v}).to_string()); }
  *CURRENT.lock().unwrap() = Some((Instant::now(), p.id.to_string(), s));
  let r = catch_unwind(AssertUnwindSafe(|| (p.check)(v)));
  *CURRENT.lock().unwrap() = None;
  match r { Ok(r) => r, Err(_) => Res::Fail(MSG.lock().unwrap().clone()) }
}

/// greedy structural shrinking of a failing JSON input
pub fn shrink(p: &Prop, mut v: Value, mut msg: String, budget: Duration) -> (Value, String) {
  let t0 = Instant::now();
  let mut improved = true;
  while improved && t0.elapsed() < budget {
    improved = false;
    for c in candidates(&v) {
      if t0.elapsed() > budget { break; }
      if let Res::Fail(m) = run_one(p, &c) { v = c; msg = m; improved = true; break; }
    }
  }
  (v, msg)
}
fn candidates(v: &Value) -> Vec<Value> {
  let mut out = Vec::new();
  match v {
    Value::String(s) => {
      let cs: Vec<char> = s.chars().collect();
      let n = cs.len();
      let mut step = n / 2;
      while step >= 1 {
        let mut i = 0;
        while i + step <= n { let mut d = cs.clone(); d.drain(i..i + step); out.push(Value::String(d.into_iter().collect())); i += step; }
        step /= 2;
      }
      if n <= 12 { for i in 0..n { if cs[i] != 'a' && cs[i].is_ascii_lowercase() { let mut d = cs.clone(); d[i] = 'a'; out.push(Value::String(d.into_iter().collect())); } } }
    },
    Value::Array(a) => {
      for i in 0..a.len() { let mut d = a.clone(); d.remove(i); out.push(Value::Array(d)); }
      for i in 0..a.len() { for c in candidates(&a[i]) { let mut d = a.clone(); d[i] = c; out.push(Value::Array(d)); } }
    },
    Value::Object(o) => {
      for (k, x) in o { if !k.starts_with('!') { for c in candidates(x) { let mut d = o.clone(); d.insert(k.clone(), c); out.push(Value::Object(d)); } } }
      for (k, _) in o { if k.starts_with('?') || k.chars().next().map_or(false, |c| c.is_lowercase()) && o.len() > 1 { let mut d = o.clone(); d.remove(k); out.push(Value::Object(d)); } }
    },
    Value::Bool(true) => out.push(Value::Bool(false)),
    Value::Number(n) => { if let Some(x) = n.as_u64() { if x > 0 { out.push(json!(x / 2)); out.push(json!(x - 1)); } } },
    _ => {},
  }
  out
}

pub fn explore(p: &Prop, seed: u64, thorough: bool, secs: f64, known: &[(String, Value)], news: Option<Lits>) -> Value {
  let mut g = G { r: Rng::new(seed ^ p.id.bytes().fold(7u64, |a, b| a * 31 + b as u64)), lits: Lits::mine(p.files), news: news.unwrap_or_else(crate::news::mine), thorough };
  let mode = crate::news::mode(p.id);
  let steer = crate::news::any(&g.news) && mode != crate::news::Mode::Off;
  let t0 = Instant::now();
  let (mut evals, mut skipped, mut nontrivial) = (0u64, 0u64, 0u64);
  let mut seen: HashSet<u64> = HashSet::new();
  let mut samples: Vec<Value> = Vec::new();
  let mut known_hits: Vec<Value> = Vec::new();
  for (what, input) in known {
    if let Res::Fail(m) = run_one(p, input) { known_hits.push(json!({"what": what, "message": m})); }
  }
  let mut k = 0usize;
  while t0.elapsed().as_secs_f64() < secs && k < 3_000_000 {
    let mut v = (p.gen)(&mut g, k);
    k += 1;
    if v.is_null() { continue; }
    if steer && g.r.chance(1, 2) { for _ in 0..g.r.range(1, 3) { crate::news::amplify(&mut g, &mut v, mode); } }
    match run_one(p, &v) {
      Res::Skip => skipped += 1,
      Res::Pass(nt) => {
        evals += 1;
        if nt {
          use std::hash::{Hash, Hasher};
          let mut h = std::collections::hash_map::DefaultHasher::new(); v.to_string().hash(&mut h);
          if seen.insert(h.finish()) { nontrivial += 1; if samples.len() < 3 || (samples.len() < 6 && k % 997 == 0) { samples.push(v.clone()); } }
        }
      },
      Res::Fail(m) => {
        let (v, m) = shrink(p, v, m, Duration::from_secs(10));
        return json!({"property": p.id, "status": "fail", "input": v, "message": m, "evaluations": evals + 1, "distinct_nontrivial": nontrivial, "skipped": skipped, "samples": samples, "rule": p.rule, "known": known_hits});
      },
    }
  }
  json!({"property": p.id, "status": "pass", "evaluations": evals, "distinct_nontrivial": nontrivial, "skipped": skipped, "samples": samples, "rule": p.rule, "known": known_hits})
}

// ---------------------------------------------------------------- text generation
pub const WS: &[char] = &[' ', '\n', '\t', '\u{a0}', '\u{2003}', '\u{3000}', '\r', '\u{85}', '\u{2028}'];
pub const UNI: &[char] = &['é', 'ß', 'İ', 'Σ', 'ς', 'ﬁ', '中', '𝔄', '😀', '€', '½', 'ǅ', '\u{301}', 'д', '٣', '’', '‘', '…', '–', '“', 'ⅷ', '²'];
pub const ASCII_P: &[char] = &['.', ',', ':', ';', '?', '!', '\'', '"', '(', ')', '[', ']', '{', '}', '*', '-', '_', '/', '&', '<', '>', '$', '%', '\\', '='];
const WORDS: &[&str] = &["the", "The", "I", "a", "is", "Prof", "e.g", "i.e", "Fig", "cf", "mathformula", "Mathformula", "CitationElement", "REF", "NUM", "don't", "it's", "rock", "He", "Smith", "isn’t", "l'eau", "x", "12", "3.14", "-5e10", "7a", "Ünï", "été", "Straße", "don", "twas", "foobaR", "averyveryveryverylongwordindeed", "Supercalifragilistic", "citationelement", "eq"];

/// number of strings over an alphabet of size a with length <= n
pub fn enum_string(alpha: &[char], mut k: usize, max_len: usize) -> Option<String> {
  let mut len = 0; let mut block = 1usize;
  loop {
    if k < block { break; }
    k -= block; len += 1; block = block.saturating_mul(alpha.len());
    if len > max_len { return None; }
  }
  let mut s = Vec::new();
  for _ in 0..len { s.push(alpha[k % alpha.len()]); k /= alpha.len(); }
  Some(s.into_iter().rev().collect())
}
pub fn enum_count(a: usize, n: usize) -> usize { let mut t = 0; let mut b = 1; for _ in 0..=n { t += b; b *= a; } t }

impl G {
  pub fn ws(&mut self) -> char { *self.r.pick(WS) }
  pub fn piece(&mut self) -> String {
    match self.r.below(14) {
      0 | 1 | 2 => self.r.pick(WORDS).to_string(),
      3 | 4 => " ".into(),
      5 => { let n = self.r.range(1, 3); (0..n).map(|_| *self.r.pick(WS)).collect() },
      6 => self.r.pick(UNI).to_string(),
      7 | 8 => self.r.pick(ASCII_P).to_string(),
      9 if !self.lits.strs.is_empty() => { let i = self.r.below(self.lits.strs.len()); let s = self.lits.strs[i].clone();
        if self.r.chance(1, 4) { s.to_uppercase() } else { s } },
      10 if !self.lits.chars.is_empty() => { let i = self.r.below(self.lits.chars.len()); self.lits.chars[i].to_string() },
      11 => { let n = self.r.range(1, 9); (0..n).map(|_| if self.r.chance(1, 5) { *self.r.pick(UNI) } else { (b'a' + self.r.below(26) as u8) as char }).collect() },
      12 if !self.lits.ints.is_empty() => { let i = self.r.below(self.lits.ints.len()); let n = (self.lits.ints[i] as usize + self.r.below(3)).min(64); let c = *self.r.pick(&['a', 'é', 'Z', '1']); std::iter::repeat(c).take(n).collect() },
      _ => { let c = (b'A' + self.r.below(26) as u8) as char; format!("{c}{}", self.r.pick(WORDS)) },
    }
  }
  pub fn text(&mut self, max_pieces: usize) -> String {
    let n = self.r.range(0, max_pieces);
    let mut s = String::new();
    for _ in 0..n { let p = self.piece(); s.push_str(&p); if self.r.chance(1, 3) { s.push(' '); } }
    s.retain(|c| c != '\0');
    s
  }
  /// natural looking prose with sentence ends, abbreviations and formulas
  pub fn prose(&mut self, n: usize) -> String {
    let mut s = String::new();
    for _ in 0..n {
      let w = if self.r.chance(1, 6) { self.piece() } else { self.r.pick(WORDS).to_string() };
      s.push_str(&w);
      match self.r.below(9) {
        0 => s.push_str(". "), 1 => s.push_str(".\n"), 2 => s.push_str("? "), 3 => s.push_str("\n\n"), 4 => s.push_str(": "), 5 => s.push_str(" '. "),
        _ => s.push(' '),
      }
    }
    s.retain(|c| c != '\0');
    s
  }
}
pub fn st<'a>(v: &'a Value, k: &str) -> &'a str { v[k].as_str().unwrap_or("") }
#[macro_export]
macro_rules! fail { ($($t:tt)*) => { return $crate::core::Res::Fail(format!($($t)*)) } }
