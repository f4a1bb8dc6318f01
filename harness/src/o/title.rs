//! C32: the type of a heading title
use crate::core::*;
use crate::fail;
use llamapun::util::data_helpers::normalize_heading_title;
use serde_json::{json, Value};
use std::sync::OnceLock;

/// the stripping steps: pattern and replacement, each on the trimmed text
pub const STEPS: &[(&str, &str)] = &[
  (r"(^|\s)[xiv]*(\s|$)", ""),
  (r"\s*NUM\s*", " "),
  (r"(^|\s)[abcdefghijklmnop](\s|$)", ""),
  (r"\s[abcdefghijklmnop]$", ""),
  (r"^(comparison with|(?:list|summary|outline|sketch|overview|start|end) of|general|other|additional|completion|finishing|first|second|third|new|alternative|chapter|section|some|basic|closely|an|our|the)\s", ""),
  (r"\s(see|of|for|of the paper)$", ""),
  (r"(a(?:xiom|lgorithm|ssumption|pplication)|con(?:jecture|dition|clusion|tribution)|d(?:ata\s?set|efinition|iscussion)|e(?:xperiment|xample|xercise)|lemma|m(?:odel|ethod|otivation)|notation|observation|pr(?:oof|oposition|oblem)|question|re(?:sult|mark)|s(?:ubject|tep|imulation)|theorem|work)s(?:\s|$)", "$1"),
];
const EXACT: &[(&[&str], &str)] = &[
  (&["lemme", "remarque", "corollaire", "dokazatelstvo"], ""),
  (&["hypothesis", "hypotheses"], "conjecture"),
  (&["implementation details"], "implementation"),
  (&["mathematics subject classification", "subject headings"], "subject"),
  (&["bibliography"], "references"),
  (&["previous work", "prior work", "related literature", "related research", "related studies", "literature review"], "related work"),
  (&["preliminary"], "preliminaries"),
  (&["analyses"], "analysis"),
  (&["theoretical background"], "background"),
  (&["exemple"], "example"),
  (&["exercise"], "problem"),
];
const START: &[(&[&str], &str)] = &[
  (&["demonstration "], "demonstration"),
  (&["simulation result"], "result"),
  (&["simulation "], "simulation"),
  (&["acknowledg", "aknowledg"], "acknowledgement"),
  (&["proof"], "proof"),
  (&["remark "], "remark"),
  (&["experiment"], "experiment"),
  (&["key word", "keyword"], "keywords"),
  (&["introduction"], "introduction"),
  (&["related work"], "related work"),
  (&["background "], "background"),
  (&["appendi"], "appendix"),
  (&["notation"], "notation"),
  (&["theorem"], "theorem"),
  (&["lemma"], "lemma"),
  (&["corollary"], "corollary"),
  (&["proposition"], "proposition"),
  (&["definition"], "definition"),
  (&["axiom"], "axiom"),
  (&["conjecture", "hypothesis"], "conjecture"),
  (&["fact "], "fact"),
  (&["problem ", "exercise "], "problem"),
  (&["question "], "question"),
  (&["result"], "result"),
  (&["msc"], "subject"),
  (&["conclusion", "concluding remarks"], "conclusion"),
  (&["summary "], "summary"),
  (&["observation"], "observation"),
  (&["model"], "model"),
  (&["method"], "methods"),
  (&["future"], "future work"),
  (&["description"], "description"),
  (&["discussion"], "discussion"),
  (&["example"], "example"),
  (&["properties", "property "], "property"),
  (&["preliminaries "], "preliminaries"),
  (&["condition "], "condition"),
  (&["contribution "], "contribution"),
  (&["analaysis", "analysis "], "analysis"),
  (&["motivation "], "motivation"),
];
const END: &[(&[&str], &str)] = &[
  (&[" demonstration"], "demonstration"),
  (&[" simulation"], "simulation"),
  (&[" proof"], "proof"),
  (&[" remark"], "remark"),
  (&[" notation"], "notation"),
  (&[" experiment"], "experiment"),
  (&[" theorem"], "theorem"),
  (&[" lemma"], "lemma"),
  (&[" corollary"], "corollary"),
  (&[" proposition"], "proposition"),
  (&[" definition"], "definition"),
  (&[" axiom"], "axiom"),
  (&[" conjecture", " hypothesis"], "conjecture"),
  (&[" conclusion"], "conclusion"),
  (&[" summary"], "summary"),
  (&[" problem", "exercise"], "problem"),
  (&[" question"], "question"),
  (&[" result"], "result"),
  (&[" method"], "methods"),
  (&[" model"], "model"),
  (&[" description"], "description"),
  (&[" discussion"], "discussion"),
  (&[" example"], "example"),
  (&[" property", " properties"], "property"),
  (&[" preliminaries"], "preliminaries"),
  (&[" condition"], "condition"),
  (&[" contribution"], "contribution"),
  (&[" analysis"], "analysis"),
  (&[" motivation"], "motivation"),
];
fn steps() -> &'static Vec<(regex::Regex, &'static str)> { static R: OnceLock<Vec<(regex::Regex, &'static str)>> = OnceLock::new(); R.get_or_init(|| STEPS.iter().map(|(p, b)| (regex::Regex::new(p).unwrap(), *b)).collect()) }
pub fn stripped(s: &str) -> String { let mut s = s.to_string(); for (r, b) in steps() { s = r.replace_all(s.trim(), *b).into_owned(); } s }
fn table(s: &str) -> String {
  for (k, t) in EXACT { if k.contains(&s) { return t.to_string() } }
  for (k, t) in START { if k.iter().any(|k| s.starts_with(k)) { return t.to_string() } }
  for (k, t) in END { if k.iter().any(|k| s.ends_with(k)) { return t.to_string() } }
  s.to_string()
}
fn expected(s: &str) -> String { let mut s = s.to_string(); loop { let t = stripped(&s); if t.is_empty() { return t } if t == s { return table(&s) } s = t; } }
/// the canonical types and the names of the structural environments
pub const TYPES: &[&str] = &["conjecture", "implementation", "subject", "references", "related work", "preliminaries", "analysis", "background", "example", "problem", "demonstration", "result", "simulation", "acknowledgement", "proof", "remark", "experiment", "keywords", "introduction", "appendix", "notation", "theorem", "lemma", "corollary", "proposition", "definition", "axiom", "fact", "question", "conclusion", "summary", "observation", "model", "methods", "future work", "description", "discussion", "property", "condition", "contribution", "motivation", "abstract", "application", "assumption", "case", "claim", "caption", "data", "dataset", "step", "theory", "other"];
const AROUND: &[&str] = &["xiii", "iv", "x", "i", "a", "b", "k", "p", "q", "NUM", "NUM.NUM", "comparison with", "list of", "general", "an", "our", "the", "first", "new", "chapter", "section", "some", "basic", "closely", "see", "of", "for", "of the paper", "and", "results", "axioms", "data sets", "datasets", "works", "steps", "remarks", "of b", "zeta", "num", "é", "\u{a0}", "", "  ", "vi", "num", "The", "method", "THE"];
pub fn title(g: &mut G) -> String {
  let n = g.r.range(0, 5);
  let mut s = String::new();
  for _ in 0..n {
    let all: Vec<&(&[&str], &str)> = EXACT.iter().chain(START).chain(END).collect();
    let mut w = match g.r.below(6) {
      0 | 1 => { let (k, t) = *g.r.pick(&all); if g.r.chance(1, 3) { t.to_string() } else { g.r.pick(k).to_string() } }
      2 if !g.lits.strs.is_empty() => g.r.pick(&g.lits.strs).clone(),
      3 => g.text(3),
      _ => g.r.pick(AROUND).to_string(),
    };
    if g.r.chance(1, 8) { w.push('s') }
    if g.r.chance(1, 12) && !w.is_empty() { let mut c: Vec<char> = w.chars().collect(); let i = g.r.below(c.len()); if g.r.chance(1, 2) { c.remove(i); } else { let x = *g.r.pick(&['a', 's', ' ', 'x', '-']); c.insert(i, x); } w = c.into_iter().collect(); }
    s.push_str(&w);
    s.push_str(g.r.pick(&[" ", " ", " ", "", "  ", "\t", "\n", "-"]));
  }
  if g.r.chance(1, 2) { s.trim().to_string() } else { s }
}
fn gen32(g: &mut G, k: usize) -> Value {
  let all: Vec<&(&[&str], &str)> = EXACT.iter().chain(START).chain(END).collect();
  let keys: Vec<String> = all.iter().flat_map(|(k, t)| k.iter().map(|s| s.to_string()).chain(std::iter::once(t.to_string()))).collect();
  if k < keys.len() * 6 {
    let w = &keys[k / 6];
    return json!({"title": match k % 6 { 0 => w.clone(), 1 => format!("{w} zeta"), 2 => format!("zeta {w}"), 3 => format!("the {w} iv"), 4 => format!("NUM a {w}s b "), _ => format!("{w} of theorem") }});
  }
  if k < keys.len() * 6 + AROUND.len() * AROUND.len() { let i = k - keys.len() * 6; return json!({"title": format!("{} {}", AROUND[i / AROUND.len()], AROUND[i % AROUND.len()])}); }
  json!({"title": title(g)})
}
fn check32(v: &Value) -> Res {
  let Some(t) = v["title"].as_str() else { return Res::Skip };
  let got = normalize_heading_title(t);
  let want = expected(t);
  if got != want { fail!("title {t:?} is normalised to {got:?}, expected {want:?}") }
  let again = normalize_heading_title(&got);
  if again != got { fail!("title {t:?} is normalised to {got:?}, and that to {again:?}") }
  Res::Pass(got != t && !got.is_empty())
}
pub fn props() -> Vec<Prop> {
  vec![Prop { id: "C32", rule: "every key and type of the table alone, qualified and decorated, pairs of strippable pieces, then random titles of them; non-trivial: changed and not empty", files: &["util/data_helpers.rs"], gen: gen32, check: check32, secs: 3.0 }]
}
