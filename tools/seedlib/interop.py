PRE='''#![allow(unused_imports)]
use llamapun::dnm::{DNMParameters, DNM};
use libxml::readonly::RoNode;
fn para(d: &libxml::tree::Document) -> RoNode { let r = d.get_root_readonly().unwrap(); r.get_first_child().unwrap().get_first_child().unwrap() }
'''
def S(id, prop, file, old, new, needs, breaks, demo, **k): return dict(id=id, property=prop, file=file, old=old, new=new, needs=needs, breaks=breaks, demo=PRE+demo, kind='crate', **k)
SEEDS=[
S('C34-trim','C34','dnm/c14n.rs','.filter(|line| !line.is_empty())','.filter(|line| !line.trim().is_empty())',
 'a tokenized paragraph with a line of blanks only','a line of white space is dropped instead of contributing a sentence',
 '''fn main() { let (d, _m) = DNM::from_ams_paragraph_str("we have\\n \\nthe end", None).unwrap(); assert_eq!(para(&d).get_content(), "We have .   . The end"); }'''),
S('C34-title','C34','dnm/c14n.rs','''  let mut s: String = s.to_string();
  if let Some(r) = s.get_mut(0..1) {
    r.make_ascii_uppercase();
  }
  s
''','''  let mut s: String = s.to_string();
  let first = s.len().min(2);
  if let Some(r) = s.get_mut(0..first) {
    r.make_ascii_uppercase();
  }
  s
''','a line whose first two characters are ASCII letters in lower case','two letters are put in upper case instead of one',
 '''fn main() { let (d, _m) = DNM::from_ams_paragraph_str("we have", None).unwrap(); assert_eq!(para(&d).get_content(), "We have"); let (d, _m) = DNM::from_ams_paragraph_str("\\u{e9}t\\u{e9}", None).unwrap(); assert_eq!(para(&d).get_content(), "\\u{e9}t\\u{e9}"); }'''),
S('C34-first','C34','dnm/c14n.rs','MATH_LEXEMES_RE.replace_all(line, "mathformula ")','MATH_LEXEMES_RE.replace(line, "mathformula ")',
 'a line with two formulas that are not next to each other','only the first run of lexemes of a line becomes a formula',
 '''fn main() { let (d, _m) = DNM::from_ams_paragraph_str("let italic_x be in NUM cases", None).unwrap(); assert_eq!(para(&d).get_content(), "Let mathformula be in mathformula cases"); }'''),
S('C34-default','C34','dnm/mod.rs','''    let params = params_opt.unwrap_or_default();
    // Same''','''    let params = params_opt.unwrap_or_else(DNMParameters::llamapun_normalization);
    // Same''','a model made without parameters from text with runs of white space or non-ASCII characters','without parameters the standard preset is used instead of the default one',
 '''fn main() { let (_d, m) = DNM::from_str("caf\\u{e9}  here", None).unwrap(); assert_eq!(m.plaintext, "caf\\u{e9} here"); assert!(m.parameters.special_tag_name_options.is_empty()); }'''),
S('C34-content','C34','dnm/mod.rs','para.append_text(text).unwrap();','para.set_content(text).unwrap();',
 'a string with an entity reference or a bare ampersand','the string is read as markup: &amp;lt; becomes a less-than sign',
 '''fn main() { let (d, m) = DNM::from_str("a &lt; b", None).unwrap(); assert_eq!(para(&d).get_content(), "a &lt; b"); assert_eq!(m.plaintext, "a &lt; b"); }'''),
]
