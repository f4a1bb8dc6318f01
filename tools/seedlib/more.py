PRE='''#![allow(unused_imports, dead_code)]
use libxml::parser::Parser;
use libxml::readonly::RoNode;
use libxml::tree::Document as XmlDoc;
use libxml::xpath::Context;
use llamapun::dnm::{DNMParameters, DNMRange, SpecialTagsOption, DNM};
use llamapun::tokenizer::Tokenizer;
fn doc(x: &str) -> XmlDoc { Parser::default().parse_string(x).unwrap() }
fn dnm(d: &XmlDoc, p: DNMParameters) -> DNM { DNM::new(d.get_root_readonly().unwrap(), p) }
fn node(d: &XmlDoc, x: &str) -> RoNode { Context::new(d).unwrap().evaluate(x).unwrap().get_readonly_nodes_as_vec()[0] }
fn raw() -> DNMParameters { DNMParameters { normalize_white_spaces: false, ..Default::default() } }
fn text(s: &str) -> (XmlDoc, DNM) { let d = doc(&format!("<p>{s}</p>")); let m = dnm(&d, raw()); (d, m) }
fn strs(v: Vec<DNMRange>) -> Vec<String> { v.iter().map(|r| r.get_plaintext().to_string()).collect() }
'''
PAT=PRE+'''
use llamapun::patterns::{match_sentence, Match, MarkerEnum, PatternFile};
use senna::phrase::Phrase;
use senna::pos::POS;
use senna::sentence::{PSGNode, PSGPhrase, Sentence, Word};
fn load(x: &str) -> Result<PatternFile, String> { std::fs::write("pattern.xml", x).unwrap(); PatternFile::load("pattern.xml") }
fn ph(label: Phrase, children: Vec<PSGNode>) -> PSGNode { PSGNode::Parent(Box::new(PSGPhrase { label, children })) }
fn leaf(i: usize) -> PSGNode { PSGNode::Leaf(i) }
fn sentence<'t>(s: &'t str, psg: PSGNode) -> Sentence<'t> {
  let mut out = Sentence::new(s);
  let mut at = 0;
  for (i, w) in s.split(' ').enumerate() { out.words.push(Word::new(w, at, at + w.len(), POS::NN, i as u32)); at += w.len() + 1; }
  out.psg = Some(psg);
  out
}
fn show(ms: &[Match]) -> String {
  ms.iter().map(|m| format!("{}[{}]", match &m.marker { MarkerEnum::Text(t) => format!("{}={}", t.marker.name, t.range.get_plaintext()), MarkerEnum::Math(t) => format!("{}={}", t.marker.name, t.node.get_content()) }, show(&m.sub_matches))).collect::<Vec<_>>().join(",")
}
fn math(file: &str, markup: &str) -> String {
  let d = doc(&format!("<p><math>{markup}</math></p>"));
  let mut p = raw();
  p.special_tag_name_options.insert("math".to_string(), SpecialTagsOption::Normalize("mathformula".to_string()));
  let m = dnm(&d, p);
  let r = m.get_range().unwrap();
  let s = sentence(r.get_plaintext(), ph(Phrase::S, vec![leaf(0)]));
  let pf = load(file).unwrap();
  let ms = match_sentence(&pf, &s, &r, "s").unwrap();
  show(&ms)
}
fn words(file: &str, txt: &str, psg: PSGNode) -> String {
  let (_d, m) = text(txt);
  let r = m.get_range().unwrap();
  let s = sentence(r.get_plaintext(), psg);
  let pf = load(file).unwrap();
  let ms = match_sentence(&pf, &s, &r, "s").unwrap();
  show(&ms)
}
'''
def S(id, property, file, old, new, needs, breaks, main, pre=PRE, more=(), nth=0):
    return dict(id=id, property=property, file=file, old=old, new=new, needs=needs, breaks=breaks, more=list(more), nth=nth, demo=pre+'fn main() {\n'+main+'\n}\n')
SEEDS=[
S('C01-tail','C01','dnm/mod.rs','''    dnm.byte_offsets.push(dnm.plaintext.len()); // to have''','''    dnm.byte_offsets.push(dnm.runtime.chars.len()); // to have''',
  'a text with a character that takes more than one byte','the final byte offset is the number of characters instead of bytes',
  '  let (_d, m) = text("caf\\u{e9}");\n  assert_eq!(m.byte_offsets, vec![0, 1, 2, 3, 5]);'),
S('C02-blank','C02','dnm/mod.rs','''    // push results
    self.runtime''','''    if string.is_empty() {
      return; // nothing to record
    }
    // push results
    self.runtime''','a text node that contributes no characters (leading whitespace under normalisation)','text nodes that end up empty are not recorded at all',
  '  let d = doc("<p> <b>x</b></p>");\n  let m = dnm(&d, DNMParameters::default());\n  assert!(m.get_range_of_node(node(&d, "/p/text()")).is_ok());'),
S('C03-ascii','C03','dnm/mod.rs','''      if c.is_whitespace() {
        if !self.runtime''','''      if c.is_ascii_whitespace() {
        if !self.runtime''','a whitespace character outside ASCII (non-breaking or em space)','non-ASCII whitespace is neither collapsed nor turned into a space',
  '  let d = doc("<p>a\\u{a0} \\u{2003}b</p>");\n  let m = dnm(&d, DNMParameters::default());\n  assert_eq!(m.plaintext, "a b");'),
S('C04-expand','C04','dnm/mod.rs','''      for cn in unidecode_char(co).chars() {
        new_string.push(cn);
        new_offsets.push(offsets[i]);
      }''','''      for (k, cn) in unidecode_char(co).chars().enumerate() {
        new_string.push(cn);
        new_offsets.push(offsets[std::cmp::min(i + k, offsets.len() - 1)]);
      }''','transliteration of one character into several','later characters of an expansion point at the following source characters',
  '  let d = doc("<p>\\u{df}a</p>");\n  let m = dnm(&d, DNMParameters { normalize_unicode: true, ..Default::default() });\n  assert_eq!(m.plaintext, "ssa");\n  assert_eq!(m.back_map.iter().map(|b| b.1).collect::<Vec<_>>(), vec![0, 0, 1]);'),
S('C05-enter','C05','dnm/mod.rs','''          Some(&SpecialTagsOption::Enter) => break,''','''          Some(&SpecialTagsOption::Enter) => continue,''',
  'a class rule Enter on an element whose tag name has another rule','an Enter rule for a class no longer overrides the rule for the tag name',
  '  let d = doc("<p><b class=\\"keep\\">x</b><b>y</b></p>");\n  let mut p = raw();\n  p.special_tag_name_options.insert("b".to_string(), SpecialTagsOption::Skip);\n  p.special_tag_class_options.insert("keep".to_string(), SpecialTagsOption::Enter);\n  assert_eq!(dnm(&d, p).plaintext, "x");'),
S('C05-wrap','C05','dnm/mod.rs','''    $dnm.runtime.had_whitespace = false;

    if''','''    $dnm.runtime.had_whitespace = $token.ends_with(char::is_whitespace);

    if''','wrapped tokens under whitespace normalisation whose token text ends in whitespace','the space after such a token is missing',
  '  let d = doc("<p>a<b/>c</p>");\n  let mut p = DNMParameters { wrap_tokens: true, ..Default::default() };\n  p.special_tag_name_options.insert("b".to_string(), SpecialTagsOption::Normalize("x\\n".to_string()));\n  assert_eq!(dnm(&d, p).plaintext, "a x\\n c");'),
S('C06-trunc','C06','dnm/range.rs','self.get_plaintext().trim_end() }',"self.get_plaintext().trim_end_matches(' ') }",
  'a range ending in a newline or other whitespace than the plain space','only plain spaces are cut off the end of a truncated range text',
  '  let (_d, m) = text("ab \\n");\n  assert_eq!(m.get_range().unwrap().get_plaintext_truncated(), "ab");'),
S('C07-blank','C07','dnm/range.rs','''      trimmed_start = self.end;
      trimmed_end = self.end;''','''      trimmed_start = self.start;
      trimmed_end = self.start;''','a range of whitespace only','trimming such a range gives the empty range at its start instead of its end',
  '  let (_d, m) = text("a   b");\n  let r = m.get_range().unwrap().get_subrange(1, 4).trim();\n  assert_eq!((r.start, r.end), (4, 4));'),
S('C08-end','C08','dnm/range.rs','''        self.dnm.byte_offsets[self.start] + rel_end - 1,
        self.start,
        self.end,
      ) + 1,''','''        self.dnm.byte_offsets[self.start] + rel_end,
        self.start,
        self.end,
      ),''','an end offset in the middle of a multi-byte character','the character holding the last byte is left out',
  '  let (_d, m) = text("a\\u{e9}b");\n  let r = m.get_range().unwrap().get_subrange_from_byte_offsets(0, 2);\n  assert_eq!(r.get_plaintext(), "a\\u{e9}");'),
S('C09-paren','C09','tokenizer.rs','''                // New sentence
                sentences.push(DNMRange { start, end, dnm }.trim());
                start = end;
              },
              Some(&c) => {''','''                // New sentence
                sentences.push(DNMRange { start, end, dnm });
                start = end;
              },
              Some(&c) => {''','a full stop followed by whitespace and an opening parenthesis','that sentence keeps its surrounding whitespace',
  '  let (_d, m) = text("one two.  (three) four.");\n  let t = Tokenizer::default();\n  for s in strs(t.sentences(&m)) { assert_eq!(s, s.trim()); }'),
S('C09-math','C09','tokenizer.rs','''                    // New sentence
                    sentences.push(DNMRange { start, end, dnm }.trim());
                    start = end;
                  } else {''','''                    // New sentence
                    sentences.push(DNMRange { start, end, dnm }.trim());
                    start = end + next_word_length;
                  } else {''','a full stop directly before a formula at the start of a sentence','the formula between the two sentences belongs to neither',
  '  let (_d, m) = text("it is shown. mathformula holds here");\n  let t = Tokenizer::default();\n  assert_eq!(strs(t.sentences(&m)).concat().replace(\' \', ""), "itisshown.mathformulaholdshere");'),
S('C10-caps','C10','tokenizer.rs',"            if peeked == &'s' {","            if peeked.eq_ignore_ascii_case(&'s') {",
  'an apostrophe before a capital S','the apostrophe is glued to the word in front of it',
  '  let (_d, m) = text("IT\'S");\n  let t = Tokenizer::default();\n  assert_eq!(strs(t.words(&m.get_range().unwrap())), vec!["IT", "S"]);'),
S('C11-em','C11','tokenizer.rs','"il" | "re" | "m" => {}','"il" | "re" | "m" | "em" => {}',
  "the contraction 'em","an apostrophe is joined to a run outside the closed list",
  '  let (_d, m) = text("tell \'em");\n  let t = Tokenizer::default();\n  assert_eq!(strs(t.words_and_punct(&m.get_range().unwrap())), vec!["tell", "\'", "em"]);'),
S('C12-exact','C12','ngrams.rs','    if words.len() < self.n {','    if words.len() <= self.n {','a sequence of exactly n words','its only window is not counted',
  '  let mut g = llamapun::ngrams::Ngrams { n: 2, ..Default::default() };\n  g.record_words(vec!["a", "b"]);\n  assert_eq!(g.get("a b"), 1);'),
S('C13-digit','C13','ngrams.rs','''.filter(|&w| w.chars().next().unwrap().is_alphanumeric())''','''.filter(|&w| w.chars().next().unwrap().is_alphabetic())''',
  'a word starting with a digit near the anchor','words starting with a digit are dropped and their neighbours joined',
  '  let mut g = llamapun::ngrams::Ngrams { n: 2, window_size: 2, anchor: Some("X".into()), ..Default::default() };\n  g.add_content("X 3d a");\n  assert_eq!((g.get("X 3d"), g.get("X a")), (1, 0));'),
S('C13-case','C13','ngrams.rs','''      if w == anchor {''','''      if w.eq_ignore_ascii_case(anchor) {''','a word that equals the anchor up to letter case','words are justified by a word that is not the anchor',
  '  let mut g = llamapun::ngrams::Ngrams { n: 1, window_size: 1, anchor: Some("Anchor".into()), ..Default::default() };\n  g.add_content("a anchor b");\n  assert_eq!(g.get("a"), 0);'),
S('C16-super','C16','dnm/node.rs','anno_word.starts_with("SUPERSCRIPTOP")','anno_word.starts_with("SUPERSCRIPTOP:")',
  'a superscript operator word with a level number, such as SUPERSCRIPTOP1:a','superscript operators of a level are not reduced to their kind',
  '  let d = doc("<math><annotation encoding=\\"application/x-llamapun\\">SUPERSCRIPTOP1:a ID:x</annotation></math>");\n  let mut c = Context::new(&d).unwrap();\n  assert_eq!(llamapun::dnm::node::lexematize_math(d.get_root_readonly().unwrap(), &mut c), "SUPERSCRIPTOP ID_x");'),
S('C16-first','C16','dnm/node.rs','''      annotation_string = annotation_string
        .split(":start")
        .collect::<Vec<&str>>()
        .join(":start ");''','''      annotation_string = annotation_string.replacen(":start", ":start ", 1);''',
  'an annotation with two glued start markers','only the first start marker is split off',
  '  let d = doc("<math><annotation encoding=\\"application/x-llamapun\\">POSTFIX:startARG:startID:x</annotation></math>");\n  let mut c = Context::new(&d).unwrap();\n  assert_eq!(llamapun::dnm::node::lexematize_math(d.get_root_readonly().unwrap(), &mut c), "POSTFIX_start ARG_start ID_x");'),
S('C17-comment','C17','patterns/utils.rs','''    || child.as_ref().unwrap().get_next_sibling().is_some()
  {''','''    || child.as_ref().unwrap().get_next_sibling().map_or(false, |n| !is_comment_node(n))
  {''','a comment after the text of a node with simple content, followed by more text','the text after the comment is lost silently',
  '  assert!(load("<pattern_file><word_rule name=\\"w\\"><word>a<!-- c -->b</word></word_rule></pattern_file>").is_err());', pre=PAT),
S('C17-empty','C17','patterns/utils.rs','''    Some(value) => Ok(value),
  }''','''    Some(value) if value.is_empty() => Err(format!(
      "\\"{}\\" node has an empty \\"{}\\" property",
      node.get_name(),
      property
    )),
    Some(value) => Ok(value),
  }''','a required attribute with the empty string as its value','an attribute that is present but empty is reported as an error',
  '  assert!(load("<pattern_file><mtext_rule name=\\"t\\"><mtext_lit str=\\"\\"/></mtext_rule></pattern_file>").is_ok());', pre=PAT),
S('C17-text','C17','patterns/utils.rs','''      if !cur_.get_content().trim().is_empty() {''','''      if !children.is_empty() && !cur_.get_content().trim().is_empty() {''','stray text before the first child element','text in front of the first element is accepted',
  '  assert!(load("<pattern_file>stray<word_rule name=\\"w\\"><word>a</word></word_rule></pattern_file>").is_err());', pre=PAT),
S('C18-nested','C18','patterns/matching.rs','''              marker: marker.clone(),
            }),
            sub_matches: m._matches,
          }],
          matched: true,
        }
      } else {
        InternalWordMatch::no_match()''','''              marker: marker.clone(),
            }),
            sub_matches: Vec::new(),
          }],
          matched: true,
        }
      } else {
        InternalWordMatch::no_match()''','two nested word markers','the inner marker of a marked word is not reported',
  '  let f = "<pattern_file><seq_rule name=\\"s\\"><seq_word><word_marker name=\\"o\\"><word_marker name=\\"i\\"><word>a</word></word_marker></word_marker></seq_word></seq_rule></pattern_file>";\n  assert_eq!(words(f, "b a", ph(Phrase::S, vec![leaf(0), leaf(1)])), "o=a[i=a[]]");', pre=PAT),
S('C18-notor','C18','patterns/matching.rs','''    PosPattern::PosNot(ref r) => !match_pos(pf, r, pos),''','''    PosPattern::PosNot(ref r) => match **r {
      // not a or b: neither of them
      PosPattern::PosOr(ref ps) => ps.iter().any(|p| !match_pos(pf, p, pos)),
      _ => !match_pos(pf, r, pos),
    },''','pos_not around a pos_or with several tags','the negation of an alternative is true as soon as one alternative is not met',
  '  let f = "<pattern_file><seq_rule name=\\"s\\"><seq_word><word_marker name=\\"o\\"><word_pos><pos><pos_not><pos_or><pos tag=\\"NN\\"/><pos tag=\\"VB\\"/></pos_or></pos_not></pos><word_any/></word_pos></word_marker></seq_word></seq_rule></pattern_file>";\n  assert_eq!(words(f, "a", ph(Phrase::S, vec![leaf(0)])), "");', pre=PAT),
S('C19-last','C19','patterns/matching.rs','''          if c_nodes.len() < child_rules.len() + start_pos {''','''          if c_nodes.len() <= child_rules.len() + start_pos {''',
  'an arbitrary children match that is only possible at the very last children','the last position is never tried',
  '  let f = "<pattern_file><seq_rule name=\\"s\\"><seq_word><word_math><math_node><math_children match_type=\\"arbitrary\\"><math_marker name=\\"k\\"><math_node name=\\"mo\\"/></math_marker></math_children></math_node></word_math></seq_word></seq_rule></pattern_file>";\n  assert_eq!(math(f, "<mrow><mi>x</mi><mi>y</mi><mo>+</mo></mrow>"), "k=+[]");', pre=PAT),
S('C19-first','C19','patterns/matching.rs','''        if matched && match_type == &MathDescendantMatchType::First {''','''        if matched && match_type != &MathDescendantMatchType::Arbitrary {''',
  'a descendant pattern of type at_least_one with several matching descendants','only the first matching descendant is reported',
  '  let f = "<pattern_file><seq_rule name=\\"s\\"><seq_word><word_math><math_descendant match_type=\\"at_least_one\\"><math_marker name=\\"k\\"><math_node name=\\"mi\\"/></math_marker></math_descendant></word_math></seq_word></seq_rule></pattern_file>";\n  assert_eq!(math(f, "<mrow><mi>x</mi><mi>y</mi></mrow>"), "k=x[],k=y[]");', pre=PAT),
S('C20-single','C20','patterns/matching.rs','''        if child.start <= start_pos && child.end >= start_pos {''','''        if child.start <= start_pos && child.end > start_pos {''',
  'a phrase that starts at the last word of an enclosing phrase','one-word phrases at the end of a phrase are not found',
  '  let f = "<pattern_file><seq_rule name=\\"s\\"><seq_marker name=\\"k\\"><phrase tag=\\"NP\\"/></seq_marker></seq_rule></pattern_file>";\n  assert_eq!(words(f, "go home", ph(Phrase::S, vec![ph(Phrase::VP, vec![leaf(0), ph(Phrase::NP, vec![leaf(1)])])])), "k=home[]");', pre=PAT),
S('C20-whole','C20','patterns/matching.rs','''SequenceContainment::LessOrEqual && m.end > *end_pos {''','''SequenceContainment::LessOrEqual && m.end >= *end_pos {''',
  'a start condition that covers the whole phrase','a start condition exactly as long as the phrase is rejected',
  '  let f = "<pattern_file><seq_rule name=\\"s\\"><seq_marker name=\\"k\\"><phrase tag=\\"NP\\"><starts_with_seq containment=\\"lessorequal\\"><seq_word><word>home</word></seq_word></starts_with_seq></phrase></seq_marker></seq_rule></pattern_file>";\n  assert_eq!(words(f, "home", ph(Phrase::S, vec![ph(Phrase::NP, vec![leaf(0)])])), "k=home[]");', pre=PAT),
S('C20-stale','C20','patterns/matching.rs','''      for end_pos in &phrase_ends {
        matches.clear();
''','''      for end_pos in &phrase_ends {
''','two nested phrases starting at the same word, the first tried failing its end condition after its start condition matched','matches of a rejected phrase are reported together with those of the accepted one',
  '  let f = "<pattern_file><seq_rule name=\\"s\\"><phrase tag=\\"NP\\"><match_type>shortest</match_type><starts_with_seq><seq_word><word_marker name=\\"a\\"><word>big</word></word_marker></seq_word></starts_with_seq><ends_with_seq><seq_word><word>home</word></seq_word></ends_with_seq></phrase></seq_rule></pattern_file>";\n  assert_eq!(words(f, "big red home", ph(Phrase::S, vec![ph(Phrase::NP, vec![ph(Phrase::NP, vec![leaf(0), leaf(1)]), leaf(2)])])), "a=big[]");', pre=PAT),
S('C21-option','C21','patterns/rules.rs','''        "any" => Ok(SequenceContainment::Any),
        unknown => Err(format!("Unknown containment \\"{unknown}\\"")),''','''        _ => Ok(SequenceContainment::Any),''',
  'a containment attribute with an unknown value','the unknown option value is silently read as the default',
  '  assert!(load("<pattern_file><seq_rule name=\\"s\\"><phrase tag=\\"NP\\"><starts_with_seq containment=\\"less\\"><seq_word><word>a</word></seq_word></starts_with_seq></phrase></seq_rule></pattern_file>").is_err());', pre=PAT),
S('C21-forward','C21','patterns/rules.rs','''    let pos = self.get_mtext_rule(&rule.description.name);
    if self''','''    let pos = self.mtext_rules.len();
    self.mtext_rules.push(None);
    self.mtext_name_map.insert(rule.description.name.clone(), pos);
    if self''','an mtext rule that is referenced before it is defined, or defined twice','a second definition replaces the first, and forward references point to an empty place',
  '  assert!(load("<pattern_file><mtext_rule name=\\"t\\"><mtext_any/></mtext_rule><mtext_rule name=\\"t\\"><mtext_lit str=\\"a\\"/></mtext_rule></pattern_file>").is_err());', pre=PAT),
S('C22-prefix','C22','dnm/c14n.rs','''(name == "annotation") || (name == "annotation-xml")''','''name.starts_with("annotation")''','an element whose name merely begins with annotation','an ordinary element disappears from the canonical form',
  '  let d = doc("<p><annotations>x</annotations></p>");\n  assert_eq!(dnm(&d, raw()).to_c14n_basic(), "<p><annotations>x</annotations></p>");'),
S('C22-reset','C22','dnm/c14n.rs','''    hasher.reset();
    hasher.input_str(&self.node_c14n_basic(node));
    hasher.result_str()''','''    let canonical = self.node_c14n_basic(node);
    if !canonical.is_empty() {
      hasher.reset();
    }
    hasher.input_str(&canonical);
    hasher.result_str()''','hashing a node with an empty canonical form after another node','the hash of the empty string is not its MD5 but depends on the node hashed before',
  '  let d = doc("<p>x<!-- c --></p>");\n  let m = dnm(&d, raw());\n  let c = node(&d, "/p/comment()");\n  let a = m.node_hash_basic(c);\n  m.to_hash_basic();\n  assert_eq!(m.node_hash_basic(c), a);'),
S('C23-zero','C23','dnm/range.rs','''    if offset < 0 {
      DNMRange::serialize_node''','''    if offset <= 0 {
      DNMRange::serialize_node''','a range that starts or ends at the first character of a text node','the position is written as the whole node, without a character index',
  '  let d = doc("<p>ab</p>");\n  let m = dnm(&d, raw());\n  let r = m.get_range().unwrap();\n  assert!(r.get_subrange(0, 1).serialize().starts_with("arange(string-index("));'),
S('C23-last','C23','dnm/range.rs','''          while pos < range.end && dnm.back_map[pos].1 < offset {''','''          while pos + 1 < range.end && dnm.back_map[pos].1 < offset {''','a range that ends at the very end of the document','the last character is lost in the round trip',
  '''  let d = doc("<p>one <b>two</b> three</p>");
  let m = dnm(&d, raw());
  let c = Context::new(&d).unwrap();
  let n = m.plaintext.len();
  let r = m.get_range().unwrap().get_subrange(n - 3, n);
  let s = r.serialize();
  let b = DNMRange::deserialize(&s, &m, &c);
  assert_eq!((b.start, b.end), (r.start, r.end));'''),
S('C23-skip','C23','dnm/range.rs','''          let mut pos = range.start;
          let offset = &string[comma + 1..string.len() - 1].parse::<i32>().unwrap() - 1;
''','''          let offset = &string[comma + 1..string.len() - 1].parse::<i32>().unwrap() - 1;
          let mut pos = (range.start + offset.max(0) as usize).min(range.end);
''','a text node in which white space was collapsed before the position','positions behind the collapsed white space move to the right',
  '''  let d = doc("<p>one    two three</p>");
  let m = dnm(&d, DNMParameters { normalize_white_spaces: true, ..raw() });
  let c = Context::new(&d).unwrap();
  let p = m.plaintext.find("two").unwrap();
  let r = m.get_range().unwrap().get_subrange(p, p + 3);
  let b = DNMRange::deserialize(&r.serialize(), &m, &c);
  assert_eq!((b.start, b.end), (r.start, r.end));'''),
S('C24-empty','C24','parallel_data/corpus.rs','''      .reduce(|| (HashMap::new(),HashMap::new()), |(mut map11, mut map12), (map21,map22)| {
''','''      .reduce(|| (HashMap::new(),HashMap::new()), |(mut map11, mut map12), (map21,map22)| {
        if map11.is_empty() {
          return (map21, map22);
        }
''','a document whose first catalogue is empty while its second is not, merged with a later one','the second catalogue accumulated so far is dropped',
  '''  std::fs::create_dir("c").unwrap();
  for i in 0..8 { std::fs::write(format!("c/{i}.html"), "<html><body><p>x</p></body></html>").unwrap(); }
  let c = llamapun::parallel_data::Corpus::new("c".to_string());
  let (_, b) = c.catalogs_with_parallel_walk(|_| (Default::default(), [("k".to_string(), 1u64)].into_iter().collect()));
  assert_eq!(b.get("k"), Some(&8));'''),
S('C25-dots','C25','parallel_data/corpus.rs','''            file_name.ends_with(extension)''','''            file_name.rsplit('.').next() == extension.rsplit('.').next()''','a configured extension with more than one dot, such as .en.html','files are selected by their last extension part only',
  '''  std::fs::create_dir("c").unwrap();
  for i in ["a.en.html", "b.de.html"] { std::fs::write(format!("c/{i}"), "<html><body><p>x</p></body></html>").unwrap(); }
  let mut c = llamapun::parallel_data::Corpus::new("c".to_string());
  c.extension = Some(".en.html".to_string());
  let b = c.catalog_with_parallel_walk(|d| [(d.path.clone(), 1u64)].into_iter().collect());
  assert_eq!(b.len(), 1);'''),
S('C26-caps','C26','ams.rs','''normalize_heading_title(&heading.to_lowercase())''','''normalize_heading_title(heading)''','a heading in capitals','names of environments are only recognised in lower case',
  '  use llamapun::ams::StructuralEnv;\n  assert_eq!(StructuralEnv::from("ABSTRACT"), StructuralEnv::Abstract);'),
S('C27-limit','C27','util/data_helpers.rs','''word_string.len() > MAX_WORD_LENGTH''','''word_string.chars().count() > MAX_WORD_LENGTH''','a word of at most 25 characters but more than 25 bytes','words longer than 25 bytes pass',
  '''  use llamapun::util::data_helpers::{ams_normalize_word_range, LexicalOptions};
  let w = "\\u{e9}".repeat(20);
  let (d, m) = text(&w);
  let mut c = Context::new(&d).unwrap();
  assert!(ams_normalize_word_range(&m.get_range().unwrap(), &mut c, LexicalOptions::default()).is_err());'''),
S('C28-nested','C28','parallel_data/document.rs','''    if filter(&node) {
      found.push(node);
    }''','''    if filter(&node) {
      found.push(node);
      return found;
    }''','a node satisfying the filter inside another one','nodes below a selected node are not delivered',
  '''  std::fs::write("d.html", "<html><body><div class='a'><div class='b'>x</div></div></body></html>").unwrap();
  let c = llamapun::parallel_data::Corpus::new(".".to_string());
  let d = llamapun::parallel_data::Document::new("d.html".to_string(), &c).unwrap();
  assert_eq!(d.filter_iter(&|n| n.get_name() == "div").count(), 2);'''),
S('C29-table','C29','dnm/parameters.rs','''    class_options.insert("ltx_tag_table".to_string(), SpecialTagsOption::Skip);''','''    class_options.insert("ltx_tag_table".to_string(), SpecialTagsOption::Enter);''','a table tag inside a caption','the number of a table caption leaks into the text',
  '''  let d = doc("<p><span class=\\"ltx_tag_table\\">Table 1</span>x</p>");
  assert_eq!(dnm(&d, DNMParameters::llamapun_normalization()).plaintext, "x");'''),
S('C30-later','C30','util/path_helpers.rs','''  for mut paragraph in document.paragraph_iter() {
    let mut invalid_paragraph = false;
''','''  let mut invalid_paragraph = false;
  for mut paragraph in document.paragraph_iter() {
''','a document with an overlong word in a paragraph that is not the last','all paragraphs after the invalid one are dropped too',
  '''  std::fs::write("d.html", "<html><body><div class='ltx_para'><p>good one</p></div><div class='ltx_para'><p>aaaaaaaaaabbbbbbbbbbccccccccccdddddddddd</p></div><div class='ltx_para'><p>second good</p></div></body></html>").unwrap();
  assert_eq!(llamapun::util::path_helpers::path_to_words("d.html".to_string()), "good one \\nsecond good \\n");'''),
S('C31-partial','C31','util/data_helpers.rs','''        Ok(w) => w,
        Err(_) => return None,
      };
    if !heading_word''','''        Ok(w) => w,
        Err(_) => break,
      };
    if !heading_word''','a heading with an overlong word after ordinary ones','the beginning of the heading is returned instead of nothing',
  '''  use llamapun::util::data_helpers::heading_from_node_aux;
  let d = doc("<h2>good one aaaaaaaaaabbbbbbbbbbccccccccccdddddddddd</h2>");
  let mut c = Context::new(&d).unwrap();
  assert_eq!(heading_from_node_aux(d.get_root_readonly().unwrap(), &Tokenizer::default(), &mut c), None);'''),
S('C31-lexeme','C31','util/data_helpers.rs','''heading_word != "NUM"''','''!heading_word.contains("NUM")''','a formula with a number in a heading','formulas with numbers are dropped from headings',
  '''  use llamapun::util::data_helpers::heading_from_node_aux;
  let d = doc("<h2>case <math><annotation encoding=\\"application/x-llamapun\\">ID:n RELOP:equals NUM:2</annotation></math></h2>");
  let mut c = Context::new(&d).unwrap();
  let h = heading_from_node_aux(d.get_root_readonly().unwrap(), &Tokenizer::default(), &mut c).unwrap();
  assert!(h.starts_with("case ") && h.contains("NUM"), "{h:?}");'''),
S('C32-once','C32','util/data_helpers.rs','''  let simple_heading = COMMON_PLURALS.replace_all(simple_heading.trim(), "$1");
  if''','''  let whole = simple_heading;
  let simple_heading = COMMON_PLURALS.replace_all(whole.trim(), "$1");
  let heading: &str = &whole;
  if''','several lead-in phrases in a row','only the first lead-in phrase is stripped unless a plural was, too',
  '''  use llamapun::util::data_helpers::normalize_heading_title;
  assert_eq!(normalize_heading_title("our new idea"), "idea");'''),
S('C32-order','C32','util/data_helpers.rs','''      h if h.starts_with("simulation result") => "result",
      h if h.starts_with("simulation ") => "simulation",''','''      h if h.starts_with("simulation ") => "simulation",
      h if h.starts_with("simulation result") => "result",''','a title beginning with both','simulation results are taken for simulations',
  '''  use llamapun::util::data_helpers::normalize_heading_title;
  assert_eq!(normalize_heading_title("simulation result overview"), "result");'''),
]
