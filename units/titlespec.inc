@verbatim
spec fn starts_with(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.take(p.len() as int) == p }
spec fn ends_with(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.skip(s.len() - p.len()) == p }
trait VxEnds { fn vx_starts_with(&self, p: &str) -> bool; fn vx_ends_with(&self, p: &str) -> bool; }
impl VxEnds for str {
    #[verifier::external_body] fn vx_starts_with(&self, p: &str) -> (r: bool) ensures r == starts_with(self@, p@) { self.starts_with(p) }
    #[verifier::external_body] fn vx_ends_with(&self, p: &str) -> (r: bool) ensures r == ends_with(self@, p@) { self.ends_with(p) }
}
trait VxStrRef { fn vx_str_ref(&self) -> &str; }
impl VxStrRef for String { #[verifier::external_body] fn vx_str_ref(&self) -> (r: &str) ensures r@ == self@ { self.as_str() } }
// ---------- the type of a heading ----------
spec fn trim(s: Seq<char>) -> Seq<char> { trimmed_start(trimmed_end(s)) }
spec fn pat_roman() -> Seq<char> { "(^|\\s)[xiv]*(\\s|$)"@ }
spec fn pat_num() -> Seq<char> { "\\s*NUM\\s*"@ }
spec fn pat_lead() -> Seq<char> { "(^|\\s)[abcdefghijklmnop](\\s|$)"@ }
spec fn pat_trail() -> Seq<char> { "\\s[abcdefghijklmnop]$"@ }
spec fn pat_phrase() -> Seq<char> { "^(comparison with|(?:list|summary|outline|sketch|overview|start|end) of|general|other|additional|completion|finishing|first|second|third|new|alternative|chapter|section|some|basic|closely|an|our|the)\\s"@ }
spec fn pat_word() -> Seq<char> { "\\s(see|of|for|of the paper)$"@ }
spec fn pat_plural() -> Seq<char> { "(a(?:xiom|lgorithm|ssumption|pplication)|con(?:jecture|dition|clusion|tribution)|d(?:ata\\s?set|efinition|iscussion)|e(?:xperiment|xample|xercise)|lemma|m(?:odel|ethod|otivation)|notation|observation|pr(?:oof|oposition|oblem)|question|re(?:sult|mark)|s(?:ubject|tep|imulation)|theorem|work)s(?:\\s|$)"@ }
// one round of stripping: roman numerals, numbers, single letters, lead-in phrases, trailing words and plurals
spec fn stripped(s: Seq<char>) -> Seq<char> {
    let s1 = re_replaced(pat_roman(), trim(s), ""@);
    let s2 = re_replaced(pat_num(), trim(s1), " "@);
    let s3 = re_replaced(pat_lead(), trim(s2), ""@);
    let s4 = re_replaced(pat_trail(), trim(s3), ""@);
    let s5 = re_replaced(pat_phrase(), trim(s4), ""@);
    let s6 = re_replaced(pat_word(), trim(s5), ""@);
    let s7 = re_replaced(pat_plural(), trim(s6), "$1"@);
    s7
}
// regex semantics of these patterns: each replacement leaves the text alone or shortens it; executed on every run
#[verifier::external_body]
proof fn axiom_shrinks(s: Seq<char>)
    ensures
        re_replaced(pat_roman(), s, ""@) == s || re_replaced(pat_roman(), s, ""@).len() < s.len(),
        re_replaced(pat_num(), s, " "@) == s || re_replaced(pat_num(), s, " "@).len() < s.len(),
        re_replaced(pat_lead(), s, ""@) == s || re_replaced(pat_lead(), s, ""@).len() < s.len(),
        re_replaced(pat_trail(), s, ""@) == s || re_replaced(pat_trail(), s, ""@).len() < s.len(),
        re_replaced(pat_phrase(), s, ""@) == s || re_replaced(pat_phrase(), s, ""@).len() < s.len(),
        re_replaced(pat_word(), s, ""@) == s || re_replaced(pat_word(), s, ""@).len() < s.len(),
        re_replaced(pat_plural(), s, "$1"@) == s || re_replaced(pat_plural(), s, "$1"@).len() < s.len(),
{}
proof fn lemma_trim(s: Seq<char>) ensures trim(s) == s || trim(s).len() < s.len() { lemma_trim_end(s); lemma_trim_start(trimmed_end(s)); }
proof fn lemma_trim_end(s: Seq<char>) ensures trimmed_end(s) == s || trimmed_end(s).len() < s.len() decreases s.len() { if s.len() > 0 && is_ws(s.last()) { lemma_trim_end(s.drop_last()); } }
proof fn lemma_trim_start(s: Seq<char>) ensures trimmed_start(s) == s || trimmed_start(s).len() < s.len() decreases s.len() { if s.len() > 0 && is_ws(s[0]) { lemma_trim_start(s.skip(1)); } }
proof fn lemma_stripped(s: Seq<char>) ensures stripped(s) == s || stripped(s).len() < s.len()
{
    let s0 = s;
    lemma_trim(s0); axiom_shrinks(trim(s0)); let s1 = re_replaced(pat_roman(), trim(s0), ""@);
    lemma_trim(s1); axiom_shrinks(trim(s1)); let s2 = re_replaced(pat_num(), trim(s1), " "@);
    lemma_trim(s2); axiom_shrinks(trim(s2)); let s3 = re_replaced(pat_lead(), trim(s2), ""@);
    lemma_trim(s3); axiom_shrinks(trim(s3)); let s4 = re_replaced(pat_trail(), trim(s3), ""@);
    lemma_trim(s4); axiom_shrinks(trim(s4)); let s5 = re_replaced(pat_phrase(), trim(s4), ""@);
    lemma_trim(s5); axiom_shrinks(trim(s5)); let s6 = re_replaced(pat_word(), trim(s5), ""@);
    lemma_trim(s6); axiom_shrinks(trim(s6)); let s7 = re_replaced(pat_plural(), trim(s6), "$1"@);
}
spec fn title_exact(s: Seq<char>) -> Option<Seq<char>> {
    if s == "lemme"@ || s == "remarque"@ || s == "corollaire"@ || s == "dokazatelstvo"@ { Some(""@) }
     else if s == "hypothesis"@ || s == "hypotheses"@ { Some("conjecture"@) }
     else if s == "implementation details"@ { Some("implementation"@) }
     else if s == "mathematics subject classification"@ || s == "subject headings"@ { Some("subject"@) }
     else if s == "bibliography"@ { Some("references"@) }
     else if s == "previous work"@ || s == "prior work"@ || s == "related literature"@ || s == "related research"@ || s == "related studies"@ || s == "literature review"@ { Some("related work"@) }
     else if s == "preliminary"@ { Some("preliminaries"@) }
     else if s == "analyses"@ { Some("analysis"@) }
     else if s == "theoretical background"@ { Some("background"@) }
     else if s == "exemple"@ { Some("example"@) }
     else if s == "exercise"@ { Some("problem"@) }
    else { None }
}
spec fn title_start(s: Seq<char>) -> Option<Seq<char>> {
    if starts_with(s, "demonstration "@) { Some("demonstration"@) }
     else if starts_with(s, "simulation result"@) { Some("result"@) }
     else if starts_with(s, "simulation "@) { Some("simulation"@) }
     else if starts_with(s, "acknowledg"@) || starts_with(s, "aknowledg"@) { Some("acknowledgement"@) }
     else if starts_with(s, "proof"@) { Some("proof"@) }
     else if starts_with(s, "remark "@) { Some("remark"@) }
     else if starts_with(s, "experiment"@) { Some("experiment"@) }
     else if starts_with(s, "key word"@) || starts_with(s, "keyword"@) { Some("keywords"@) }
     else if starts_with(s, "introduction"@) { Some("introduction"@) }
     else if starts_with(s, "related work"@) { Some("related work"@) }
     else if starts_with(s, "background "@) { Some("background"@) }
     else if starts_with(s, "appendi"@) { Some("appendix"@) }
     else if starts_with(s, "notation"@) { Some("notation"@) }
     else if starts_with(s, "theorem"@) { Some("theorem"@) }
     else if starts_with(s, "lemma"@) { Some("lemma"@) }
     else if starts_with(s, "corollary"@) { Some("corollary"@) }
     else if starts_with(s, "proposition"@) { Some("proposition"@) }
     else if starts_with(s, "definition"@) { Some("definition"@) }
     else if starts_with(s, "axiom"@) { Some("axiom"@) }
     else if starts_with(s, "conjecture"@) || starts_with(s, "hypothesis"@) { Some("conjecture"@) }
     else if starts_with(s, "fact "@) { Some("fact"@) }
     else if starts_with(s, "problem "@) || starts_with(s, "exercise "@) { Some("problem"@) }
     else if starts_with(s, "question "@) { Some("question"@) }
     else if starts_with(s, "result"@) { Some("result"@) }
     else if starts_with(s, "msc"@) { Some("subject"@) }
     else if starts_with(s, "conclusion"@) || starts_with(s, "concluding remarks"@) { Some("conclusion"@) }
     else if starts_with(s, "summary "@) { Some("summary"@) }
     else if starts_with(s, "observation"@) { Some("observation"@) }
     else if starts_with(s, "model"@) { Some("model"@) }
     else if starts_with(s, "method"@) { Some("methods"@) }
     else if starts_with(s, "future"@) { Some("future work"@) }
     else if starts_with(s, "description"@) { Some("description"@) }
     else if starts_with(s, "discussion"@) { Some("discussion"@) }
     else if starts_with(s, "example"@) { Some("example"@) }
     else if starts_with(s, "properties"@) || starts_with(s, "property "@) { Some("property"@) }
     else if starts_with(s, "preliminaries "@) { Some("preliminaries"@) }
     else if starts_with(s, "condition "@) { Some("condition"@) }
     else if starts_with(s, "contribution "@) { Some("contribution"@) }
     else if starts_with(s, "analaysis"@) || starts_with(s, "analysis "@) { Some("analysis"@) }
     else if starts_with(s, "motivation "@) { Some("motivation"@) }
    else { None }
}
spec fn title_end(s: Seq<char>) -> Option<Seq<char>> {
    if ends_with(s, " demonstration"@) { Some("demonstration"@) }
     else if ends_with(s, " simulation"@) { Some("simulation"@) }
     else if ends_with(s, " proof"@) { Some("proof"@) }
     else if ends_with(s, " remark"@) { Some("remark"@) }
     else if ends_with(s, " notation"@) { Some("notation"@) }
     else if ends_with(s, " experiment"@) { Some("experiment"@) }
     else if ends_with(s, " theorem"@) { Some("theorem"@) }
     else if ends_with(s, " lemma"@) { Some("lemma"@) }
     else if ends_with(s, " corollary"@) { Some("corollary"@) }
     else if ends_with(s, " proposition"@) { Some("proposition"@) }
     else if ends_with(s, " definition"@) { Some("definition"@) }
     else if ends_with(s, " axiom"@) { Some("axiom"@) }
     else if ends_with(s, " conjecture"@) || ends_with(s, " hypothesis"@) { Some("conjecture"@) }
     else if ends_with(s, " conclusion"@) { Some("conclusion"@) }
     else if ends_with(s, " summary"@) { Some("summary"@) }
     else if ends_with(s, " problem"@) || ends_with(s, "exercise"@) { Some("problem"@) }
     else if ends_with(s, " question"@) { Some("question"@) }
     else if ends_with(s, " result"@) { Some("result"@) }
     else if ends_with(s, " method"@) { Some("methods"@) }
     else if ends_with(s, " model"@) { Some("model"@) }
     else if ends_with(s, " description"@) { Some("description"@) }
     else if ends_with(s, " discussion"@) { Some("discussion"@) }
     else if ends_with(s, " example"@) { Some("example"@) }
     else if ends_with(s, " property"@) || ends_with(s, " properties"@) { Some("property"@) }
     else if ends_with(s, " preliminaries"@) { Some("preliminaries"@) }
     else if ends_with(s, " condition"@) { Some("condition"@) }
     else if ends_with(s, " contribution"@) { Some("contribution"@) }
     else if ends_with(s, " analysis"@) { Some("analysis"@) }
     else if ends_with(s, " motivation"@) { Some("motivation"@) }
    else { None }
}
spec fn title_type(s: Seq<char>) -> Seq<char> { match title_exact(s) { Some(t) => t, None => match title_start(s) { Some(t) => t, None => match title_end(s) { Some(t) => t, None => s } } } }
spec fn heading_norm(s: Seq<char>) -> Seq<char> decreases s.len() via heading_norm_dec { let t = stripped(s); if t.len() == 0 { Seq::empty() } else if t != s { heading_norm(t) } else { title_type(s) } }
#[via_fn]
proof fn heading_norm_dec(s: Seq<char>) { lemma_stripped(s); }
// the canonical heading types and the names of the structural environments
spec fn is_type(s: Seq<char>) -> bool {
    s == "conjecture"@ || s == "implementation"@ || s == "subject"@ || s == "references"@ || s == "related work"@ || s == "preliminaries"@ || s == "analysis"@ || s == "background"@ || s == "example"@ || s == "problem"@ || s == "demonstration"@ || s == "result"@ || s == "simulation"@ || s == "acknowledgement"@ || s == "proof"@ || s == "remark"@ || s == "experiment"@ || s == "keywords"@ || s == "introduction"@ || s == "appendix"@ || s == "notation"@ || s == "theorem"@ || s == "lemma"@ || s == "corollary"@ || s == "proposition"@ || s == "definition"@ || s == "axiom"@ || s == "fact"@ || s == "question"@ || s == "conclusion"@ || s == "summary"@ || s == "observation"@ || s == "model"@ || s == "methods"@ || s == "future work"@ || s == "description"@ || s == "discussion"@ || s == "property"@ || s == "condition"@ || s == "contribution"@ || s == "motivation"@ || s == "abstract"@ || s == "application"@ || s == "assumption"@ || s == "case"@ || s == "claim"@ || s == "caption"@ || s == "data"@ || s == "dataset"@ || s == "step"@ || s == "theory"@ || s == "other"@
}
// a finite fact about the patterns, executed for every type on every run: they leave the types, and the empty text,
// alone, but for "methods", which loses its plural first
#[verifier::external_body]
proof fn axiom_types_kept(s: Seq<char>)
    ensures is_type(s) && s != "methods"@ || s.len() == 0 ==> stripped(s) == s, stripped("methods"@) == "method"@, stripped("method"@) == "method"@ {}
