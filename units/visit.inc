@include words.inc
@include lower.inc
@verbatim
// ---------- external text functions ----------
uninterp spec fn unidec(c: char) -> Seq<char>;             // unidecode::unidecode_char
uninterp spec fn stem1(s: Seq<char>) -> Seq<char>;         // rustmorpha::stem
uninterp spec fn stem_full(s: Seq<char>) -> Seq<char>;     // rustmorpha::full_stem
uninterp spec fn fn_token(f: VxTokenFn, n: RoNode) -> Seq<char>;   // the replacement function of a rule
spec fn spread_chars(s: Seq<char>, f: spec_fn(char) -> Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 { s } else { spread_chars(s.drop_last(), f) + f(s.last()) } }
spec fn spread_offs(s: Seq<char>, o: Seq<i32>, f: spec_fn(char) -> Seq<char>) -> Seq<i32> decreases s.len() {
    if s.len() == 0 || o.len() == 0 { Seq::empty() } else { spread_offs(s.drop_last(), o.drop_last(), f) + Seq::new(f(s.last()).len(), |i: int| o.last()) }
}
spec fn f_unidec() -> spec_fn(char) -> Seq<char> { |c: char| unidec(c) }
spec fn f_low() -> spec_fn(char) -> Seq<char> { |c: char| low(c) }
#[verifier::external_body]
fn unidecode_char(c: char) -> (r: &'static str) ensures r@ == unidec(c) { unimplemented!() }
// unidecode transliterates character by character
#[verifier::external_body]
fn unidecode(s: &String) -> (r: String) ensures r@ == spread_chars(s@, f_unidec()) { unimplemented!() }
#[verifier::external_body]
fn vx_full_stem(s: &String) -> (r: String) ensures r@ == stem_full(s@) { unimplemented!() }
#[verifier::external_body]
fn vx_stem(s: &String) -> (r: String) ensures r@ == stem1(s@) { unimplemented!() }
// lowercasing a string expands each character as lowercasing it alone does (only the form of a final sigma differs)
#[verifier::external_body]
proof fn axiom_low(s: Seq<char>) ensures str_low(s).len() == spread_chars(s, f_low()).len() {}
// libxml stores node contents with int lengths
#[verifier::external_body]
proof fn axiom_content_size(n: RoNode) ensures n.content().len() < i32::MAX - 1 {}
impl VxTokenFn { #[verifier::external_body] fn vx_call(&self, n: RoNode) -> (r: String) ensures r@ == fn_token(*self, n) { unimplemented!() } }
trait VxLen { spec fn vx_ln(&self) -> nat; fn vx_len(&self) -> (r: usize) ensures r == self.vx_ln(); }
impl<T> VxLen for Vec<T> { spec fn vx_ln(&self) -> nat { self@.len() } fn vx_len(&self) -> (r: usize) { self.len() } }

// ---------- what building a document model means ----------
struct St { chars: Seq<char>, back: Seq<(RoNode, i32)>, ws: bool, map: Map<usize, (usize, usize)> }
enum Pol { Enter, Skip, Token(Seq<char>) }
spec fn pol_of(o: SpecialTagsOption, n: RoNode) -> Pol {
    match o { SpecialTagsOption::Enter => Pol::Enter, SpecialTagsOption::Skip => Pol::Skip, SpecialTagsOption::Normalize(t) => Pol::Token(t@), SpecialTagsOption::FunctionNormalize(f) => Pol::Token(fn_token(f, n)) }
}
// the rule of the k-th candidate: the classes in order, then the tag name
spec fn rule_at(p: DNMParameters, n: RoNode, k: int) -> Option<SpecialTagsOption> {
    let cs = class_names(n);
    if k < cs.len() { if p.special_tag_class_options@.dom().contains(cs[k]) { Some(p.special_tag_class_options@[cs[k]]) } else { None } }
    else if p.special_tag_name_options@.dom().contains(n.name()) { Some(p.special_tag_name_options@[n.name()]) } else { None }
}
// the first candidate with a rule decides
spec fn policy_from(p: DNMParameters, n: RoNode, k: int) -> Pol decreases class_names(n).len() + 1 - k {
    if k > class_names(n).len() { Pol::Enter } else { match rule_at(p, n, k) { Some(o) => pol_of(o, n), None => policy_from(p, n, k + 1) } }
}
spec fn policy(p: DNMParameters, n: RoNode) -> Pol { policy_from(p, n, 0) }
// a space that belongs to a replaced element
spec fn space(p: DNMParameters, n: RoNode, s: St) -> St {
    if p.normalize_white_spaces && s.ws { s } else { St { chars: s.chars.push(' '), back: if p.support_back_mapping { s.back.push((n, -1i32)) } else { s.back }, ws: p.normalize_white_spaces, map: s.map } }
}
spec fn put_token(p: DNMParameters, n: RoNode, t: Seq<char>, s: St) -> St {
    St { chars: s.chars + t, back: if p.support_back_mapping { s.back + Seq::new(t.len(), |i: int| (n, -1i32)) } else { s.back }, ws: false, map: s.map }
}
spec fn token(p: DNMParameters, n: RoNode, t: Seq<char>, s: St) -> St {
    if p.wrap_tokens { space(p, n, put_token(p, n, t, space(p, n, s))) } else { put_token(p, n, t, s) }
}
// text nodes
spec fn iota(n: nat) -> Seq<i32> { Seq::new(n, |i: int| i as i32) }
spec fn uni_chars(p: DNMParameters, s: Seq<char>) -> Seq<char> { if p.normalize_unicode { spread_chars(s, f_unidec()) } else { s } }
spec fn stem_chars(p: DNMParameters, s: Seq<char>) -> Seq<char> { if p.stem_words_full { stem_full(s) } else if p.stem_words_once { stem1(s) } else { s } }
spec fn low_chars(p: DNMParameters, s: Seq<char>) -> Seq<char> { if p.convert_to_lowercase { str_low(s) } else { s } }
spec fn prep_chars(p: DNMParameters, s: Seq<char>) -> Seq<char> { low_chars(p, stem_chars(p, uni_chars(p, s))) }
spec fn uni_offs(p: DNMParameters, s: Seq<char>) -> Seq<i32> { if p.normalize_unicode { spread_offs(s, iota(s.len()), f_unidec()) } else { iota(s.len()) } }
spec fn prep_offs(p: DNMParameters, s: Seq<char>) -> Seq<i32> {
    if p.convert_to_lowercase { spread_offs(uni_chars(p, s), uni_offs(p, s), f_low()) } else { uni_offs(p, s) }
}
// whitespace normalisation: a whitespace character is kept (as a space) iff none precedes it directly
spec fn ws_before(s: Seq<char>, ws: bool, i: int) -> bool { if i == 0 { ws } else { is_ws(s[i - 1]) } }
spec fn keep(s: Seq<char>, ws: bool, i: int) -> bool { !is_ws(s[i]) || !ws_before(s, ws, i) }
spec fn norm_chars(s: Seq<char>, ws: bool, k: int) -> Seq<char> decreases k {
    if k <= 0 { Seq::empty() } else if keep(s, ws, k - 1) { norm_chars(s, ws, k - 1).push(if is_ws(s[k - 1]) { ' ' } else { s[k - 1] }) } else { norm_chars(s, ws, k - 1) }
}
spec fn norm_offs(s: Seq<char>, o: Seq<i32>, ws: bool, k: int) -> Seq<i32> decreases k {
    if k <= 0 { Seq::empty() } else if keep(s, ws, k - 1) { norm_offs(s, o, ws, k - 1).push(o[k - 1]) } else { norm_offs(s, o, ws, k - 1) }
}
spec fn text_chars(p: DNMParameters, n: RoNode, ws: bool) -> Seq<char> {
    let s = prep_chars(p, n.content()); if p.normalize_white_spaces { norm_chars(s, ws, s.len() as int) } else { s }
}
spec fn text_offs(p: DNMParameters, n: RoNode, ws: bool) -> Seq<i32> {
    let s = prep_chars(p, n.content()); let o = prep_offs(p, n.content()); if p.normalize_white_spaces { norm_offs(s, o, ws, s.len() as int) } else { o }
}
spec fn text_back(p: DNMParameters, n: RoNode, ws: bool) -> Seq<(RoNode, i32)> { Seq::new(text_offs(p, n, ws).len(), |i: int| (n, text_offs(p, n, ws)[i])) }
spec fn text_state(p: DNMParameters, n: RoNode, s: St) -> St {
    let t = prep_chars(p, n.content());
    St { chars: s.chars + text_chars(p, n, s.ws), back: if p.support_back_mapping { s.back + text_back(p, n, s.ws) } else { s.back },
         ws: p.normalize_white_spaces && ws_before(t, s.ws, t.len() as int), map: s.map }
}
spec fn record(n: RoNode, start: int, s: St) -> St { St { map: s.map.insert(n.hash(), (start as usize, s.chars.len() as usize)), ..s } }
// visiting a node; the first k children of an entered element
spec fn visit(p: DNMParameters, n: RoNode, s: St) -> St decreases n.height(), 1nat, 0nat {
    record(n, s.chars.len() as int,
        if n.is_text() { text_state(p, n, s) } else { match policy(p, n) { Pol::Token(t) => token(p, n, t, s), Pol::Skip => s, Pol::Enter => visit_kids(p, n, n.kids().len(), s) } })
}
spec fn visit_kids(p: DNMParameters, n: RoNode, k: nat, s: St) -> St decreases n.height(), 0nat, k
{
    if k == 0 || k > n.kids().len() { s } else { let c = n.kids()[k - 1]; if c.height() < n.height() { visit(p, c, visit_kids(p, n, (k - 1) as nat, s)) } else { s } }
}
impl DNM {
    spec fn st(&self) -> St { St { chars: self.runtime.chars@, back: self.back_map@, ws: self.parameters.normalize_white_spaces && self.runtime.had_whitespace, map: self.node_map@ } }
    // the parts that building never touches
    spec fn frame(&self, o: DNM) -> bool { self.parameters == o.parameters && self.root_node == o.root_node && self.plaintext == o.plaintext && self.byte_offsets == o.byte_offsets }
}
spec fn consistent(p: DNMParameters) -> bool { !(p.support_back_mapping && (p.stem_words_full || p.stem_words_once)) }
