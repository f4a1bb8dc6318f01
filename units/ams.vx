@include prelude.inc
@include eq.inc
@include text.inc
@include lower.inc
@include regex.inc
@verbatim
// ---------- fmt::Formatter: the text written so far ----------
struct VxFmtErr {}
struct VxFmt { text: String }
impl VxFmt {
    #[verifier::external_body] fn write_str(&mut self, s: &str) -> (r: Result<(), VxFmtErr>) ensures r is Ok ==> final(self).text@ == old(self).text@ + s@ { unimplemented!() }
}
// ---------- the table of AMS environment names: a function of the text; that it knows the printed
// names is a finite fact, executed for every name ----------
uninterp spec fn env_named(s: Seq<char>) -> AmsEnv;
#[verifier::external_body] fn vx_normalize_env(s: &str) -> (r: AmsEnv) ensures r == env_named(s@) { unimplemented!() }
// ---------- what one capture group `marker(\w+)` finds: the first marker followed by a word ----------
uninterp spec fn word_char(c: char) -> bool;               // \w
spec fn word_run(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && word_char(s[0]) { seq![s[0]] + word_run(s.skip(1)) } else { Seq::empty() } }
spec fn begins(s: Seq<char>, m: Seq<char>) -> bool { s.len() >= m.len() && s.take(m.len() as int) == m }
spec fn marked_word(s: Seq<char>, m: Seq<char>) -> Option<Seq<char>> decreases s.len() {
    if begins(s, m) && word_run(s.skip(m.len() as int)).len() > 0 { Some(word_run(s.skip(m.len() as int))) } else if s.len() == 0 { None } else { marked_word(s.skip(1), m) }
}
spec fn contains_at(s: Seq<char>, m: Seq<char>) -> bool { exists|i: int| 0 <= i && i + m.len() <= s.len() && #[trigger] s.subrange(i, i + m.len()) == m }
uninterp spec fn re_group(pat: Seq<char>, s: Seq<char>, k: int) -> Option<Seq<char>>;
spec fn marker_pattern() -> Seq<char> { "ltx_theorem_(\\w+)"@ }
// regex semantics of the one pattern used
#[verifier::external_body]
proof fn axiom_marker(s: Seq<char>)
    ensures re_group(marker_pattern(), s, 1) == marked_word(s, "ltx_theorem_"@), (re_group(marker_pattern(), s, 0) is Some) == (re_group(marker_pattern(), s, 1) is Some) {}
#[verifier::external_body] struct VxCaps<'t> { _p: &'t str }
#[verifier::external_body] struct VxMatch<'t> { _p: &'t str }
impl<'t> VxCaps<'t> {
    uninterp spec fn pat(&self) -> Seq<char>;
    uninterp spec fn of(&self) -> Seq<char>;
    #[verifier::external_body] fn get(&self, k: usize) -> (r: Option<VxMatch<'t>>) ensures (r is Some) == (re_group(self.pat(), self.of(), k as int) is Some), r is Some ==> (r->0).of() == re_group(self.pat(), self.of(), k as int)->0 { unimplemented!() }
}
impl<'t> VxMatch<'t> {
    uninterp spec fn of(&self) -> Seq<char>;
    #[verifier::external_body] fn as_str(&self) -> (r: &'t str) ensures r@ == self.of() { unimplemented!() }
}
impl Regex {
    #[verifier::external_body] fn captures<'t>(&self, s: &'t str) -> (r: Option<VxCaps<'t>>) ensures (r is Some) == (re_group(self.pat(), s@, 0) is Some), r is Some ==> (r->0).pat() == self.pat() && (r->0).of() == s@ { unimplemented!() }
}
trait VxFind { fn vx_contains(&self, m: &str) -> bool; }
impl VxFind for str { #[verifier::external_body] fn vx_contains(&self, m: &str) -> (r: bool) ensures r == contains_at(self@, m@) { self.contains(m) } }
@method contains => vx_contains
@method to_lowercase => vx_to_lowercase
@include titlespec.inc
@include titletypes.inc
@contracts titlefns.inc
@path data_helpers::normalize_heading_title => normalize_heading_title
@path normalize_env => vx_normalize_env
@path fmt::Formatter => VxFmt
@path fmt::Result => Result::<(), VxFmtErr>
@src src/ams.rs
@type StructuralEnv
@type AmsEnv
@namespec Display for StructuralEnv::fmt printed_s StructuralEnv
@namespec Display for AmsEnv::fmt printed_a AmsEnv
@fn Display for StructuralEnv::fmt
@inherent impl StructuralEnv
@props C26
@ret r
@contract
    ensures r is Ok ==> final(fmt).text@ == old(fmt).text@ + printed_s(*self), forall|f: StructuralEnv| #[trigger] printed_s(f) == printed_s(*self) ==> f == *self
@at entry
    proof { VX_REVEAL_LITS; }
@fn Display for AmsEnv::fmt
@inherent impl AmsEnv
@props C26
@ret r
@contract
    ensures r is Ok ==> final(fmt).text@ == old(fmt).text@ + printed_a(*self), forall|f: AmsEnv| #[trigger] printed_a(f) == printed_a(*self) ==> f == *self
@at entry
    proof { VX_REVEAL_LITS; }
@fn From for StructuralEnv::from
@inherent impl StructuralEnv
@props C26
@ret r
@contract
    // in any letter case, the printed name of an environment is that environment
    ensures forall|e: StructuralEnv| str_low(heading@) == #[trigger] printed_s(e) ==> r == e, forall|e: StructuralEnv| heading_norm(str_low(heading@)) == #[trigger] printed_s(e) ==> r == e
@at entry
    proof { VX_REVEAL_LITS; if exists|e: StructuralEnv| str_low(heading@) == #[trigger] printed_s(e) { lemma_name_kept(str_low(heading@)); } }
@fn static:AMS_ENV
@props C26
@ret r
@contract
    ensures r.pat() == marker_pattern()
@fn class_to_env
@props C26
@ret r
@contract
    ensures r == env_of_class(class@)
@opt eq-call
@at entry
    proof { axiom_marker(class@); reveal_strlit("ltx_theorem"); reveal_strlit("ltx_proof"); assert("ltx_proof"@.len() == 9); }
@verbatim
spec fn env_of_class(c: Seq<char>) -> Option<AmsEnv> {
    if !contains_at(c, "ltx_theorem"@) { if c == "ltx_proof"@ { Some(AmsEnv::Proof) } else { None } }
    else { match marked_word(c, "ltx_theorem_"@) { None => Some(AmsEnv::Theorem), Some(w) => Some(env_named(w)) } }
}
