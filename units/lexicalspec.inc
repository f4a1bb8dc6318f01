@verbatim
// ---------- C27 ----------
spec fn f_alnum() -> spec_fn(char) -> bool { |c: char| alnum(c) }
// the characters of s satisfying f, in order
spec fn kept(s: Seq<char>, f: spec_fn(char) -> bool) -> Seq<char> decreases s.len() { if s.len() == 0 { s } else { kept(s.drop_last(), f) + if f(s.last()) { seq![s.last()] } else { Seq::empty() } } }
proof fn lemma_kept(s: Seq<char>, k: Seq<bool>)
    requires k.len() == s.len(), forall|i: int| 0 <= i < k.len() ==> #[trigger] k[i] == alnum(s[i])
    ensures vx_select(s, k) == kept(s, f_alnum())
    decreases s.len()
{ if s.len() > 0 { let k1 = k.drop_last(); assert forall|i: int| 0 <= i < k1.len() implies #[trigger] k1[i] == alnum(s.drop_last()[i]) by { assert(k[i] == alnum(s[i])); } lemma_kept(s.drop_last(), k1); assert(k.last() == alnum(s.last())); assert(vx_select(s, k) =~= kept(s, f_alnum())); } else { assert(vx_select(s, k) =~= kept(s, f_alnum())); } }
spec fn has_part(s: Seq<char>, p: Seq<char>) -> bool { exists|i: int| 0 <= i <= s.len() - p.len() && #[trigger] s.subrange(i, i + p.len()) == p }
spec fn numeric_pattern() -> Seq<char> { r"^-?(?:\d+)(?:[a-k]|(?:\.\d+(?:[eE][+-]?\d+)?))?$"@ }
// the word a range stands for, before placeholders and numbers are looked at
spec fn bare_word(t: Seq<char>, o: LexicalOptions) -> Seq<char> { let l = if o.discard_case { str_low(t) } else { t }; if o.discard_punct { kept(l, f_alnum()) } else { l } }
spec fn too_long(t: Seq<char>, o: LexicalOptions) -> bool { blen(bare_word(t, o)) > 25 }
spec fn normal_word(t: Seq<char>, n: RoNode, o: LexicalOptions) -> Seq<char> {
    let w = bare_word(t, o);
    if has_part(str_low(w), "mathformula"@) { if o.discard_math { Seq::empty() } else { lexeme_string(n) } }
    else if has_part(str_low(w), "citationelement"@) { "citationelement"@ }
    else if re_match(numeric_pattern(), w) { "NUM"@ }
    else { w }
}
trait VxContains { spec fn cq(&self) -> Seq<char>; fn vx_contains(&self, p: &str) -> (r: bool) ensures r == has_part(self.cq(), p@); }
impl VxContains for String { spec fn cq(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_contains(&self, p: &str) -> (r: bool) { self.contains(p) } }
impl VxContains for str { spec fn cq(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_contains(&self, p: &str) -> (r: bool) { self.contains(p) } }
#[verifier::external_body]
fn vx_string_new() -> (r: String) ensures r@.len() == 0 { String::new() }
proof fn lemma_kept_all(s: Seq<char>)
    ensures forall|k: Seq<bool>| #![trigger vx_select(s, k)] k.len() == s.len() && (forall|i: int| 0 <= i < k.len() ==> #[trigger] k[i] == alnum(s[i])) ==> vx_select(s, k) == kept(s, f_alnum())
{ assert forall|k: Seq<bool>| #![trigger vx_select(s, k)] k.len() == s.len() && (forall|i: int| 0 <= i < k.len() ==> #[trigger] k[i] == alnum(s[i])) implies vx_select(s, k) == kept(s, f_alnum()) by { lemma_kept(s, k); } }
