@verbatim
// ---------- str::split_whitespace: the maximal pieces without whitespace, in order ----------
spec fn tail_len(s: Seq<char>) -> nat decreases s.len() { if s.len() > 0 && !is_ws(s.last()) { 1 + tail_len(s.drop_last()) } else { 0 } }
proof fn lemma_tail_len(s: Seq<char>)
    ensures tail_len(s) <= s.len(), forall|i: int| s.len() - tail_len(s) <= i < s.len() ==> !is_ws(#[trigger] s[i]), tail_len(s) < s.len() ==> is_ws(s[s.len() - tail_len(s) - 1])
    decreases s.len()
{ if s.len() > 0 && !is_ws(s.last()) { let t = s.drop_last(); lemma_tail_len(t); assert forall|i: int| s.len() - tail_len(s) <= i < s.len() implies !is_ws(#[trigger] s[i]) by { if i < t.len() { assert(!is_ws(t[i])); } } } }
spec fn white_words(s: Seq<char>) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else if is_ws(s.last()) { white_words(s.drop_last()) }
    else { let k = s.len() - tail_len(s); if 0 <= k < s.len() { white_words(s.take(k)).push(s.skip(k)) } else { Seq::empty() } }
}
spec fn is_word(w: Seq<char>) -> bool { w.len() > 0 && forall|i: int| 0 <= i < w.len() ==> !is_ws(#[trigger] w[i]) }
proof fn lemma_words(s: Seq<char>)
    ensures forall|k: int| 0 <= k < white_words(s).len() ==> is_word(#[trigger] white_words(s)[k])
    decreases s.len()
{
    if s.len() == 0 { assert(white_words(s) =~= Seq::<Seq<char>>::empty()); } else { if is_ws(s.last()) { lemma_words(s.drop_last()); assert(white_words(s) == white_words(s.drop_last())); } else { lemma_tail_len(s); let k = s.len() - tail_len(s); lemma_words(s.take(k)); assert(tail_len(s) == 1 + tail_len(s.drop_last())); assert(white_words(s) == white_words(s.take(k)).push(s.skip(k)));
        assert(is_word(s.skip(k))) by { assert forall|i: int| 0 <= i < s.skip(k).len() implies !is_ws(#[trigger] s.skip(k)[i]) by { assert(!is_ws(s[k + i])); } } } }
}
trait VxWords { fn vx_split_whitespace(&self) -> Vec<&str>; }
impl VxWords for String { #[verifier::external_body] fn vx_split_whitespace(&self) -> (r: Vec<&str>) ensures r@.len() == white_words(self@).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == white_words(self@)[i] { self.split_whitespace().collect() } }
impl VxWords for str { #[verifier::external_body] fn vx_split_whitespace(&self) -> (r: Vec<&str>) ensures r@.len() == white_words(self@).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == white_words(self@)[i] { self.split_whitespace().collect() } }
trait VxOrDefault { fn vx_unwrap_or_default(self) -> String; }
impl VxOrDefault for Option<String> { fn vx_unwrap_or_default(self) -> (r: String) ensures r@ == match self { Some(s) => s@, None => Seq::<char>::empty() } { match self { Some(s) => s, None => String::new() } } }
spec fn class_names(n: RoNode) -> Seq<Seq<char>> { white_words(match n.prop("class"@) { Some(s) => s, None => Seq::<char>::empty() }) }
// char::is_whitespace on ASCII
#[verifier::external_body]
proof fn axiom_ascii_ws() ensures forall|c: char| (c as u32) < 0x80 ==> #[trigger] is_ws(c) == (c == ' ' || c == '\t' || c == '\n' || c == '\r' || (c as u32) == 0x0b || (c as u32) == 0x0c) {}
