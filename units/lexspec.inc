@include context.inc
@verbatim
// the lexeme annotations below a node, in document order
uninterp spec fn is_lexeme_annotation(n: RoNode) -> bool;
spec fn annos(n: RoNode) -> Seq<RoNode> decreases n.height(), 0nat { annos_upto(n, n.kids().len()) }
spec fn annos_upto(n: RoNode, k: nat) -> Seq<RoNode> decreases n.height(), 0nat, k {
    if k == 0 || k > n.kids().len() { Seq::empty() } else { let c = n.kids()[k - 1]; if c.height() < n.height() { annos_upto(n, (k - 1) as nat) + (if is_lexeme_annotation(c) { seq![c] } else { Seq::empty() }) + annos(c) } else { Seq::empty() } }
}
#[verifier::external_body]
proof fn axiom_xpath(n: RoNode) ensures xpath(".//*[local-name()='annotation' and @encoding='application/x-llamapun']"@, n) == annos(n) {}
// ---------- pieces of strings ----------
spec fn strs(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
spec fn refs(v: Seq<&str>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
spec fn joined(ws: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char> decreases ws.len() {
    if ws.len() == 0 { Seq::empty() } else if ws.len() == 1 { ws[0] } else { joined(ws.drop_last(), sep) + sep + ws.last() }
}
uninterp spec fn pieces(s: Seq<char>, p: Seq<char>) -> Seq<Seq<char>>;     // str::split
spec fn starts_with(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.take(p.len() as int) == p }
trait VxJoin { spec fn vx_parts(&self) -> Seq<Seq<char>>; fn vx_join(&self, sep: &str) -> (r: String) ensures r@ == joined(self.vx_parts(), sep@); }
impl<'a> VxJoin for Vec<&'a str> { spec fn vx_parts(&self) -> Seq<Seq<char>> { refs(self@) } #[verifier::external_body] fn vx_join(&self, sep: &str) -> (r: String) { self.join(sep) } }
impl VxJoin for Vec<String> { spec fn vx_parts(&self) -> Seq<Seq<char>> { strs(self@) } #[verifier::external_body] fn vx_join(&self, sep: &str) -> (r: String) { self.join(sep) } }
trait VxSplit { spec fn sp(&self) -> Seq<char>; fn vx_split(&self, p: &str) -> (r: Vec<&str>) ensures refs(r@) == pieces(self.sp(), p@);
    fn vx_starts_with(&self, p: &str) -> (r: bool) ensures r == starts_with(self.sp(), p@); }
impl VxSplit for str { spec fn sp(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_split(&self, p: &str) -> (r: Vec<&str>) { unimplemented!() } #[verifier::external_body] fn vx_starts_with(&self, p: &str) -> (r: bool) { self.starts_with(p) } }
impl VxSplit for String { spec fn sp(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_split(&self, p: &str) -> (r: Vec<&str>) { unimplemented!() } #[verifier::external_body] fn vx_starts_with(&self, p: &str) -> (r: bool) { self.starts_with(p) } }
impl VxFrom<char> for String { spec fn vx_from_seq(s: Seq<char>, r: String) -> bool { r@ == s } #[verifier::external_body] fn vx_build(v: Vec<char>) -> (r: String) { v.into_iter().collect() } }
// ---------- C16 ----------
// a space after every occurrence of the marker
spec fn space_after(s: Seq<char>, m: Seq<char>) -> Seq<char> { joined(pieces(s, m), m + " "@) }
spec fn end_marker() -> Seq<char> { "((?:OPFUNCTION|OPERATOR|OPEN|CLOSE|UNKNOWN|RELOP|ADDOP|MULOP|ARROW|BIGOP|BINOP|ID|OVERACCENT|UNDERACCENT):end)"@ }
// the words of an annotation after splitting around begin and end markers
spec fn lexeme_words(s: Seq<char>) -> Seq<Seq<char>> { white_words(space_after(space_after(re_replaced(end_marker(), s, " $1 "@), ":end"@), ":start"@)) }
spec fn plain_char(c: char) -> char { if c == ':' || c == '-' { '_' } else { c } }
spec fn lexeme(w: Seq<char>) -> Seq<char> {
    if starts_with(w, "NUM"@) { "NUM"@ } else if starts_with(w, "ARRAY"@) { "ARRAY"@ } else if starts_with(w, "ATOM"@) { "ATOM"@ } else if starts_with(w, "SUPERSCRIPTOP"@) { "SUPERSCRIPTOP"@ }
    else { Seq::new(w.len(), |i: int| plain_char(w[i])) }
}
spec fn lex_all(ws: Seq<Seq<char>>) -> Seq<Seq<char>> { Seq::new(ws.len(), |i: int| lexeme(ws[i])) }
// the words of all annotations, in order
spec fn all_words(ns: Seq<RoNode>) -> Seq<Seq<char>> decreases ns.len() { if ns.len() == 0 { Seq::empty() } else { all_words(ns.drop_last()) + lexeme_words(ns.last().content()) } }
spec fn lexeme_string(n: RoNode) -> Seq<char> { let ws = all_words(annos(n)); if ws.len() == 0 { "mathformula"@ } else { joined(lex_all(ws), " "@) } }
// neither blank, nor leading, trailing or double spaces
spec fn tidy(s: Seq<char>) -> bool { s.len() > 0 && !is_ws(s[0]) && !is_ws(s.last()) && forall|i: int| 0 <= i < s.len() - 1 ==> !(is_ws(#[trigger] s[i]) && is_ws(s[i + 1])) }
spec fn no_empty(ws: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < ws.len() ==> (#[trigger] ws[i]).len() > 0 }
spec fn clean(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> !is_ws(#[trigger] s[i]) }
proof fn lemma_plain(w: Seq<char>)
    requires is_word(w) ensures forall|s: Seq<char>| #![trigger s.len()] s.len() == w.len() && (forall|i: int| 0 <= i < w.len() ==> w[i] != '\n' ==> #[trigger] s[i] == plain_char(w[i])) ==> s == Seq::new(w.len(), |i: int| plain_char(w[i]))
{
    axiom_ascii_ws();
    assert forall|s: Seq<char>| #![trigger s.len()] s.len() == w.len() && (forall|i: int| 0 <= i < w.len() ==> w[i] != '\n' ==> #[trigger] s[i] == plain_char(w[i])) implies s == Seq::new(w.len(), |i: int| plain_char(w[i])) by {
        assert forall|i: int| 0 <= i < w.len() implies s[i] == plain_char(w[i]) by { assert(!is_ws(w[i])); assert(w[i] != '\n'); }
        assert(s =~= Seq::new(w.len(), |i: int| plain_char(w[i])));
    }
}
proof fn lemma_lexeme(w: Seq<char>)
    requires is_word(w) ensures is_word(lexeme(w))
{
    axiom_ascii_ws();
    reveal_strlit("NUM"); reveal_strlit("ARRAY"); reveal_strlit("ATOM"); reveal_strlit("SUPERSCRIPTOP");
    let l = lexeme(w);
    assert forall|i: int| 0 <= i < l.len() implies !is_ws(#[trigger] l[i]) by { if starts_with(w, "NUM"@) || starts_with(w, "ARRAY"@) || starts_with(w, "ATOM"@) || starts_with(w, "SUPERSCRIPTOP"@) { } else { assert(!is_ws(w[i])); } }
}
proof fn lemma_all_words(ns: Seq<RoNode>)
    ensures forall|i: int| 0 <= i < all_words(ns).len() ==> is_word(#[trigger] all_words(ns)[i])
    decreases ns.len()
{
    if ns.len() > 0 { lemma_all_words(ns.drop_last()); let s = space_after(space_after(re_replaced(end_marker(), ns.last().content(), " $1 "@), ":end"@), ":start"@); lemma_words(s);
        let a = all_words(ns.drop_last()); let b = white_words(s);
        assert forall|i: int| 0 <= i < all_words(ns).len() implies is_word(#[trigger] all_words(ns)[i]) by { if i < a.len() { assert(all_words(ns)[i] == a[i]); } else { assert(all_words(ns)[i] == b[i - a.len()]); } } }
}
// joining non-empty words without whitespace by single spaces is tidy
proof fn lemma_joined_tidy(ws: Seq<Seq<char>>)
    requires ws.len() > 0, forall|i: int| 0 <= i < ws.len() ==> is_word(#[trigger] ws[i])
    ensures tidy(joined(ws, " "@))
    decreases ws.len()
{
    axiom_ascii_ws(); reveal_strlit(" ");
    let j = joined(ws, " "@); let l = ws.last();
    assert(is_word(l));
    if ws.len() == 1 { assert(j == ws[0]); assert(!is_ws(j[0])); assert(!is_ws(j[j.len() - 1])); assert forall|i: int| 0 <= i < j.len() - 1 implies !(is_ws(#[trigger] j[i]) && is_ws(j[i + 1])) by { assert(!is_ws(j[i])); } }
    else {
        let p = joined(ws.drop_last(), " "@);
        assert forall|i: int| 0 <= i < ws.drop_last().len() implies is_word(#[trigger] ws.drop_last()[i]) by { assert(is_word(ws[i])); }
        lemma_joined_tidy(ws.drop_last());
        assert(j == p + " "@ + l);
        assert(j[0] == p[0]); assert(j.last() == l[l.len() - 1]); assert(!is_ws(l[l.len() - 1]));
        assert forall|i: int| 0 <= i < j.len() - 1 implies !(is_ws(#[trigger] j[i]) && is_ws(j[i + 1])) by {
            if i + 1 < p.len() { assert(j[i] == p[i] && j[i + 1] == p[i + 1]); } else if i + 1 == p.len() { assert(j[i] == p[i]); assert(p[i] == p.last()); }
            else if i == p.len() { assert(j[i + 1] == l[0]); assert(!is_ws(l[0])); } else { assert(j[i] == l[i - p.len() - 1]); }
        }
    }
}
proof fn lemma_joined_len(ws: Seq<Seq<char>>, sep: Seq<char>)
    requires ws.len() > 0, no_empty(ws) ensures joined(ws, sep).len() > 0 decreases ws.len()
{ if ws.len() > 1 { assert(ws.last().len() > 0); assert(joined(ws, sep) == joined(ws.drop_last(), sep) + sep + ws.last()); } else { assert(ws[0].len() > 0); } }
proof fn lemma_joined_add(a: Seq<Seq<char>>, b: Seq<Seq<char>>, sep: Seq<char>)
    requires a.len() > 0, b.len() > 0
    ensures joined(a + b, sep) == joined(a, sep) + sep + joined(b, sep)
    decreases b.len()
{
    let c = a + b; assert(c.last() == b.last());
    if b.len() == 1 { assert(c.drop_last() =~= a); assert(joined(b, sep) == b[0]); }
    else { assert(c.drop_last() =~= a + b.drop_last()); lemma_joined_add(a, b.drop_last(), sep);
        assert(joined(c, sep) =~= joined(a, sep) + sep + joined(b, sep)); }
}
spec fn is_join(w: Seq<char>, n: RoNode) -> bool { w == joined(lex_all(lexeme_words(n.content())), " "@) }
proof fn lemma_total(ms: Seq<String>, k: Seq<bool>, ns: Seq<RoNode>)
    requires ms.len() == ns.len(), k.len() == ns.len(), forall|i: int| 0 <= i < ns.len() ==> is_join((#[trigger] ms[i])@, ns[i]), forall|i: int| 0 <= i < ns.len() ==> #[trigger] k[i] == (ms[i]@.len() > 0)
    ensures joined(strs(vx_select(ms, k)), " "@) == joined(lex_all(all_words(ns)), " "@), (vx_select(ms, k).len() == 0) == (all_words(ns).len() == 0)
    decreases ns.len()
{
    if ns.len() == 0 { assert(strs(vx_select(ms, k)) =~= Seq::<Seq<char>>::empty()); assert(lex_all(all_words(ns)) =~= Seq::<Seq<char>>::empty()); }
    else {
        let n = ns.last(); let m1 = ms.drop_last(); let k1 = k.drop_last(); let n1 = ns.drop_last();
        assert forall|i: int| 0 <= i < n1.len() implies is_join((#[trigger] m1[i])@, n1[i]) by { assert(is_join(ms[i]@, ns[i])); }
        assert forall|i: int| 0 <= i < n1.len() implies #[trigger] k1[i] == (m1[i]@.len() > 0) by { assert(k[i] == (ms[i]@.len() > 0)); }
        lemma_total(m1, k1, n1);
        let s1 = vx_select(m1, k1); let a = all_words(n1); let b = lexeme_words(n.content());
        assert(is_join(ms[ns.len() - 1]@, ns[ns.len() - 1]));
        lemma_words(space_after(space_after(re_replaced(end_marker(), n.content(), " $1 "@), ":end"@), ":start"@));
        assert(forall|i: int| 0 <= i < b.len() ==> is_word(#[trigger] b[i]));
        assert(no_empty(lex_all(b))) by { assert forall|i: int| 0 <= i < b.len() implies (#[trigger] lex_all(b)[i]).len() > 0 by { lemma_lexeme(b[i]); } }
        assert(lex_all(all_words(ns)) =~= lex_all(a) + lex_all(b));
        if b.len() > 0 { lemma_joined_len(lex_all(b), " "@); } else { assert(lex_all(b) =~= Seq::<Seq<char>>::empty()); }
        assert(k.last() == (b.len() > 0));
        if k.last() {
            assert(strs(vx_select(ms, k)) =~= strs(s1) + seq![ms.last()@]);
            let one = seq![ms.last()@]; assert(joined(one, " "@) == ms.last()@);
            if s1.len() > 0 { lemma_joined_add(strs(s1), one, " "@); lemma_joined_add(lex_all(a), lex_all(b), " "@); }
            else { assert(strs(s1) + one =~= one); assert(lex_all(a) + lex_all(b) =~= lex_all(b)); }
        } else { assert(lex_all(a) + lex_all(b) =~= lex_all(a)); assert(all_words(ns) =~= a); }
    }
}
proof fn lemma_lexeme_string(n: RoNode)
    ensures all_words(annos(n)).len() > 0 ==> tidy(joined(lex_all(all_words(annos(n))), " "@)), tidy("mathformula"@)
{
    let ws = all_words(annos(n)); lemma_all_words(annos(n)); reveal_strlit("mathformula"); axiom_ascii_ws();
    assert forall|i: int| 0 <= i < ws.len() implies is_word(#[trigger] lex_all(ws)[i]) by { lemma_lexeme(ws[i]); }
    if ws.len() > 0 { lemma_joined_tidy(lex_all(ws)); }
}
