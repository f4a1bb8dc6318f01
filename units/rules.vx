@include prelude.inc
@include hashmap.inc
@include eq.inc
@include text.inc
@include node.inc
@include dnmtypes.inc
@method is_empty => vx_is_empty
@method to_string => vx_to_string
@method iter => vx_iter
@method map => vx_map
@method collect => vx_collect
@method split => vx_split
@method trim => vx_trim
@method unwrap_or_default => vx_or_default
@method ne => vx_ne
@method as_ref => vx_as_ref
@contracts utilfns.inc
@include patterns.inc
@verbatim
// ---------- assumed: std and senna ----------
uninterp spec fn split_at(s: Seq<char>, c: char) -> Seq<Seq<char>>;         // str::split
trait VxSplitC { fn vx_split(&self, c: char) -> Vec<&str>; }
impl VxSplitC for String { #[verifier::external_body] fn vx_split(&self, c: char) -> (r: Vec<&str>) ensures r@.len() == split_at(self@, c).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == split_at(self@, c)[i] { self.split(c).collect() } }
trait VxOrDefault { fn vx_or_default(self) -> String; }
impl VxOrDefault for Option<String> { #[verifier::external_body] fn vx_or_default(self) -> (r: String) ensures r@ == (match self { Some(s) => s@, None => Seq::empty() }) { self.unwrap_or_default() } }
trait VxStrRef { fn vx_as_ref(&self) -> &str; }
impl VxStrRef for String { #[verifier::external_body] fn vx_as_ref(&self) -> (r: &str) ensures r@ == self@ { self.as_ref() } }
trait VxOptRef<T> { fn vx_as_ref(&self) -> Option<&T>; }
impl<T> VxOptRef<T> for Option<T> { fn vx_as_ref(&self) -> (r: Option<&T>) ensures r == (match *self { Some(x) => Some(&x), None => None }) { self.as_ref() } }
trait VxNe { fn vx_ne(&self, o: &str) -> bool; }
impl VxNe for String { #[verifier::external_body] fn vx_ne(&self, o: &str) -> (r: bool) ensures r == (self@ != o@) { self.ne(o) } }
uninterp spec fn pos_tags() -> Map<Seq<char>, POS>;
uninterp spec fn phrase_tags() -> Map<Seq<char>, Phrase>;
impl POS { #[verifier::external_body] fn generate_str_to_pos_map<'t>() -> (r: HashMap<&'t str, POS>) ensures r@ == pos_tags() { unimplemented!() } }
impl Phrase { #[verifier::external_body] fn generate_str_to_phrase_map<'t>() -> (r: HashMap<&'t str, Phrase>) ensures r@ == phrase_tags() { unimplemented!() } }
impl Clone for WordRule { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for PosRule { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for MathRule { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for MTextRule { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for SequenceRule { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for MetaDescription { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
// libxml: the root element of a file, if the file parses
uninterp spec fn parsed_file(name: Seq<char>) -> Option<Option<RoNode>>;
#[verifier::external_body] struct XDoc { _p: usize }
#[verifier::external_body] struct XParser { _p: usize }
struct XParseErr {}
impl XParser {
    #[verifier::external_body] fn default() -> XParser { unimplemented!() }
    #[verifier::external_body] fn parse_file(&self, name: &str) -> (r: Result<XDoc, XParseErr>) ensures r is Ok == parsed_file(name@) is Some, r is Ok ==> Some((r->Ok_0).root()) == parsed_file(name@) { unimplemented!() }
}
impl XDoc { uninterp spec fn root(&self) -> Option<RoNode>; #[verifier::external_body] fn get_root_readonly(&self) -> (r: Option<RoNode>) ensures r == self.root() { unimplemented!() } }
@path Parser::default => XParser::default
@src src/patterns/rules.rs
@type PCtx
@verbatim
// ---------- what a pattern file says ----------
spec fn elems(n: RoNode) -> Seq<RoNode> { keep(n.kids()) }
spec fn listed(n: RoNode) -> bool { blank_texts(n.kids()) }
spec fn leaf(n: RoNode) -> bool { listed(n) && elems(n).len() == 0 }
spec fn only(n: RoNode) -> bool { listed(n) && elems(n).len() == 1 }
proof fn lemma_keep_in(s: Seq<RoNode>) ensures forall|i: int| 0 <= i < keep(s).len() ==> s.contains(#[trigger] keep(s)[i]) decreases s.len() {
    if s.len() > 0 { let t = s.drop_last(); lemma_keep_in(t); assert forall|i: int| 0 <= i < keep(s).len() implies s.contains(#[trigger] keep(s)[i]) by {
        if i < keep(t).len() { let j = choose|j: int| 0 <= j < t.len() && t[j] == keep(t)[i]; assert(s[j] == keep(s)[i]); } else { assert(s[s.len() - 1] == keep(s)[i]); } } }
}
proof fn lemma_elems(n: RoNode) ensures forall|i: int| 0 <= i < elems(n).len() ==> (#[trigger] elems(n)[i]).height() < n.height() {
    n.axiom_tree(); lemma_keep_in(n.kids());
    assert forall|i: int| 0 <= i < elems(n).len() implies (#[trigger] elems(n)[i]).height() < n.height() by { let j = choose|j: int| 0 <= j < n.kids().len() && n.kids()[j] == elems(n)[i]; assert(n.kids()[j].height() < n.height()); }
}
// the element children are lower than the node, two levels down
proof fn lemma_lower(n: RoNode) ensures forall|i: int| 0 <= i < elems(n).len() ==> (#[trigger] elems(n)[i]).height() < n.height(), forall|i: int, j: int| #![trigger elems(elems(n)[i])[j]] 0 <= i < elems(n).len() && 0 <= j < elems(elems(n)[i]).len() ==> elems(elems(n)[i])[j].height() < n.height() {
    lemma_elems(n);
    assert forall|i: int, j: int| #![trigger elems(elems(n)[i])[j]] 0 <= i < elems(n).len() && 0 <= j < elems(elems(n)[i]).len() implies elems(elems(n)[i])[j].height() < n.height() by { lemma_elems(elems(n)[i]); }
}
type Names = Map<Seq<char>, usize>;
struct Maps { word: Names, seq: Names, math: Names, mtext: Names, pos: Names }
spec fn sub(a: Names, b: Names) -> bool { forall|k: Seq<char>| #[trigger] a.dom().contains(k) ==> b.dom().contains(k) && b[k] == a[k] }
spec fn subm(a: Maps, b: Maps) -> bool { sub(a.word, b.word) && sub(a.seq, b.seq) && sub(a.math, b.math) && sub(a.mtext, b.mtext) && sub(a.pos, b.pos) }
// the reference of n is the name of rule i
spec fn refs(m: Names, n: RoNode, i: usize) -> bool { n.prop("ref"@) is Some && m.dom().contains(n.prop("ref"@)->0) && m[n.prop("ref"@)->0] == i }
spec fn marker_of(n: RoNode, k: PatternMarker) -> bool {
    n.prop("name"@) == Some(k.name@) && match n.prop("tags"@) { None => k.tags@.len() == 0, Some(v) => k.tags@.len() == split_at(v, ',').len() && forall|i: int| 0 <= i < k.tags@.len() ==> (#[trigger] k.tags@[i])@ == trimmed_start(trimmed_end(split_at(v, ',')[i])) }
}
spec fn children_ty(s: Seq<char>) -> Option<MathChildrenMatchType> { if s == "starts_with"@ { Some(MathChildrenMatchType::StartsWith) } else if s == "exact"@ { Some(MathChildrenMatchType::MatchesExactly) } else if s == "ends_with"@ { Some(MathChildrenMatchType::EndsWith) } else if s == "arbitrary"@ { Some(MathChildrenMatchType::Arbitrary) } else { None } }
spec fn descendant_ty(s: Seq<char>) -> Option<MathDescendantMatchType> { if s == "first"@ { Some(MathDescendantMatchType::First) } else if s == "at_least_one"@ { Some(MathDescendantMatchType::AtLeastOne) } else if s == "arbitrary"@ { Some(MathDescendantMatchType::Arbitrary) } else { None } }
spec fn phrase_ty(s: Seq<char>) -> Option<PhraseMatchType> { if s == "shortest"@ { Some(PhraseMatchType::Shortest) } else if s == "longest"@ { Some(PhraseMatchType::Longest) } else { None } }
spec fn containment(n: RoNode) -> Option<SequenceContainment> { match n.prop("containment"@) { None => Some(SequenceContainment::Any), Some(s) => if s == "lessorequal"@ { Some(SequenceContainment::LessOrEqual) } else if s == "any"@ { Some(SequenceContainment::Any) } else { None } } }
spec fn seq_ty(n: RoNode) -> Option<SequenceMatchType> { match n.prop("match_type"@) { None => Some(SequenceMatchType::First), Some(s) => if s == "first"@ { Some(SequenceMatchType::First) } else if s == "atleastone"@ { Some(SequenceMatchType::AtLeastOne) } else if s == "any"@ { Some(SequenceMatchType::Any) } else if s == "longest"@ { Some(SequenceMatchType::Longest) } else { None } } }
spec fn opt_str(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
spec fn attr_ty<T>(n: RoNode, f: spec_fn(Seq<char>) -> Option<T>, t: T) -> bool { n.prop("match_type"@) is Some && f(n.prop("match_type"@)->0) == Some(t) }
spec fn none(s: Seq<RoNode>, nm: Seq<char>) -> bool { forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).name() != nm }
spec fn sole(s: Seq<RoNode>, nm: Seq<char>, k: int) -> bool { 0 <= k < s.len() && s[k].name() == nm && forall|j: int| 0 <= j < s.len() && j != k ==> (#[trigger] s[j]).name() != nm }
spec fn one(b: bool) -> int { if b { 1 } else { 0 } }

spec fn mtext_is(n: RoNode, p: MTextPattern, m: Maps) -> bool decreases p {
    match p {
        MTextPattern::AnyMText => n.name() == "mtext_any"@ && leaf(n),
        MTextPattern::MTextOr(v) => n.name() == "mtext_or"@ && listed(n) && v@.len() == elems(n).len() && forall|i: int| 0 <= i < v@.len() ==> mtext_is(elems(n)[i], #[trigger] v[i], m),
        MTextPattern::MTextLit(s) => n.name() == "mtext_lit"@ && leaf(n) && n.prop("str"@) == Some(s@),
        MTextPattern::MTextNot(q) => n.name() == "mtext_not"@ && only(n) && mtext_is(elems(n)[0], *q, m),
        MTextPattern::MTextRef(i) => n.name() == "mtext_ref"@ && leaf(n) && refs(m.mtext, n, i),
    }
}
spec fn pos_is(n: RoNode, p: PosPattern, m: Maps) -> bool decreases p {
    match p {
        PosPattern::Pos(t) => n.name() == "pos"@ && leaf(n) && n.prop("tag"@) is Some && pos_tags().dom().contains(n.prop("tag"@)->0) && pos_tags()[n.prop("tag"@)->0] == t,
        PosPattern::PosNot(q) => n.name() == "pos_not"@ && only(n) && pos_is(elems(n)[0], *q, m),
        PosPattern::PosRef(i) => n.name() == "pos_ref"@ && leaf(n) && refs(m.pos, n, i),
        PosPattern::PosOr(v) => n.name() == "pos_or"@ && listed(n) && v@.len() == elems(n).len() && forall|i: int| 0 <= i < v@.len() ==> pos_is(elems(n)[i], #[trigger] v[i], m),
    }
}
spec fn math_is(n: RoNode, p: MathPattern, m: Maps) -> bool decreases p {
    match p {
        MathPattern::AnyMath => n.name() == "math_any"@ && leaf(n),
        MathPattern::Marked(q, k) => n.name() == "math_marker"@ && only(n) && math_is(elems(n)[0], *q, m) && marker_of(n, k),
        MathPattern::MathRef(i) => n.name() == "math_ref"@ && leaf(n) && refs(m.math, n, i),
        MathPattern::MathOr(v) => n.name() == "math_or"@ && listed(n) && v@.len() == elems(n).len() && forall|i: int| 0 <= i < v@.len() ==> math_is(elems(n)[i], #[trigger] v[i], m),
        MathPattern::MathNode(nm, t, ch) => n.name() == "math_node"@ && listed(n) && opt_str(nm) == n.prop("name"@) && elems(n).len() == one(t is Some) + one(ch is Some)
            && (t is Some ==> exists|k: int| 0 <= k < elems(n).len() && text_part(#[trigger] elems(n)[k], t->0, m))
            && (match ch { Some((v, ty)) => exists|k: int| 0 <= k < elems(n).len() && #[trigger] list_part(elems(n)[k], v@.len(), ty) && forall|i: int| 0 <= i < v@.len() ==> math_is(elems(elems(n)[k])[i], #[trigger] v[i], m), None => true }),
        MathPattern::MathDescendant(q, ty) => n.name() == "math_descendant"@ && only(n) && math_is(elems(n)[0], *q, m) && attr_ty(n, |s: Seq<char>| descendant_ty(s), ty),
    }
}
spec fn text_part(c: RoNode, i: usize, m: Maps) -> bool { c.name() == "mtext_ref"@ && leaf(c) && refs(m.mtext, c, i) }
spec fn list_part(c: RoNode, len: nat, ty: MathChildrenMatchType) -> bool { c.name() == "math_children"@ && listed(c) && elems(c).len() == len && len > 0 && attr_ty(c, |s: Seq<char>| children_ty(s), ty) }
spec fn word_is(n: RoNode, p: WordPattern, m: Maps) -> bool decreases p {
    match p {
        WordPattern::WordRef(i) => n.name() == "word_ref"@ && leaf(n) && refs(m.word, n, i),
        WordPattern::WordOr(v) => n.name() == "word_or"@ && listed(n) && v@.len() == elems(n).len() && forall|i: int| 0 <= i < v@.len() ==> word_is(elems(n)[i], #[trigger] v[i], m),
        WordPattern::Word(s) => n.name() == "word"@ && simple(n.kids()) && s@ == simple_text(n.kids(), true),
        WordPattern::WordPos(pp, q) => n.name() == "word_pos"@ && listed(n) && elems(n).len() == 2 && exists|k: int| 0 <= k < 2 && pos_part(#[trigger] elems(n)[k], pp, m) && elems(n)[1 - k].name() != "pos"@ && word_is(elems(n)[1 - k], *q, m),
        WordPattern::MathWord(q) => n.name() == "word_math"@ && only(n) && math_is(elems(n)[0], q, m),
        WordPattern::AnyWord => n.name() == "word_any"@,
        WordPattern::WordNot(q) => n.name() == "word_not"@ && only(n) && word_is(elems(n)[0], *q, m),
        WordPattern::Marked(q, k) => n.name() == "word_marker"@ && only(n) && word_is(elems(n)[0], *q, m) && marker_of(n, k),
    }
}
spec fn pos_part(c: RoNode, p: PosPattern, m: Maps) -> bool { c.name() == "pos"@ && only(c) && pos_is(elems(c)[0], p, m) }
spec fn seq_is(n: RoNode, p: SequencePattern, m: Maps) -> bool decreases p {
    match p {
        SequencePattern::SeqRef(i) => n.name() == "seq_ref"@ && leaf(n) && refs(m.seq, n, i),
        SequencePattern::SeqFromWord(w) => n.name() == "seq_word"@ && only(n) && word_is(elems(n)[0], w, m),
        SequencePattern::SeqOfSeq(v) => n.name() == "seq_seq"@ && listed(n) && v@.len() == elems(n).len() && forall|i: int| 0 <= i < v@.len() ==> seq_is(elems(n)[i], #[trigger] v[i], m),
        SequencePattern::Phrase(t, ty, st, en) => n.name() == "phrase"@ && listed(n) && n.prop("tag"@) is Some && phrase_tags().dom().contains(n.prop("tag"@)->0) && phrase_tags()[n.prop("tag"@)->0] == t
            && phrase_parts(elems(n)) && phrase_choice(elems(n), ty)
            && (match st { None => none(elems(n), "starts_with_seq"@), Some((q, c)) => exists|k: int| #[trigger] sole(elems(n), "starts_with_seq"@, k) && only(elems(n)[k]) && containment(elems(n)[k]) == Some(c) && seq_is(elems(elems(n)[k])[0], *q, m) })
            && (match en { None => none(elems(n), "ends_with_seq"@), Some(q) => exists|k: int| #[trigger] sole(elems(n), "ends_with_seq"@, k) && only(elems(n)[k]) && seq_is(elems(elems(n)[k])[0], *q, m) }),
        SequencePattern::Marked(q, k) => n.name() == "seq_marker"@ && only(n) && seq_is(elems(n)[0], *q, m) && marker_of(n, k),
        SequencePattern::SeqOr(v, ty) => n.name() == "seq_or"@ && listed(n) && v@.len() == elems(n).len() && seq_ty(n) == Some(ty) && forall|i: int| 0 <= i < v@.len() ==> seq_is(elems(n)[i], #[trigger] v[i], m),
    }
}
spec fn phrase_parts(s: Seq<RoNode>) -> bool { forall|j: int| 0 <= j < s.len() ==> { let c = (#[trigger] s[j]).name(); c == "match_type"@ || c == "starts_with_seq"@ || c == "ends_with_seq"@ } }
spec fn phrase_choice(s: Seq<RoNode>, ty: PhraseMatchType) -> bool { none(s, "match_type"@) && ty is Longest || exists|k: int| 0 <= k < s.len() && choice_part(#[trigger] s[k], ty) }
spec fn choice_part(c: RoNode, ty: PhraseMatchType) -> bool { c.name() == "match_type"@ && simple(c.kids()) && phrase_ty(simple_text(c.kids(), true)) == Some(ty) }
// more names: the same patterns
proof fn lemma_mtext_sub(n: RoNode, p: MTextPattern, a: Maps, b: Maps) requires mtext_is(n, p, a), subm(a, b) ensures mtext_is(n, p, b) decreases p {
    match p { MTextPattern::MTextOr(v) => { assert forall|i: int| 0 <= i < v@.len() implies mtext_is(elems(n)[i], #[trigger] v[i], b) by { lemma_mtext_sub(elems(n)[i], v[i], a, b); } }, MTextPattern::MTextNot(q) => { lemma_mtext_sub(elems(n)[0], *q, a, b); }, _ => {} }
}
proof fn lemma_pos_sub(n: RoNode, p: PosPattern, a: Maps, b: Maps) requires pos_is(n, p, a), subm(a, b) ensures pos_is(n, p, b) decreases p {
    match p { PosPattern::PosOr(v) => { assert forall|i: int| 0 <= i < v@.len() implies pos_is(elems(n)[i], #[trigger] v[i], b) by { lemma_pos_sub(elems(n)[i], v[i], a, b); } }, PosPattern::PosNot(q) => { lemma_pos_sub(elems(n)[0], *q, a, b); }, _ => {} }
}
proof fn lemma_math_sub(n: RoNode, p: MathPattern, a: Maps, b: Maps) requires math_is(n, p, a), subm(a, b) ensures math_is(n, p, b) decreases p {
    match p {
        MathPattern::MathOr(v) => { assert forall|i: int| 0 <= i < v@.len() implies math_is(elems(n)[i], #[trigger] v[i], b) by { lemma_math_sub(elems(n)[i], v[i], a, b); } },
        MathPattern::Marked(q, _) => { lemma_math_sub(elems(n)[0], *q, a, b); },
        MathPattern::MathDescendant(q, _) => { lemma_math_sub(elems(n)[0], *q, a, b); },
        MathPattern::MathNode(_, t, ch) => {
            if t is Some { let k = choose|k: int| 0 <= k < elems(n).len() && text_part(#[trigger] elems(n)[k], t->0, a); assert(text_part(elems(n)[k], t->0, b)); }
            if let Some((v, ty)) = ch {
                let k = choose|k: int| 0 <= k < elems(n).len() && #[trigger] list_part(elems(n)[k], v@.len(), ty) && forall|i: int| 0 <= i < v@.len() ==> math_is(elems(elems(n)[k])[i], #[trigger] v[i], a);
                assert forall|i: int| 0 <= i < v@.len() implies math_is(elems(elems(n)[k])[i], #[trigger] v[i], b) by { lemma_math_sub(elems(elems(n)[k])[i], v[i], a, b); }
                assert(list_part(elems(n)[k], v@.len(), ty));
            }
        },
        _ => {}
    }
}
proof fn lemma_word_sub(n: RoNode, p: WordPattern, a: Maps, b: Maps) requires word_is(n, p, a), subm(a, b) ensures word_is(n, p, b) decreases p {
    match p {
        WordPattern::WordOr(v) => { assert forall|i: int| 0 <= i < v@.len() implies word_is(elems(n)[i], #[trigger] v[i], b) by { lemma_word_sub(elems(n)[i], v[i], a, b); } },
        WordPattern::WordNot(q) => { lemma_word_sub(elems(n)[0], *q, a, b); },
        WordPattern::Marked(q, _) => { lemma_word_sub(elems(n)[0], *q, a, b); },
        WordPattern::MathWord(q) => { lemma_math_sub(elems(n)[0], q, a, b); },
        WordPattern::WordPos(pp, q) => {
            let k = choose|k: int| 0 <= k < 2 && pos_part(#[trigger] elems(n)[k], pp, a) && elems(n)[1 - k].name() != "pos"@ && word_is(elems(n)[1 - k], *q, a);
            lemma_pos_sub(elems(elems(n)[k])[0], pp, a, b); lemma_word_sub(elems(n)[1 - k], *q, a, b); assert(pos_part(elems(n)[k], pp, b));
        },
        _ => {}
    }
}
proof fn lemma_seq_sub(n: RoNode, p: SequencePattern, a: Maps, b: Maps) requires seq_is(n, p, a), subm(a, b) ensures seq_is(n, p, b) decreases p {
    match p {
        SequencePattern::SeqOfSeq(v) => { assert forall|i: int| 0 <= i < v@.len() implies seq_is(elems(n)[i], #[trigger] v[i], b) by { lemma_seq_sub(elems(n)[i], v[i], a, b); } },
        SequencePattern::SeqOr(v, _) => { assert forall|i: int| 0 <= i < v@.len() implies seq_is(elems(n)[i], #[trigger] v[i], b) by { lemma_seq_sub(elems(n)[i], v[i], a, b); } },
        SequencePattern::Marked(q, _) => { lemma_seq_sub(elems(n)[0], *q, a, b); },
        SequencePattern::SeqFromWord(w) => { lemma_word_sub(elems(n)[0], w, a, b); },
        SequencePattern::Phrase(t, ty, st, en) => {
            if let Some((q, c)) = st {
                let k = choose|k: int| #[trigger] sole(elems(n), "starts_with_seq"@, k) && only(elems(n)[k]) && containment(elems(n)[k]) == Some(c) && seq_is(elems(elems(n)[k])[0], *q, a);
                lemma_seq_sub(elems(elems(n)[k])[0], *q, a, b); assert(sole(elems(n), "starts_with_seq"@, k));
            }
            if let Some(q) = en {
                let k = choose|k: int| #[trigger] sole(elems(n), "ends_with_seq"@, k) && only(elems(n)[k]) && seq_is(elems(elems(n)[k])[0], *q, a);
                lemma_seq_sub(elems(elems(n)[k])[0], *q, a, b); assert(sole(elems(n), "ends_with_seq"@, k));
            }
        },
        _ => {}
    }
}
spec fn children_are(c: RoNode, ch: (Vec<MathPattern>, MathChildrenMatchType), m: Maps) -> bool { list_part(c, ch.0@.len(), ch.1) && forall|i: int| 0 <= i < ch.0@.len() ==> math_is(elems(c)[i], #[trigger] ch.0@[i], m) }
proof fn lemma_children_sub(c: RoNode, ch: (Vec<MathPattern>, MathChildrenMatchType), a: Maps, b: Maps) requires children_are(c, ch, a), subm(a, b) ensures children_are(c, ch, b) {
    assert forall|i: int| 0 <= i < ch.0@.len() implies math_is(elems(c)[i], #[trigger] ch.0@[i], b) by { lemma_math_sub(elems(c)[i], ch.0@[i], a, b); }
}
// ---------- meta data and rules ----------
// the text of the description, if there is one
spec fn meta_is(n: RoNode, name: Seq<char>, d: MetaDescription) -> bool {
    n.name() == "meta"@ && listed(n) && d.name@ == name && (elems(n).len() == 0 && d.summary@.len() == 0 || elems(n).len() == 1 && desc_part(elems(n)[0], d.summary@))
}
spec fn desc_part(c: RoNode, t: Seq<char>) -> bool { c.name() == "description"@ && simple(c.kids()) && simple_text(c.kids(), true) == t }
// exactly one element besides at most one meta
spec fn body_at(n: RoNode, d: MetaDescription, k: int) -> bool {
    listed(n) && n.prop("name"@) == Some(d.name@) && 0 <= k < elems(n).len() && elems(n)[k].name() != "meta"@
    && (elems(n).len() == 1 && d.summary@.len() == 0 || elems(n).len() == 2 && meta_is(elems(n)[1 - k], d.name@, d))
}
trait VxRule: Sized { spec fn defined_by(self, n: RoNode, m: Maps) -> bool; spec fn title(self) -> Seq<char>;
    proof fn lemma_defined_sub(self, n: RoNode, a: Maps, b: Maps) requires self.defined_by(n, a), subm(a, b) ensures self.defined_by(n, b);
    proof fn lemma_title(self, n: RoNode, a: Maps) requires self.defined_by(n, a) ensures n.prop("name"@) == Some(self.title()); }
impl VxRule for WordRule {
    spec fn defined_by(self, n: RoNode, m: Maps) -> bool { exists|k: int| #[trigger] body_at(n, self.description, k) && word_is(elems(n)[k], self.pattern, m) }
    spec fn title(self) -> Seq<char> { self.description.name@ }
    proof fn lemma_defined_sub(self, n: RoNode, a: Maps, b: Maps) { let k = choose|k: int| #[trigger] body_at(n, self.description, k) && word_is(elems(n)[k], self.pattern, a); lemma_word_sub(elems(n)[k], self.pattern, a, b); assert(body_at(n, self.description, k)); }
    proof fn lemma_title(self, n: RoNode, a: Maps) { let k = choose|k: int| #[trigger] body_at(n, self.description, k) && word_is(elems(n)[k], self.pattern, a); }
}
impl VxRule for PosRule {
    spec fn defined_by(self, n: RoNode, m: Maps) -> bool { exists|k: int| #[trigger] body_at(n, self.description, k) && pos_is(elems(n)[k], self.pattern, m) }
    spec fn title(self) -> Seq<char> { self.description.name@ }
    proof fn lemma_defined_sub(self, n: RoNode, a: Maps, b: Maps) { let k = choose|k: int| #[trigger] body_at(n, self.description, k) && pos_is(elems(n)[k], self.pattern, a); lemma_pos_sub(elems(n)[k], self.pattern, a, b); assert(body_at(n, self.description, k)); }
    proof fn lemma_title(self, n: RoNode, a: Maps) { let k = choose|k: int| #[trigger] body_at(n, self.description, k) && pos_is(elems(n)[k], self.pattern, a); }
}
impl VxRule for MathRule {
    spec fn defined_by(self, n: RoNode, m: Maps) -> bool { exists|k: int| #[trigger] body_at(n, self.description, k) && math_is(elems(n)[k], self.pattern, m) }
    spec fn title(self) -> Seq<char> { self.description.name@ }
    proof fn lemma_defined_sub(self, n: RoNode, a: Maps, b: Maps) { let k = choose|k: int| #[trigger] body_at(n, self.description, k) && math_is(elems(n)[k], self.pattern, a); lemma_math_sub(elems(n)[k], self.pattern, a, b); assert(body_at(n, self.description, k)); }
    proof fn lemma_title(self, n: RoNode, a: Maps) { let k = choose|k: int| #[trigger] body_at(n, self.description, k) && math_is(elems(n)[k], self.pattern, a); }
}
impl VxRule for MTextRule {
    spec fn defined_by(self, n: RoNode, m: Maps) -> bool { exists|k: int| #[trigger] body_at(n, self.description, k) && mtext_is(elems(n)[k], self.pattern, m) }
    spec fn title(self) -> Seq<char> { self.description.name@ }
    proof fn lemma_defined_sub(self, n: RoNode, a: Maps, b: Maps) { let k = choose|k: int| #[trigger] body_at(n, self.description, k) && mtext_is(elems(n)[k], self.pattern, a); lemma_mtext_sub(elems(n)[k], self.pattern, a, b); assert(body_at(n, self.description, k)); }
    proof fn lemma_title(self, n: RoNode, a: Maps) { let k = choose|k: int| #[trigger] body_at(n, self.description, k) && mtext_is(elems(n)[k], self.pattern, a); }
}
impl VxRule for SequenceRule {
    spec fn defined_by(self, n: RoNode, m: Maps) -> bool { exists|k: int| #[trigger] body_at(n, self.description, k) && seq_is(elems(n)[k], self.pattern, m) }
    spec fn title(self) -> Seq<char> { self.description.name@ }
    proof fn lemma_defined_sub(self, n: RoNode, a: Maps, b: Maps) { let k = choose|k: int| #[trigger] body_at(n, self.description, k) && seq_is(elems(n)[k], self.pattern, a); lemma_seq_sub(elems(n)[k], self.pattern, a, b); assert(body_at(n, self.description, k)); }
    proof fn lemma_title(self, n: RoNode, a: Maps) { let k = choose|k: int| #[trigger] body_at(n, self.description, k) && seq_is(elems(n)[k], self.pattern, a); }
}
// ---------- the loading context ----------
// every name has its own position, every position its name
spec fn named(n: Names, i: int) -> bool { exists|a: Seq<char>| #[trigger] n.dom().contains(a) && n[a] == i }
spec fn numbered(n: Names, len: nat) -> bool {
    (forall|a: Seq<char>| #[trigger] n.dom().contains(a) ==> n[a] < len)
    && (forall|a: Seq<char>, b: Seq<char>| #[trigger] n.dom().contains(a) && #[trigger] n.dom().contains(b) && n[a] == n[b] ==> a == b)
    && (forall|i: int| 0 <= i < len ==> #[trigger] named(n, i))
}
spec fn grown<R>(n1: Names, r1: Seq<Option<R>>, n2: Names, r2: Seq<Option<R>>) -> bool {
    sub(n1, n2) && r1.len() <= r2.len() && (forall|i: int| 0 <= i < r1.len() ==> #[trigger] r2[i] == r1[i]) && (forall|i: int| r1.len() <= i < r2.len() ==> (#[trigger] r2[i]) is None)
}
spec fn maps(c: PCtx) -> Maps { Maps { word: c.word_name_map@, seq: c.seq_name_map@, math: c.math_name_map@, mtext: c.mtext_name_map@, pos: c.pos_name_map@ } }
spec fn ctx_ok(c: PCtx) -> bool {
    numbered(c.word_name_map@, c.word_rules@.len()) && numbered(c.seq_name_map@, c.seq_rules@.len()) && numbered(c.math_name_map@, c.math_rules@.len()) && numbered(c.mtext_name_map@, c.mtext_rules@.len()) && numbered(c.pos_name_map@, c.pos_rules@.len())
    && c.pos_map@ == pos_tags() && c.phrase_map@ == phrase_tags()
}
spec fn ctx_grown(a: PCtx, b: PCtx) -> bool {
    grown(a.word_name_map@, a.word_rules@, b.word_name_map@, b.word_rules@) && grown(a.seq_name_map@, a.seq_rules@, b.seq_name_map@, b.seq_rules@) && grown(a.math_name_map@, a.math_rules@, b.math_name_map@, b.math_rules@)
    && grown(a.mtext_name_map@, a.mtext_rules@, b.mtext_name_map@, b.mtext_rules@) && grown(a.pos_name_map@, a.pos_rules@, b.pos_name_map@, b.pos_rules@)
}
proof fn lemma_grown<R>(n1: Names, r1: Seq<Option<R>>, n2: Names, r2: Seq<Option<R>>, n3: Names, r3: Seq<Option<R>>) requires grown(n1, r1, n2, r2), grown(n2, r2, n3, r3) ensures grown(n1, r1, n3, r3) {
    assert forall|i: int| 0 <= i < r1.len() implies #[trigger] r3[i] == r1[i] by { assert(r2[i] == r1[i]); }
    assert forall|i: int| r1.len() <= i < r3.len() implies (#[trigger] r3[i]) is None by { if i < r2.len() { assert(r2[i] is None); } }
}
proof fn lemma_ctx_grown(a: PCtx, b: PCtx, c: PCtx) requires ctx_grown(a, b), ctx_grown(b, c) ensures ctx_grown(a, c), subm(maps(b), maps(c)) {
    lemma_grown(a.word_name_map@, a.word_rules@, b.word_name_map@, b.word_rules@, c.word_name_map@, c.word_rules@);
    lemma_grown(a.seq_name_map@, a.seq_rules@, b.seq_name_map@, b.seq_rules@, c.seq_name_map@, c.seq_rules@);
    lemma_grown(a.math_name_map@, a.math_rules@, b.math_name_map@, b.math_rules@, c.math_name_map@, c.math_rules@);
    lemma_grown(a.mtext_name_map@, a.mtext_rules@, b.mtext_name_map@, b.mtext_rules@, c.mtext_name_map@, c.mtext_rules@);
    lemma_grown(a.pos_name_map@, a.pos_rules@, b.pos_name_map@, b.pos_rules@, c.pos_name_map@, c.pos_rules@);
}
// the definitions of one kind among the first k children of the root have been read
spec fn read<R: VxRule>(kind: Seq<char>, ks: Seq<RoNode>, k: int, n: Names, r: Seq<Option<R>>, m: Maps) -> bool {
    (forall|a: int| 0 <= a < k && (#[trigger] ks[a]).name() == kind ==> defined(ks[a], n, r, m))
    && (forall|a: int, b: int| 0 <= a < b < k && (#[trigger] ks[a]).name() == kind && (#[trigger] ks[b]).name() == kind ==> ks[a].prop("name"@) != ks[b].prop("name"@))
    && (forall|i: int| 0 <= i < r.len() && (#[trigger] r[i]) is Some ==> exists|a: int| 0 <= a < k && (#[trigger] ks[a]).name() == kind && ks[a].prop("name"@) is Some && n.dom().contains(ks[a].prop("name"@)->0) && n[ks[a].prop("name"@)->0] == i)
}
spec fn defined<R: VxRule>(c: RoNode, n: Names, r: Seq<Option<R>>, m: Maps) -> bool {
    c.prop("name"@) is Some && n.dom().contains(c.prop("name"@)->0) && { let i = n[c.prop("name"@)->0] as int; 0 <= i < r.len() && r[i] is Some && (r[i]->0).defined_by(c, m) }
}
// one definition more
spec fn added<R: VxRule>(c: RoNode, n1: Names, r1: Seq<Option<R>>, n2: Names, r2: Seq<Option<R>>, m: Maps) -> bool {
    defined(c, n2, r2, m) && { let i = n2[c.prop("name"@)->0] as int; (i < r1.len() ==> r1[i] is None) && grown(n1, r1, n2, r2.update(i, None)) }
}
proof fn lemma_read_grown<R: VxRule>(kind: Seq<char>, ks: Seq<RoNode>, k: int, n1: Names, r1: Seq<Option<R>>, m1: Maps, n2: Names, r2: Seq<Option<R>>, m2: Maps)
    requires read(kind, ks, k, n1, r1, m1), grown(n1, r1, n2, r2), subm(m1, m2), 0 <= k < ks.len(), ks[k].name() != kind
    ensures read(kind, ks, k + 1, n2, r2, m2)
{
    assert forall|a: int| 0 <= a < k + 1 && (#[trigger] ks[a]).name() == kind implies defined(ks[a], n2, r2, m2) by { assert(defined(ks[a], n1, r1, m1)); let i = n1[ks[a].prop("name"@)->0] as int; assert(r2[i] == r1[i]); (r1[i]->0).lemma_defined_sub(ks[a], m1, m2); }
    assert forall|i: int| 0 <= i < r2.len() && (#[trigger] r2[i]) is Some implies exists|a: int| 0 <= a < k + 1 && (#[trigger] ks[a]).name() == kind && ks[a].prop("name"@) is Some && n2.dom().contains(ks[a].prop("name"@)->0) && n2[ks[a].prop("name"@)->0] == i by {
        if i < r1.len() { assert(r1[i] is Some); let a = choose|a: int| 0 <= a < k && (#[trigger] ks[a]).name() == kind && ks[a].prop("name"@) is Some && n1.dom().contains(ks[a].prop("name"@)->0) && n1[ks[a].prop("name"@)->0] == i; assert(ks[a].name() == kind); }
    }
}
proof fn lemma_read_added<R: VxRule>(kind: Seq<char>, ks: Seq<RoNode>, k: int, n1: Names, r1: Seq<Option<R>>, m1: Maps, n2: Names, r2: Seq<Option<R>>, m2: Maps)
    requires read(kind, ks, k, n1, r1, m1), added(ks[k], n1, r1, n2, r2, m2), subm(m1, m2), 0 <= k < ks.len(), ks[k].name() == kind
    ensures read(kind, ks, k + 1, n2, r2, m2)
{
    let i0 = n2[ks[k].prop("name"@)->0] as int; let r0 = r2.update(i0, None);
    assert forall|a: int| 0 <= a < k + 1 && (#[trigger] ks[a]).name() == kind implies defined(ks[a], n2, r2, m2) by { if a < k { assert(defined(ks[a], n1, r1, m1)); let i = n1[ks[a].prop("name"@)->0] as int; assert(r0[i] == r1[i]); assert(i != i0); (r1[i]->0).lemma_defined_sub(ks[a], m1, m2); } }
    assert forall|a: int, b: int| 0 <= a < b < k + 1 && (#[trigger] ks[a]).name() == kind && (#[trigger] ks[b]).name() == kind implies ks[a].prop("name"@) != ks[b].prop("name"@) by { if b == k { assert(defined(ks[a], n1, r1, m1)); } }
    assert forall|i: int| 0 <= i < r2.len() && (#[trigger] r2[i]) is Some implies exists|a: int| 0 <= a < k + 1 && (#[trigger] ks[a]).name() == kind && ks[a].prop("name"@) is Some && n2.dom().contains(ks[a].prop("name"@)->0) && n2[ks[a].prop("name"@)->0] == i by {
        if i == i0 { assert(ks[k].name() == kind); } else { assert(r0[i] == r2[i]); if i < r1.len() { assert(r1[i] is Some); let a = choose|a: int| 0 <= a < k && (#[trigger] ks[a]).name() == kind && ks[a].prop("name"@) is Some && n1.dom().contains(ks[a].prop("name"@)->0) && n1[ks[a].prop("name"@)->0] == i; assert(ks[a].name() == kind); } }
    }
}
// ---------- the loaded file ----------
spec fn vx_holds<R>(o: Option<R>, r: R) -> bool { o == Some(r) }
spec fn all_some<R>(r: Seq<Option<R>>) -> bool { forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]) is Some }
spec fn distinct_kinds() -> bool { "word_rule"@ != "math_rule"@ && "word_rule"@ != "mtext_rule"@ && "word_rule"@ != "pos_rule"@ && "word_rule"@ != "seq_rule"@ && "word_rule"@ != "meta"@ && "math_rule"@ != "mtext_rule"@ && "math_rule"@ != "pos_rule"@ && "math_rule"@ != "seq_rule"@ && "math_rule"@ != "meta"@ && "mtext_rule"@ != "pos_rule"@ && "mtext_rule"@ != "seq_rule"@ && "mtext_rule"@ != "meta"@ && "pos_rule"@ != "seq_rule"@ && "pos_rule"@ != "meta"@ && "seq_rule"@ != "meta"@ }
spec fn file_maps(f: PatternFile) -> Maps { Maps { word: f.word_rule_names@, seq: f.sequence_rule_names@, math: f.math_rule_names@, mtext: f.mtext_rule_names@, pos: f.pos_rule_names@ } }
// the rules of a kind are exactly the definitions of that kind in the file, one per name, and nothing else is named
spec fn complete<R: VxRule>(kind: Seq<char>, ks: Seq<RoNode>, n: Names, r: Seq<R>, m: Maps) -> bool {
    numbered(n, r.len())
    && (forall|a: int| 0 <= a < ks.len() && (#[trigger] ks[a]).name() == kind ==> ks[a].prop("name"@) is Some && n.dom().contains(ks[a].prop("name"@)->0) && r[n[ks[a].prop("name"@)->0] as int].defined_by(ks[a], m))
    && (forall|a: int, b: int| 0 <= a < b < ks.len() && (#[trigger] ks[a]).name() == kind && (#[trigger] ks[b]).name() == kind ==> ks[a].prop("name"@) != ks[b].prop("name"@))
    && (forall|s: Seq<char>| #[trigger] n.dom().contains(s) ==> exists|a: int| 0 <= a < ks.len() && (#[trigger] ks[a]).name() == kind && ks[a].prop("name"@) == Some(s))
}
spec fn file_part(c: RoNode) -> bool { let s = c.name(); s == "meta"@ || s == "pos_rule"@ || s == "math_rule"@ || s == "mtext_rule"@ || s == "word_rule"@ || s == "seq_rule"@ }
spec fn described(ks: Seq<RoNode>, name: Seq<char>, d: MetaDescription) -> bool { d.name@ == name && (none(ks, "meta"@) && d.summary@.len() == 0 || exists|k: int| #[trigger] sole(ks, "meta"@, k) && meta_is(ks[k], name, d)) }
spec fn says(root: RoNode, f: PatternFile, name: Seq<char>) -> bool {
    let ks = elems(root); let m = file_maps(f);
    listed(root) && (forall|a: int| 0 <= a < ks.len() ==> file_part(#[trigger] ks[a])) && described(ks, name, f.description)
    && complete("word_rule"@, ks, f.word_rule_names@, f.word_rules@, m) && complete("seq_rule"@, ks, f.sequence_rule_names@, f.sequence_rules@, m) && complete("math_rule"@, ks, f.math_rule_names@, f.math_rules@, m)
    && complete("mtext_rule"@, ks, f.mtext_rule_names@, f.mtext_rules@, m) && complete("pos_rule"@, ks, f.pos_rule_names@, f.pos_rules@, m)
}
proof fn lemma_complete<R: VxRule>(kind: Seq<char>, ks: Seq<RoNode>, n: Names, o: Seq<Option<R>>, r: Seq<R>, m: Maps)
    requires read(kind, ks, ks.len() as int, n, o, m), numbered(n, o.len()), o.len() == r.len(), forall|i: int| 0 <= i < r.len() ==> #[trigger] o[i] == Some(r[i])
    ensures complete(kind, ks, n, r, m)
{
    assert forall|a: int| 0 <= a < ks.len() && (#[trigger] ks[a]).name() == kind implies ks[a].prop("name"@) is Some && n.dom().contains(ks[a].prop("name"@)->0) && r[n[ks[a].prop("name"@)->0] as int].defined_by(ks[a], m) by { assert(defined(ks[a], n, o, m)); let i = n[ks[a].prop("name"@)->0] as int; assert(o[i] == Some(r[i])); }
    assert forall|s: Seq<char>| #[trigger] n.dom().contains(s) implies exists|a: int| 0 <= a < ks.len() && (#[trigger] ks[a]).name() == kind && ks[a].prop("name"@) == Some(s) by {
        let i = n[s] as int; assert(o[i] == Some(r[i])); let a = choose|a: int| 0 <= a < ks.len() && (#[trigger] ks[a]).name() == kind && ks[a].prop("name"@) is Some && n.dom().contains(ks[a].prop("name"@)->0) && n[ks[a].prop("name"@)->0] == i; assert(ks[a].name() == kind);
    }
}
@src src/patterns/rules.rs
@fn PatternMarker::load_from_node
@props C21
@opt opaque-format
@closure 0 |s: &str| -> (vx_r: String) ensures vx_r@ == trimmed_start(trimmed_end(s@))
@ret r
@contract
    ensures r is Ok == node.prop("name"@) is Some, r is Ok ==> marker_of(node, r->Ok_0)
@fn MathChildrenMatchType::from_str
@props C21
@opt opaque-format
@ret r
@contract
    ensures r is Ok == children_ty(string@) is Some, r is Ok ==> children_ty(string@) == Some(r->Ok_0)
@fn MathDescendantMatchType::from_str
@props C21
@opt opaque-format
@ret r
@contract
    ensures r is Ok == descendant_ty(string@) is Some, r is Ok ==> descendant_ty(string@) == Some(r->Ok_0)
@fn PhraseMatchType::from_str
@props C21
@opt opaque-format
@ret r
@contract
    ensures r is Ok == phrase_ty(string@) is Some, r is Ok ==> phrase_ty(string@) == Some(r->Ok_0)
@fn SequenceContainment::from_node
@props C21
@opt opaque-format
@ret r
@contract
    ensures r is Ok == containment(node) is Some, r is Ok ==> containment(node) == Some(r->Ok_0)
@fn MetaDescription::load_from_node
@props C21
@opt opaque-format
@ret r
@contract
    ensures r is Ok ==> meta_is(node, name@, r->Ok_0)
@at loop 0 iter it
@at loop 0 inv
    invariant it.seq() == elems(node), listed(node), node.name() == "meta"@,
        it.index() == one(summary_opt is Some), summary_opt is Some ==> desc_part(elems(node)[0], summary_opt->0@),
@fn get_rule_position
@props C21
@ret r
@contract
    requires numbered(old(map)@, old(rules)@.len())
    ensures numbered(final(map)@, final(rules)@.len()), grown(old(map)@, old(rules)@, final(map)@, final(rules)@), final(map)@.dom().contains(rule_name@), r == final(map)@[rule_name@], r < final(rules)@.len()
@at result
    proof {
        let n1 = old(map)@; let len = old(rules)@.len();
        if !n1.dom().contains(rule_name@) {
            assert(map@ == n1.insert(rule_name@, len as usize)); assert(rules@ == old(rules)@.push(None));
            assert forall|i: int| 0 <= i < len + 1 implies #[trigger] named(map@, i) by { if i < len { assert(named(n1, i)); let a = choose|a: Seq<char>| #[trigger] n1.dom().contains(a) && n1[a] == i; assert(map@.dom().contains(a) && map@[a] == i); } else { assert(map@.dom().contains(rule_name@)); } }
        }
    }
@fn PCtx::new
@props C21
@ret r
@contract
    ensures ctx_ok(r), maps(r) == (Maps { word: Map::empty(), seq: Map::empty(), math: Map::empty(), mtext: Map::empty(), pos: Map::empty() }), r.word_rules@.len() == 0, r.seq_rules@.len() == 0, r.math_rules@.len() == 0, r.mtext_rules@.len() == 0, r.pos_rules@.len() == 0
@fn PCtx::get_word_rule
@props C21
@ret r
@contract
    requires ctx_ok(*old(self))
    ensures ctx_ok(*final(self)), ctx_grown(*old(self), *final(self)), subm(maps(*old(self)), maps(*final(self))), final(self).word_name_map@.dom().contains(rule_name@), r == final(self).word_name_map@[rule_name@], r < final(self).word_rules@.len(),
        final(self).seq_name_map@ == old(self).seq_name_map@, final(self).seq_rules@ == old(self).seq_rules@,
        final(self).math_name_map@ == old(self).math_name_map@, final(self).math_rules@ == old(self).math_rules@,
        final(self).mtext_name_map@ == old(self).mtext_name_map@, final(self).mtext_rules@ == old(self).mtext_rules@,
        final(self).pos_name_map@ == old(self).pos_name_map@, final(self).pos_rules@ == old(self).pos_rules@,
@fn PCtx::get_sequence_rule
@props C21
@ret r
@contract
    requires ctx_ok(*old(self))
    ensures ctx_ok(*final(self)), ctx_grown(*old(self), *final(self)), subm(maps(*old(self)), maps(*final(self))), final(self).seq_name_map@.dom().contains(rule_name@), r == final(self).seq_name_map@[rule_name@], r < final(self).seq_rules@.len(),
        final(self).word_name_map@ == old(self).word_name_map@, final(self).word_rules@ == old(self).word_rules@,
        final(self).math_name_map@ == old(self).math_name_map@, final(self).math_rules@ == old(self).math_rules@,
        final(self).mtext_name_map@ == old(self).mtext_name_map@, final(self).mtext_rules@ == old(self).mtext_rules@,
        final(self).pos_name_map@ == old(self).pos_name_map@, final(self).pos_rules@ == old(self).pos_rules@,
@fn PCtx::get_math_rule
@props C21
@ret r
@contract
    requires ctx_ok(*old(self))
    ensures ctx_ok(*final(self)), ctx_grown(*old(self), *final(self)), subm(maps(*old(self)), maps(*final(self))), final(self).math_name_map@.dom().contains(rule_name@), r == final(self).math_name_map@[rule_name@], r < final(self).math_rules@.len(),
        final(self).word_name_map@ == old(self).word_name_map@, final(self).word_rules@ == old(self).word_rules@,
        final(self).seq_name_map@ == old(self).seq_name_map@, final(self).seq_rules@ == old(self).seq_rules@,
        final(self).mtext_name_map@ == old(self).mtext_name_map@, final(self).mtext_rules@ == old(self).mtext_rules@,
        final(self).pos_name_map@ == old(self).pos_name_map@, final(self).pos_rules@ == old(self).pos_rules@,
@fn PCtx::get_mtext_rule
@props C21
@ret r
@contract
    requires ctx_ok(*old(self))
    ensures ctx_ok(*final(self)), ctx_grown(*old(self), *final(self)), subm(maps(*old(self)), maps(*final(self))), final(self).mtext_name_map@.dom().contains(rule_name@), r == final(self).mtext_name_map@[rule_name@], r < final(self).mtext_rules@.len(),
        final(self).word_name_map@ == old(self).word_name_map@, final(self).word_rules@ == old(self).word_rules@,
        final(self).seq_name_map@ == old(self).seq_name_map@, final(self).seq_rules@ == old(self).seq_rules@,
        final(self).math_name_map@ == old(self).math_name_map@, final(self).math_rules@ == old(self).math_rules@,
        final(self).pos_name_map@ == old(self).pos_name_map@, final(self).pos_rules@ == old(self).pos_rules@,
@fn PCtx::get_pos_rule
@props C21
@ret r
@contract
    requires ctx_ok(*old(self))
    ensures ctx_ok(*final(self)), ctx_grown(*old(self), *final(self)), subm(maps(*old(self)), maps(*final(self))), final(self).pos_name_map@.dom().contains(rule_name@), r == final(self).pos_name_map@[rule_name@], r < final(self).pos_rules@.len(),
        final(self).word_name_map@ == old(self).word_name_map@, final(self).word_rules@ == old(self).word_rules@,
        final(self).seq_name_map@ == old(self).seq_name_map@, final(self).seq_rules@ == old(self).seq_rules@,
        final(self).math_name_map@ == old(self).math_name_map@, final(self).math_rules@ == old(self).math_rules@,
        final(self).mtext_name_map@ == old(self).mtext_name_map@, final(self).mtext_rules@ == old(self).mtext_rules@,
@fn MTextPattern::load_from_node
@props C21
@opt opaque-format
@ret r
@contract
    requires ctx_ok(*old(pctx))
    ensures r is Ok ==> ctx_ok(*final(pctx)) && ctx_grown(*old(pctx), *final(pctx)) && subm(maps(*old(pctx)), maps(*final(pctx))) && mtext_is(node, r->Ok_0, maps(*final(pctx)))
    decreases node.height()
@at entry
    proof { lemma_lower(node); assert(keep(node.kids()) == elems(node)); assert(elems(node).len() > 0 ==> elems(node)[0].height() < node.height());  }
@at loop 0 iter it
@at loop 0 inv
    invariant it.seq() == elems(node), listed(node), ctx_ok(*pctx), ctx_grown(*old(pctx), *pctx), subm(maps(*old(pctx)), maps(*pctx)),
        options@.len() == it.index(), forall|i: int| 0 <= i < options@.len() ==> mtext_is(elems(node)[i], #[trigger] options@[i], maps(*pctx)),
        forall|i: int| 0 <= i < elems(node).len() ==> (#[trigger] elems(node)[i]).height() < node.height(),
@at loop 0 start
    let ghost vx_c = *pctx; let ghost vx_v = options@;
@at loop 0 end
    proof {
        lemma_ctx_grown(*old(pctx), vx_c, *pctx);
        assert forall|i: int| 0 <= i < options@.len() implies mtext_is(elems(node)[i], #[trigger] options@[i], maps(*pctx)) by { if i < vx_v.len() { assert(options@[i] == vx_v[i]); lemma_mtext_sub(elems(node)[i], vx_v[i], maps(vx_c), maps(*pctx)); } }
    }
@fn PosPattern::load_from_node
@props C21
@opt opaque-format
@ret r
@contract
    requires ctx_ok(*old(pctx))
    ensures r is Ok ==> ctx_ok(*final(pctx)) && ctx_grown(*old(pctx), *final(pctx)) && subm(maps(*old(pctx)), maps(*final(pctx))) && pos_is(node, r->Ok_0, maps(*final(pctx)))
    decreases node.height()
@at entry
    proof { lemma_lower(node); assert(keep(node.kids()) == elems(node)); assert(elems(node).len() > 0 ==> elems(node)[0].height() < node.height());  }
@at loop 0 iter it
@at loop 0 inv
    invariant it.seq() == elems(node), listed(node), ctx_ok(*pctx), ctx_grown(*old(pctx), *pctx), subm(maps(*old(pctx)), maps(*pctx)),
        options@.len() == it.index(), forall|i: int| 0 <= i < options@.len() ==> pos_is(elems(node)[i], #[trigger] options@[i], maps(*pctx)),
        forall|i: int| 0 <= i < elems(node).len() ==> (#[trigger] elems(node)[i]).height() < node.height(),
@at loop 0 start
    let ghost vx_c = *pctx; let ghost vx_v = options@;
@at loop 0 end
    proof {
        lemma_ctx_grown(*old(pctx), vx_c, *pctx);
        assert forall|i: int| 0 <= i < options@.len() implies pos_is(elems(node)[i], #[trigger] options@[i], maps(*pctx)) by { if i < vx_v.len() { assert(options@[i] == vx_v[i]); lemma_pos_sub(elems(node)[i], vx_v[i], maps(vx_c), maps(*pctx)); } }
    }
@fn MathPattern::load_from_node
@props C21
@opt opaque-format
@ret r
@contract
    requires ctx_ok(*old(pctx))
    ensures r is Ok ==> ctx_ok(*final(pctx)) && ctx_grown(*old(pctx), *final(pctx)) && subm(maps(*old(pctx)), maps(*final(pctx))) && math_is(node, r->Ok_0, maps(*final(pctx)))
    decreases node.height()
@at entry
    proof { lemma_lower(node); assert(keep(node.kids()) == elems(node)); assert(elems(node).len() > 0 ==> elems(node)[0].height() < node.height()); reveal_strlit("math_children"); reveal_strlit("mtext_ref"); assert("math_children"@.len() == 13 && "mtext_ref"@.len() == 9); }
@at loop 0 iter it
@at loop 0 inv
    invariant it.seq() == elems(node), listed(node), ctx_ok(*pctx), ctx_grown(*old(pctx), *pctx), subm(maps(*old(pctx)), maps(*pctx)),
        options@.len() == it.index(), forall|i: int| 0 <= i < options@.len() ==> math_is(elems(node)[i], #[trigger] options@[i], maps(*pctx)),
        forall|i: int| 0 <= i < elems(node).len() ==> (#[trigger] elems(node)[i]).height() < node.height(),
@at loop 0 start
    let ghost vx_c = *pctx; let ghost vx_v = options@;
@at loop 0 end
    proof {
        lemma_ctx_grown(*old(pctx), vx_c, *pctx);
        assert forall|i: int| 0 <= i < options@.len() implies math_is(elems(node)[i], #[trigger] options@[i], maps(*pctx)) by { if i < vx_v.len() { assert(options@[i] == vx_v[i]); lemma_math_sub(elems(node)[i], vx_v[i], maps(vx_c), maps(*pctx)); } }
    }
@at loop 1 before
    let ghost mut vx_t: int = 0; let ghost mut vx_l: int = 0;
@at loop 1 iter it
@at loop 1 inv
    invariant it.seq() == elems(node), listed(node), node.name() == "math_node"@, opt_str(node_name) == node.prop("name"@), ctx_ok(*pctx), ctx_grown(*old(pctx), *pctx), subm(maps(*old(pctx)), maps(*pctx)),
        "math_children"@ != "mtext_ref"@,
        it.index() == one(mtextref is Some) + one(children is Some), mtextref is Some ==> 0 <= vx_t < it.index() && text_part(elems(node)[vx_t], mtextref->0, maps(*pctx)),
        children is Some ==> 0 <= vx_l < it.index() && children_are(elems(node)[vx_l], children->0, maps(*pctx)),
        forall|i: int| 0 <= i < elems(node).len() ==> (#[trigger] elems(node)[i]).height() < node.height(),
        forall|i: int, j: int| #![trigger elems(elems(node)[i])[j]] 0 <= i < elems(node).len() && 0 <= j < elems(elems(node)[i]).len() ==> elems(elems(node)[i])[j].height() < node.height(),
@at loop 1 start
    let ghost vx_c = *pctx;
@at loop 1 end
    proof { lemma_ctx_grown(*old(pctx), vx_c, *pctx); if cur.name() == "math_children"@ { vx_l = it.index() as int; if mtextref is Some { } } else { vx_t = it.index() as int; if children is Some { lemma_children_sub(elems(node)[vx_l], children->0, maps(vx_c), maps(*pctx)); } } }
@at loop 1 after
    proof { assert(children is Some ==> list_part(elems(node)[vx_l], (children->0).0@.len(), (children->0).1)); }
@at loop 2 iter it
@at loop 2 inv
    invariant it.seq() == elems(cur), listed(cur), ctx_ok(*pctx), ctx_grown(*old(pctx), *pctx), subm(maps(*old(pctx)), maps(*pctx)),
        child_nodes@.len() == it.index(), forall|i: int| 0 <= i < child_nodes@.len() ==> math_is(elems(cur)[i], #[trigger] child_nodes@[i], maps(*pctx)),
        forall|i: int| 0 <= i < elems(cur).len() ==> (#[trigger] elems(cur)[i]).height() < node.height(), ctx_grown(vx_c, *pctx), subm(maps(vx_c), maps(*pctx)),
@at loop 2 start
    let ghost vx_d = *pctx; let ghost vx_v = child_nodes@;
@at loop 2 end
    proof {
        lemma_ctx_grown(*old(pctx), vx_d, *pctx); lemma_ctx_grown(vx_c, vx_d, *pctx);
        assert forall|i: int| 0 <= i < child_nodes@.len() implies math_is(elems(cur)[i], #[trigger] child_nodes@[i], maps(*pctx)) by { if i < vx_v.len() { assert(child_nodes@[i] == vx_v[i]); lemma_math_sub(elems(cur)[i], vx_v[i], maps(vx_d), maps(*pctx)); } }
    }
@fn WordPattern::load_from_node
@props C21
@opt opaque-format
@ret r
@contract
    requires ctx_ok(*old(pctx))
    ensures r is Ok ==> ctx_ok(*final(pctx)) && ctx_grown(*old(pctx), *final(pctx)) && subm(maps(*old(pctx)), maps(*final(pctx))) && word_is(node, r->Ok_0, maps(*final(pctx)))
    decreases node.height()
@at entry
    proof { lemma_lower(node); assert(keep(node.kids()) == elems(node)); assert(elems(node).len() > 0 ==> elems(node)[0].height() < node.height()); reveal_strlit("pos"); }
@at loop 0 iter it
@at loop 0 inv
    invariant it.seq() == elems(node), listed(node), ctx_ok(*pctx), ctx_grown(*old(pctx), *pctx), subm(maps(*old(pctx)), maps(*pctx)),
        options@.len() == it.index(), forall|i: int| 0 <= i < options@.len() ==> word_is(elems(node)[i], #[trigger] options@[i], maps(*pctx)),
        forall|i: int| 0 <= i < elems(node).len() ==> (#[trigger] elems(node)[i]).height() < node.height(),
@at loop 0 start
    let ghost vx_c = *pctx; let ghost vx_v = options@;
@at loop 0 end
    proof {
        lemma_ctx_grown(*old(pctx), vx_c, *pctx);
        assert forall|i: int| 0 <= i < options@.len() implies word_is(elems(node)[i], #[trigger] options@[i], maps(*pctx)) by { if i < vx_v.len() { assert(options@[i] == vx_v[i]); lemma_word_sub(elems(node)[i], vx_v[i], maps(vx_c), maps(*pctx)); } }
    }
@at loop 1 before
    let ghost mut vx_p: int = 0; let ghost mut vx_w: int = 0;
@at loop 1 iter it
@at loop 1 inv
    invariant it.seq() == elems(node), listed(node), node.name() == "word_pos"@, ctx_ok(*pctx), ctx_grown(*old(pctx), *pctx), subm(maps(*old(pctx)), maps(*pctx)),
        it.index() == one(pos_pattern is Some) + one(word_pattern is Some),
        pos_pattern is Some ==> 0 <= vx_p < it.index() && pos_part(elems(node)[vx_p], pos_pattern->0, maps(*pctx)),
        word_pattern is Some ==> 0 <= vx_w < it.index() && elems(node)[vx_w].name() != "pos"@ && word_is(elems(node)[vx_w], word_pattern->0, maps(*pctx)),
        forall|i: int| 0 <= i < elems(node).len() ==> (#[trigger] elems(node)[i]).height() < node.height(),
        forall|i: int, j: int| #![trigger elems(elems(node)[i])[j]] 0 <= i < elems(node).len() && 0 <= j < elems(elems(node)[i]).len() ==> elems(elems(node)[i])[j].height() < node.height(),
@at loop 1 start
    let ghost vx_c = *pctx;
@at loop 1 end
    proof { lemma_ctx_grown(*old(pctx), vx_c, *pctx); if cur.name() == "pos"@ { vx_p = it.index() as int; if word_pattern is Some { lemma_word_sub(elems(node)[vx_w], word_pattern->0, maps(vx_c), maps(*pctx)); } } else { vx_w = it.index() as int; if pos_pattern is Some { lemma_pos_sub(elems(elems(node)[vx_p])[0], pos_pattern->0, maps(vx_c), maps(*pctx)); assert(pos_part(elems(node)[vx_p], pos_pattern->0, maps(*pctx))); } } }
@at loop 1 after
    proof { if pos_pattern is Some && word_pattern is Some { assert(vx_w == 1 - vx_p); assert(pos_part(elems(node)[vx_p], pos_pattern->0, maps(*pctx))); } }
@fn SequencePattern::load_from_node
@props C21
@opt opaque-format
@ret r
@contract
    requires ctx_ok(*old(pctx))
    ensures r is Ok ==> ctx_ok(*final(pctx)) && ctx_grown(*old(pctx), *final(pctx)) && subm(maps(*old(pctx)), maps(*final(pctx))) && seq_is(node, r->Ok_0, maps(*final(pctx)))
    decreases node.height()
@at entry
    proof { lemma_lower(node); assert(keep(node.kids()) == elems(node)); assert(elems(node).len() > 0 ==> elems(node)[0].height() < node.height()); reveal_strlit("match_type"); reveal_strlit("starts_with_seq"); reveal_strlit("ends_with_seq"); assert("match_type"@.len() == 10 && "starts_with_seq"@.len() == 15 && "ends_with_seq"@.len() == 13); }
@at loop 0 iter it
@at loop 0 inv
    invariant it.seq() == elems(node), listed(node), ctx_ok(*pctx), ctx_grown(*old(pctx), *pctx), subm(maps(*old(pctx)), maps(*pctx)),
        elements@.len() == it.index(), forall|i: int| 0 <= i < elements@.len() ==> seq_is(elems(node)[i], #[trigger] elements@[i], maps(*pctx)),
        forall|i: int| 0 <= i < elems(node).len() ==> (#[trigger] elems(node)[i]).height() < node.height(),
@at loop 0 start
    let ghost vx_c = *pctx; let ghost vx_v = elements@;
@at loop 0 end
    proof {
        lemma_ctx_grown(*old(pctx), vx_c, *pctx);
        assert forall|i: int| 0 <= i < elements@.len() implies seq_is(elems(node)[i], #[trigger] elements@[i], maps(*pctx)) by { if i < vx_v.len() { assert(elements@[i] == vx_v[i]); lemma_seq_sub(elems(node)[i], vx_v[i], maps(vx_c), maps(*pctx)); } }
    }
@at loop 1 before
    let ghost mut vx_k: int = 0; let ghost mut vx_s: int = 0; let ghost mut vx_e: int = 0;
@at loop 1 iter it
@at loop 1 inv
    invariant it.seq() == elems(node), listed(node), node.name() == "phrase"@, ctx_ok(*pctx), ctx_grown(*old(pctx), *pctx), subm(maps(*old(pctx)), maps(*pctx)), 0 <= it.index() <= elems(node).len(),
        "match_type"@.len() == 10 && "starts_with_seq"@.len() == 15 && "ends_with_seq"@.len() == 13,
        phrase_parts(elems(node).take(it.index() as int)),
        none(elems(node).take(it.index() as int), "match_type"@) && match_type is Longest || 0 <= vx_k < it.index() && choice_part(elems(node)[vx_k], match_type),
        start is None ==> none(elems(node).take(it.index() as int), "starts_with_seq"@),
        start is Some ==> sole(elems(node).take(it.index() as int), "starts_with_seq"@, vx_s) && only(elems(node)[vx_s]) && containment(elems(node)[vx_s]) == Some((start->0).1) && seq_is(elems(elems(node)[vx_s])[0], *(start->0).0, maps(*pctx)),
        end is None ==> none(elems(node).take(it.index() as int), "ends_with_seq"@),
        end is Some ==> sole(elems(node).take(it.index() as int), "ends_with_seq"@, vx_e) && only(elems(node)[vx_e]) && seq_is(elems(elems(node)[vx_e])[0], *(end->0), maps(*pctx)),
        forall|i: int| 0 <= i < elems(node).len() ==> (#[trigger] elems(node)[i]).height() < node.height(),
        forall|i: int, j: int| #![trigger elems(elems(node)[i])[j]] 0 <= i < elems(node).len() && 0 <= j < elems(elems(node)[i]).len() ==> elems(elems(node)[i])[j].height() < node.height(),
@at loop 1 start
    let ghost vx_c = *pctx; let ghost vx_st = start; let ghost vx_en = end;
    proof { assert(cur == elems(node)[it.index() as int]); assert(elems(cur).len() > 0 ==> elems(elems(node)[it.index() as int])[0].height() < node.height()); }
@at loop 1 end
    proof {
        let ks = elems(node); let i = it.index() as int; lemma_ctx_grown(*old(pctx), vx_c, *pctx);
        assert(ks.take(i + 1) == ks.take(i).push(ks[i])); assert(cur == ks[i]);
        if cur.name() == "match_type"@ { vx_k = i; } else if cur.name() == "starts_with_seq"@ { vx_s = i; } else { vx_e = i; }
        if vx_st is Some { lemma_seq_sub(elems(ks[vx_s])[0], *(vx_st->0).0, maps(vx_c), maps(*pctx)); }
        if vx_en is Some { lemma_seq_sub(elems(ks[vx_e])[0], *(vx_en->0), maps(vx_c), maps(*pctx)); }
        let t = ks.take(i); let u = ks.take(i + 1);
        assert forall|j: int| 0 <= j < u.len() && j != i implies #[trigger] u[j] == t[j] by { }
    }
@at loop 1 after
    proof { assert(elems(node).take(elems(node).len() as int) == elems(node)); }
@at loop 2 iter it
@at loop 2 inv
    invariant it.seq() == elems(node), listed(node), ctx_ok(*pctx), ctx_grown(*old(pctx), *pctx), subm(maps(*old(pctx)), maps(*pctx)),
        elements@.len() == it.index(), forall|i: int| 0 <= i < elements@.len() ==> seq_is(elems(node)[i], #[trigger] elements@[i], maps(*pctx)),
        forall|i: int| 0 <= i < elems(node).len() ==> (#[trigger] elems(node)[i]).height() < node.height(),
@at loop 2 start
    let ghost vx_c = *pctx; let ghost vx_v = elements@;
@at loop 2 end
    proof {
        lemma_ctx_grown(*old(pctx), vx_c, *pctx);
        assert forall|i: int| 0 <= i < elements@.len() implies seq_is(elems(node)[i], #[trigger] elements@[i], maps(*pctx)) by { if i < vx_v.len() { assert(elements@[i] == vx_v[i]); lemma_seq_sub(elems(node)[i], vx_v[i], maps(vx_c), maps(*pctx)); } }
    }
@fn WordRule::generate_rule
@props C21
@ret r
@contract
    ensures r.pattern == pattern, r.description == description
@fn load_rule@WordRule::load_from_node
@props C21
@opt opaque-format
@ret r
@contract
    requires ctx_ok(*old(pctx))
    ensures r is Ok ==> ctx_ok(*final(pctx)) && ctx_grown(*old(pctx), *final(pctx)) && subm(maps(*old(pctx)), maps(*final(pctx))) && (r->Ok_0).defined_by(node, maps(*final(pctx)))
@at loop 0 before
    let ghost mut vx_r: int = 0; let ghost mut vx_m: int = 0;
@at loop 0 iter it
@at loop 0 inv
    invariant it.seq() == elems(node), listed(node), node.prop("name"@) == Some(name@), ctx_ok(*pctx), ctx_grown(*old(pctx), *pctx), subm(maps(*old(pctx)), maps(*pctx)),
        it.index() == one(meta_opt is Some) + one(rule_opt is Some),
        meta_opt is Some ==> 0 <= vx_m < it.index() && elems(node)[vx_m].name() == "meta"@ && meta_is(elems(node)[vx_m], name@, meta_opt->0),
        rule_opt is Some ==> 0 <= vx_r < it.index() && elems(node)[vx_r].name() != "meta"@ && word_is(elems(node)[vx_r], rule_opt->0, maps(*pctx)),
@at loop 0 start
    let ghost vx_c = *pctx;
@at loop 0 end
    proof { assert(cur == elems(node)[it.index() as int]); lemma_ctx_grown(*old(pctx), vx_c, *pctx); if cur.name() == "meta"@ { vx_m = it.index() as int; } else { vx_r = it.index() as int; } }
@at result
    proof { if vx_res is Ok { let d = (vx_res->Ok_0).description; if elems(node).len() == 2 { assert(vx_m == 1 - vx_r); } assert(body_at(node, d, vx_r)); } }
@fn WordRule::load_from_node
@props C21
@ret r
@contract
    requires ctx_ok(*old(pctx))
    ensures r is Ok ==> ctx_ok(*final(pctx)) && ctx_grown(*old(pctx), *final(pctx)) && subm(maps(*old(pctx)), maps(*final(pctx))) && (r->Ok_0).defined_by(node, maps(*final(pctx)))
@fn PCtx::add_word_rule
@props C21
@opt opaque-format
@ret r
@contract
    requires ctx_ok(*old(self))
    ensures r is Ok ==> ctx_ok(*final(self)) && subm(maps(*old(self)), maps(*final(self))) && added(node, old(self).word_name_map@, old(self).word_rules@, final(self).word_name_map@, final(self).word_rules@, maps(*final(self))),
        r is Ok ==> grown(old(self).seq_name_map@, old(self).seq_rules@, final(self).seq_name_map@, final(self).seq_rules@),
        r is Ok ==> grown(old(self).math_name_map@, old(self).math_rules@, final(self).math_name_map@, final(self).math_rules@),
        r is Ok ==> grown(old(self).mtext_name_map@, old(self).mtext_rules@, final(self).mtext_name_map@, final(self).mtext_rules@),
        r is Ok ==> grown(old(self).pos_name_map@, old(self).pos_rules@, final(self).pos_name_map@, final(self).pos_rules@),
@at before-call get_word_rule 0
    let ghost vx_b = *self; let ghost vx_rule = rule;
@at after-call get_word_rule 0
    let ghost vx_c = *self;
    proof { lemma_ctx_grown(*old(self), vx_b, vx_c); vx_rule.lemma_defined_sub(node, maps(vx_b), maps(vx_c)); vx_rule.lemma_title(node, maps(vx_b)); }
@at result
    proof {
        if vx_res is Ok {
            let vx_i = self.word_name_map@[node.prop("name"@)->0] as int;
            assert(self.word_rules@.update(vx_i, None) =~= vx_c.word_rules@);
            assert(defined(node, self.word_name_map@, self.word_rules@, maps(*self)));
            assert(vx_i < old(self).word_rules@.len() ==> vx_c.word_rules@[vx_i] == old(self).word_rules@[vx_i]);
        }
    }
@fn PosRule::generate_rule
@props C21
@ret r
@contract
    ensures r.pattern == pattern, r.description == description
@fn load_rule@PosRule::load_from_node
@props C21
@opt opaque-format
@ret r
@contract
    requires ctx_ok(*old(pctx))
    ensures r is Ok ==> ctx_ok(*final(pctx)) && ctx_grown(*old(pctx), *final(pctx)) && subm(maps(*old(pctx)), maps(*final(pctx))) && (r->Ok_0).defined_by(node, maps(*final(pctx)))
@at loop 0 before
    let ghost mut vx_r: int = 0; let ghost mut vx_m: int = 0;
@at loop 0 iter it
@at loop 0 inv
    invariant it.seq() == elems(node), listed(node), node.prop("name"@) == Some(name@), ctx_ok(*pctx), ctx_grown(*old(pctx), *pctx), subm(maps(*old(pctx)), maps(*pctx)),
        it.index() == one(meta_opt is Some) + one(rule_opt is Some),
        meta_opt is Some ==> 0 <= vx_m < it.index() && elems(node)[vx_m].name() == "meta"@ && meta_is(elems(node)[vx_m], name@, meta_opt->0),
        rule_opt is Some ==> 0 <= vx_r < it.index() && elems(node)[vx_r].name() != "meta"@ && pos_is(elems(node)[vx_r], rule_opt->0, maps(*pctx)),
@at loop 0 start
    let ghost vx_c = *pctx;
@at loop 0 end
    proof { assert(cur == elems(node)[it.index() as int]); lemma_ctx_grown(*old(pctx), vx_c, *pctx); if cur.name() == "meta"@ { vx_m = it.index() as int; } else { vx_r = it.index() as int; } }
@at result
    proof { if vx_res is Ok { let d = (vx_res->Ok_0).description; if elems(node).len() == 2 { assert(vx_m == 1 - vx_r); } assert(body_at(node, d, vx_r)); } }
@fn PosRule::load_from_node
@props C21
@ret r
@contract
    requires ctx_ok(*old(pctx))
    ensures r is Ok ==> ctx_ok(*final(pctx)) && ctx_grown(*old(pctx), *final(pctx)) && subm(maps(*old(pctx)), maps(*final(pctx))) && (r->Ok_0).defined_by(node, maps(*final(pctx)))
@fn PCtx::add_pos_rule
@props C21
@opt opaque-format
@ret r
@contract
    requires ctx_ok(*old(self))
    ensures r is Ok ==> ctx_ok(*final(self)) && subm(maps(*old(self)), maps(*final(self))) && added(node, old(self).pos_name_map@, old(self).pos_rules@, final(self).pos_name_map@, final(self).pos_rules@, maps(*final(self))),
        r is Ok ==> grown(old(self).word_name_map@, old(self).word_rules@, final(self).word_name_map@, final(self).word_rules@),
        r is Ok ==> grown(old(self).seq_name_map@, old(self).seq_rules@, final(self).seq_name_map@, final(self).seq_rules@),
        r is Ok ==> grown(old(self).math_name_map@, old(self).math_rules@, final(self).math_name_map@, final(self).math_rules@),
        r is Ok ==> grown(old(self).mtext_name_map@, old(self).mtext_rules@, final(self).mtext_name_map@, final(self).mtext_rules@),
@at before-call get_pos_rule 0
    let ghost vx_b = *self; let ghost vx_rule = rule;
@at after-call get_pos_rule 0
    let ghost vx_c = *self;
    proof { lemma_ctx_grown(*old(self), vx_b, vx_c); vx_rule.lemma_defined_sub(node, maps(vx_b), maps(vx_c)); vx_rule.lemma_title(node, maps(vx_b)); }
@at result
    proof {
        if vx_res is Ok {
            let vx_i = self.pos_name_map@[node.prop("name"@)->0] as int;
            assert(self.pos_rules@.update(vx_i, None) =~= vx_c.pos_rules@);
            assert(defined(node, self.pos_name_map@, self.pos_rules@, maps(*self)));
            assert(vx_i < old(self).pos_rules@.len() ==> vx_c.pos_rules@[vx_i] == old(self).pos_rules@[vx_i]);
        }
    }
@fn MathRule::generate_rule
@props C21
@ret r
@contract
    ensures r.pattern == pattern, r.description == description
@fn load_rule@MathRule::load_from_node
@props C21
@opt opaque-format
@ret r
@contract
    requires ctx_ok(*old(pctx))
    ensures r is Ok ==> ctx_ok(*final(pctx)) && ctx_grown(*old(pctx), *final(pctx)) && subm(maps(*old(pctx)), maps(*final(pctx))) && (r->Ok_0).defined_by(node, maps(*final(pctx)))
@at loop 0 before
    let ghost mut vx_r: int = 0; let ghost mut vx_m: int = 0;
@at loop 0 iter it
@at loop 0 inv
    invariant it.seq() == elems(node), listed(node), node.prop("name"@) == Some(name@), ctx_ok(*pctx), ctx_grown(*old(pctx), *pctx), subm(maps(*old(pctx)), maps(*pctx)),
        it.index() == one(meta_opt is Some) + one(rule_opt is Some),
        meta_opt is Some ==> 0 <= vx_m < it.index() && elems(node)[vx_m].name() == "meta"@ && meta_is(elems(node)[vx_m], name@, meta_opt->0),
        rule_opt is Some ==> 0 <= vx_r < it.index() && elems(node)[vx_r].name() != "meta"@ && math_is(elems(node)[vx_r], rule_opt->0, maps(*pctx)),
@at loop 0 start
    let ghost vx_c = *pctx;
@at loop 0 end
    proof { assert(cur == elems(node)[it.index() as int]); lemma_ctx_grown(*old(pctx), vx_c, *pctx); if cur.name() == "meta"@ { vx_m = it.index() as int; } else { vx_r = it.index() as int; } }
@at result
    proof { if vx_res is Ok { let d = (vx_res->Ok_0).description; if elems(node).len() == 2 { assert(vx_m == 1 - vx_r); } assert(body_at(node, d, vx_r)); } }
@fn MathRule::load_from_node
@props C21
@ret r
@contract
    requires ctx_ok(*old(pctx))
    ensures r is Ok ==> ctx_ok(*final(pctx)) && ctx_grown(*old(pctx), *final(pctx)) && subm(maps(*old(pctx)), maps(*final(pctx))) && (r->Ok_0).defined_by(node, maps(*final(pctx)))
@fn PCtx::add_math_rule
@props C21
@opt opaque-format
@ret r
@contract
    requires ctx_ok(*old(self))
    ensures r is Ok ==> ctx_ok(*final(self)) && subm(maps(*old(self)), maps(*final(self))) && added(node, old(self).math_name_map@, old(self).math_rules@, final(self).math_name_map@, final(self).math_rules@, maps(*final(self))),
        r is Ok ==> grown(old(self).word_name_map@, old(self).word_rules@, final(self).word_name_map@, final(self).word_rules@),
        r is Ok ==> grown(old(self).seq_name_map@, old(self).seq_rules@, final(self).seq_name_map@, final(self).seq_rules@),
        r is Ok ==> grown(old(self).mtext_name_map@, old(self).mtext_rules@, final(self).mtext_name_map@, final(self).mtext_rules@),
        r is Ok ==> grown(old(self).pos_name_map@, old(self).pos_rules@, final(self).pos_name_map@, final(self).pos_rules@),
@at before-call get_math_rule 0
    let ghost vx_b = *self; let ghost vx_rule = rule;
@at after-call get_math_rule 0
    let ghost vx_c = *self;
    proof { lemma_ctx_grown(*old(self), vx_b, vx_c); vx_rule.lemma_defined_sub(node, maps(vx_b), maps(vx_c)); vx_rule.lemma_title(node, maps(vx_b)); }
@at result
    proof {
        if vx_res is Ok {
            let vx_i = self.math_name_map@[node.prop("name"@)->0] as int;
            assert(self.math_rules@.update(vx_i, None) =~= vx_c.math_rules@);
            assert(defined(node, self.math_name_map@, self.math_rules@, maps(*self)));
            assert(vx_i < old(self).math_rules@.len() ==> vx_c.math_rules@[vx_i] == old(self).math_rules@[vx_i]);
        }
    }
@fn MTextRule::generate_rule
@props C21
@ret r
@contract
    ensures r.pattern == pattern, r.description == description
@fn load_rule@MTextRule::load_from_node
@props C21
@opt opaque-format
@ret r
@contract
    requires ctx_ok(*old(pctx))
    ensures r is Ok ==> ctx_ok(*final(pctx)) && ctx_grown(*old(pctx), *final(pctx)) && subm(maps(*old(pctx)), maps(*final(pctx))) && (r->Ok_0).defined_by(node, maps(*final(pctx)))
@at loop 0 before
    let ghost mut vx_r: int = 0; let ghost mut vx_m: int = 0;
@at loop 0 iter it
@at loop 0 inv
    invariant it.seq() == elems(node), listed(node), node.prop("name"@) == Some(name@), ctx_ok(*pctx), ctx_grown(*old(pctx), *pctx), subm(maps(*old(pctx)), maps(*pctx)),
        it.index() == one(meta_opt is Some) + one(rule_opt is Some),
        meta_opt is Some ==> 0 <= vx_m < it.index() && elems(node)[vx_m].name() == "meta"@ && meta_is(elems(node)[vx_m], name@, meta_opt->0),
        rule_opt is Some ==> 0 <= vx_r < it.index() && elems(node)[vx_r].name() != "meta"@ && mtext_is(elems(node)[vx_r], rule_opt->0, maps(*pctx)),
@at loop 0 start
    let ghost vx_c = *pctx;
@at loop 0 end
    proof { assert(cur == elems(node)[it.index() as int]); lemma_ctx_grown(*old(pctx), vx_c, *pctx); if cur.name() == "meta"@ { vx_m = it.index() as int; } else { vx_r = it.index() as int; } }
@at result
    proof { if vx_res is Ok { let d = (vx_res->Ok_0).description; if elems(node).len() == 2 { assert(vx_m == 1 - vx_r); } assert(body_at(node, d, vx_r)); } }
@fn MTextRule::load_from_node
@props C21
@ret r
@contract
    requires ctx_ok(*old(pctx))
    ensures r is Ok ==> ctx_ok(*final(pctx)) && ctx_grown(*old(pctx), *final(pctx)) && subm(maps(*old(pctx)), maps(*final(pctx))) && (r->Ok_0).defined_by(node, maps(*final(pctx)))
@fn PCtx::add_mtext_rule
@props C21
@opt opaque-format
@ret r
@contract
    requires ctx_ok(*old(self))
    ensures r is Ok ==> ctx_ok(*final(self)) && subm(maps(*old(self)), maps(*final(self))) && added(node, old(self).mtext_name_map@, old(self).mtext_rules@, final(self).mtext_name_map@, final(self).mtext_rules@, maps(*final(self))),
        r is Ok ==> grown(old(self).word_name_map@, old(self).word_rules@, final(self).word_name_map@, final(self).word_rules@),
        r is Ok ==> grown(old(self).seq_name_map@, old(self).seq_rules@, final(self).seq_name_map@, final(self).seq_rules@),
        r is Ok ==> grown(old(self).math_name_map@, old(self).math_rules@, final(self).math_name_map@, final(self).math_rules@),
        r is Ok ==> grown(old(self).pos_name_map@, old(self).pos_rules@, final(self).pos_name_map@, final(self).pos_rules@),
@at before-call get_mtext_rule 0
    let ghost vx_b = *self; let ghost vx_rule = rule;
@at after-call get_mtext_rule 0
    let ghost vx_c = *self;
    proof { lemma_ctx_grown(*old(self), vx_b, vx_c); vx_rule.lemma_defined_sub(node, maps(vx_b), maps(vx_c)); vx_rule.lemma_title(node, maps(vx_b)); }
@at result
    proof {
        if vx_res is Ok {
            let vx_i = self.mtext_name_map@[node.prop("name"@)->0] as int;
            assert(self.mtext_rules@.update(vx_i, None) =~= vx_c.mtext_rules@);
            assert(defined(node, self.mtext_name_map@, self.mtext_rules@, maps(*self)));
            assert(vx_i < old(self).mtext_rules@.len() ==> vx_c.mtext_rules@[vx_i] == old(self).mtext_rules@[vx_i]);
        }
    }
@fn SequenceRule::generate_rule
@props C21
@ret r
@contract
    ensures r.pattern == pattern, r.description == description
@fn load_rule@SequenceRule::load_from_node
@props C21
@opt opaque-format
@ret r
@contract
    requires ctx_ok(*old(pctx))
    ensures r is Ok ==> ctx_ok(*final(pctx)) && ctx_grown(*old(pctx), *final(pctx)) && subm(maps(*old(pctx)), maps(*final(pctx))) && (r->Ok_0).defined_by(node, maps(*final(pctx)))
@at loop 0 before
    let ghost mut vx_r: int = 0; let ghost mut vx_m: int = 0;
@at loop 0 iter it
@at loop 0 inv
    invariant it.seq() == elems(node), listed(node), node.prop("name"@) == Some(name@), ctx_ok(*pctx), ctx_grown(*old(pctx), *pctx), subm(maps(*old(pctx)), maps(*pctx)),
        it.index() == one(meta_opt is Some) + one(rule_opt is Some),
        meta_opt is Some ==> 0 <= vx_m < it.index() && elems(node)[vx_m].name() == "meta"@ && meta_is(elems(node)[vx_m], name@, meta_opt->0),
        rule_opt is Some ==> 0 <= vx_r < it.index() && elems(node)[vx_r].name() != "meta"@ && seq_is(elems(node)[vx_r], rule_opt->0, maps(*pctx)),
@at loop 0 start
    let ghost vx_c = *pctx;
@at loop 0 end
    proof { assert(cur == elems(node)[it.index() as int]); lemma_ctx_grown(*old(pctx), vx_c, *pctx); if cur.name() == "meta"@ { vx_m = it.index() as int; } else { vx_r = it.index() as int; } }
@at result
    proof { if vx_res is Ok { let d = (vx_res->Ok_0).description; if elems(node).len() == 2 { assert(vx_m == 1 - vx_r); } assert(body_at(node, d, vx_r)); } }
@fn SequenceRule::load_from_node
@props C21
@ret r
@contract
    requires ctx_ok(*old(pctx))
    ensures r is Ok ==> ctx_ok(*final(pctx)) && ctx_grown(*old(pctx), *final(pctx)) && subm(maps(*old(pctx)), maps(*final(pctx))) && (r->Ok_0).defined_by(node, maps(*final(pctx)))
@fn PCtx::add_sequence_rule
@props C21
@opt opaque-format
@ret r
@contract
    requires ctx_ok(*old(self))
    ensures r is Ok ==> ctx_ok(*final(self)) && subm(maps(*old(self)), maps(*final(self))) && added(node, old(self).seq_name_map@, old(self).seq_rules@, final(self).seq_name_map@, final(self).seq_rules@, maps(*final(self))),
        r is Ok ==> grown(old(self).word_name_map@, old(self).word_rules@, final(self).word_name_map@, final(self).word_rules@),
        r is Ok ==> grown(old(self).math_name_map@, old(self).math_rules@, final(self).math_name_map@, final(self).math_rules@),
        r is Ok ==> grown(old(self).mtext_name_map@, old(self).mtext_rules@, final(self).mtext_name_map@, final(self).mtext_rules@),
        r is Ok ==> grown(old(self).pos_name_map@, old(self).pos_rules@, final(self).pos_name_map@, final(self).pos_rules@),
@at before-call get_sequence_rule 0
    let ghost vx_b = *self; let ghost vx_rule = rule;
@at after-call get_sequence_rule 0
    let ghost vx_c = *self;
    proof { lemma_ctx_grown(*old(self), vx_b, vx_c); vx_rule.lemma_defined_sub(node, maps(vx_b), maps(vx_c)); vx_rule.lemma_title(node, maps(vx_b)); }
@at result
    proof {
        if vx_res is Ok {
            let vx_i = self.seq_name_map@[node.prop("name"@)->0] as int;
            assert(self.seq_rules@.update(vx_i, None) =~= vx_c.seq_rules@);
            assert(defined(node, self.seq_name_map@, self.seq_rules@, maps(*self)));
            assert(vx_i < old(self).seq_rules@.len() ==> vx_c.seq_rules@[vx_i] == old(self).seq_rules@[vx_i]);
        }
    }
@fn PCtx::verify
@props C21
@opt opaque-format
@opt ref-iter
@attr #[verifier::loop_isolation(false)]
@ret r
@contract
    requires ctx_ok(*self)
    ensures r is Ok ==> all_some(self.word_rules@) && all_some(self.seq_rules@) && all_some(self.math_rules@) && all_some(self.mtext_rules@) && all_some(self.pos_rules@)
@at loop 0 iter it
@at loop 0 inv
    invariant vx_lists_map(it.seq(), self.pos_name_map@), ctx_ok(*self), forall|j: int| 0 <= j < it.index() ==> self.pos_rules@[*(#[trigger] it.seq()[j]).1 as int] is Some,
@at loop 0 after
    proof { assert forall|i: int| 0 <= i < self.pos_rules@.len() implies (#[trigger] self.pos_rules@[i]) is Some by { assert(named(self.pos_name_map@, i)); let a = choose|a: Seq<char>| #[trigger] self.pos_name_map@.dom().contains(a) && self.pos_name_map@[a] == i; } }
@at loop 1 iter it
@at loop 1 inv
    invariant vx_lists_map(it.seq(), self.math_name_map@), ctx_ok(*self), forall|j: int| 0 <= j < it.index() ==> self.math_rules@[*(#[trigger] it.seq()[j]).1 as int] is Some,
@at loop 1 after
    proof { assert forall|i: int| 0 <= i < self.math_rules@.len() implies (#[trigger] self.math_rules@[i]) is Some by { assert(named(self.math_name_map@, i)); let a = choose|a: Seq<char>| #[trigger] self.math_name_map@.dom().contains(a) && self.math_name_map@[a] == i; } }
@at loop 2 iter it
@at loop 2 inv
    invariant vx_lists_map(it.seq(), self.mtext_name_map@), ctx_ok(*self), forall|j: int| 0 <= j < it.index() ==> self.mtext_rules@[*(#[trigger] it.seq()[j]).1 as int] is Some,
@at loop 2 after
    proof { assert forall|i: int| 0 <= i < self.mtext_rules@.len() implies (#[trigger] self.mtext_rules@[i]) is Some by { assert(named(self.mtext_name_map@, i)); let a = choose|a: Seq<char>| #[trigger] self.mtext_name_map@.dom().contains(a) && self.mtext_name_map@[a] == i; } }
@at loop 3 iter it
@at loop 3 inv
    invariant vx_lists_map(it.seq(), self.seq_name_map@), ctx_ok(*self), forall|j: int| 0 <= j < it.index() ==> self.seq_rules@[*(#[trigger] it.seq()[j]).1 as int] is Some,
@at loop 3 after
    proof { assert forall|i: int| 0 <= i < self.seq_rules@.len() implies (#[trigger] self.seq_rules@[i]) is Some by { assert(named(self.seq_name_map@, i)); let a = choose|a: Seq<char>| #[trigger] self.seq_name_map@.dom().contains(a) && self.seq_name_map@[a] == i; } }
@at loop 4 iter it
@at loop 4 inv
    invariant vx_lists_map(it.seq(), self.word_name_map@), ctx_ok(*self), forall|j: int| 0 <= j < it.index() ==> self.word_rules@[*(#[trigger] it.seq()[j]).1 as int] is Some,
@at loop 4 after
    proof { assert forall|i: int| 0 <= i < self.word_rules@.len() implies (#[trigger] self.word_rules@[i]) is Some by { assert(named(self.word_name_map@, i)); let a = choose|a: Seq<char>| #[trigger] self.word_name_map@.dom().contains(a) && self.word_name_map@[a] == i; } }
@fn PatternFile::load
@props C21
@attr #[verifier::loop_isolation(false)]
@opt opaque-format
@ret r
@contract
    ensures r is Ok ==> parsed_file(file_name@) is Some && parsed_file(file_name@)->0 is Some && says((parsed_file(file_name@)->0)->0, r->Ok_0, file_name@)
@closure 1 |e: String| -> (vx_r: String) ensures true
@closure 2 |o: &Option<_>| -> (vx_r: _) requires o is Some ensures vx_holds(*o, vx_r)
@closure 3 |o: &Option<_>| -> (vx_r: _) requires o is Some ensures vx_holds(*o, vx_r)
@closure 4 |o: &Option<_>| -> (vx_r: _) requires o is Some ensures vx_holds(*o, vx_r)
@closure 5 |o: &Option<_>| -> (vx_r: _) requires o is Some ensures vx_holds(*o, vx_r)
@closure 6 |o: &Option<_>| -> (vx_r: _) requires o is Some ensures vx_holds(*o, vx_r)
@at entry
    proof { reveal_strlit("meta"); reveal_strlit("word_rule"); reveal_strlit("seq_rule"); reveal_strlit("math_rule"); reveal_strlit("mtext_rule"); reveal_strlit("pos_rule");
        assert("word_rule"@.len() == 9 && "math_rule"@.len() == 9 && "mtext_rule"@.len() == 10 && "pos_rule"@.len() == 8 && "seq_rule"@.len() == 8 && "meta"@.len() == 4); assert("word_rule"@[0] == 'w' && "math_rule"@[0] == 'm' && "pos_rule"@[0] == 'p' && "seq_rule"@[0] == 's'); }
@at loop 0 before
    let ghost mut vx_m: int = 0; let ghost vx_root = root_node;
@at loop 0 iter it
@at loop 0 inv
    invariant it.seq() == elems(root_node), listed(root_node), ctx_ok(pctx), 0 <= it.index() <= elems(root_node).len(),
        distinct_kinds(),
        forall|a: int| 0 <= a < it.index() ==> file_part(#[trigger] elems(root_node)[a]),
        meta_opt is None ==> none(elems(root_node).take(it.index() as int), "meta"@),
        meta_opt is Some ==> sole(elems(root_node).take(it.index() as int), "meta"@, vx_m) && meta_is(elems(root_node)[vx_m], file_name@, meta_opt->0),
        read("word_rule"@, elems(root_node), it.index() as int, pctx.word_name_map@, pctx.word_rules@, maps(pctx)),
        read("seq_rule"@, elems(root_node), it.index() as int, pctx.seq_name_map@, pctx.seq_rules@, maps(pctx)),
        read("math_rule"@, elems(root_node), it.index() as int, pctx.math_name_map@, pctx.math_rules@, maps(pctx)),
        read("mtext_rule"@, elems(root_node), it.index() as int, pctx.mtext_name_map@, pctx.mtext_rules@, maps(pctx)),
        read("pos_rule"@, elems(root_node), it.index() as int, pctx.pos_name_map@, pctx.pos_rules@, maps(pctx)),
@at loop 0 start
    let ghost vx_c = pctx; let ghost vx_mo = meta_opt;
@at loop 0 end
    proof {
            let ks = elems(root_node); let i = it.index() as int; assert(ks.take(i + 1) == ks.take(i).push(ks[i])); assert(cur == ks[i]);
            if cur.name() == "meta"@ { vx_m = i; }
            let t = ks.take(i); let u = ks.take(i + 1);
            assert forall|j: int| 0 <= j < u.len() && j != i implies #[trigger] u[j] == t[j] by { }
            if cur.name() == "word_rule"@ { lemma_read_added("word_rule"@, ks, i, vx_c.word_name_map@, vx_c.word_rules@, maps(vx_c), pctx.word_name_map@, pctx.word_rules@, maps(pctx)); } else { lemma_read_grown("word_rule"@, ks, i, vx_c.word_name_map@, vx_c.word_rules@, maps(vx_c), pctx.word_name_map@, pctx.word_rules@, maps(pctx)); }
            if cur.name() == "seq_rule"@ { lemma_read_added("seq_rule"@, ks, i, vx_c.seq_name_map@, vx_c.seq_rules@, maps(vx_c), pctx.seq_name_map@, pctx.seq_rules@, maps(pctx)); } else { lemma_read_grown("seq_rule"@, ks, i, vx_c.seq_name_map@, vx_c.seq_rules@, maps(vx_c), pctx.seq_name_map@, pctx.seq_rules@, maps(pctx)); }
            if cur.name() == "math_rule"@ { lemma_read_added("math_rule"@, ks, i, vx_c.math_name_map@, vx_c.math_rules@, maps(vx_c), pctx.math_name_map@, pctx.math_rules@, maps(pctx)); } else { lemma_read_grown("math_rule"@, ks, i, vx_c.math_name_map@, vx_c.math_rules@, maps(vx_c), pctx.math_name_map@, pctx.math_rules@, maps(pctx)); }
            if cur.name() == "mtext_rule"@ { lemma_read_added("mtext_rule"@, ks, i, vx_c.mtext_name_map@, vx_c.mtext_rules@, maps(vx_c), pctx.mtext_name_map@, pctx.mtext_rules@, maps(pctx)); } else { lemma_read_grown("mtext_rule"@, ks, i, vx_c.mtext_name_map@, vx_c.mtext_rules@, maps(vx_c), pctx.mtext_name_map@, pctx.mtext_rules@, maps(pctx)); }
            if cur.name() == "pos_rule"@ { lemma_read_added("pos_rule"@, ks, i, vx_c.pos_name_map@, vx_c.pos_rules@, maps(vx_c), pctx.pos_name_map@, pctx.pos_rules@, maps(pctx)); } else { lemma_read_grown("pos_rule"@, ks, i, vx_c.pos_name_map@, vx_c.pos_rules@, maps(vx_c), pctx.pos_name_map@, pctx.pos_rules@, maps(pctx)); }
    }
@at loop 0 after
    proof { assert(elems(vx_root).take(elems(vx_root).len() as int) == elems(vx_root)); }
@at after-call verify 0
    let ghost vx_p = pctx;
@at result
    proof {
        if vx_res is Ok {
            lemma_complete("word_rule"@, elems(vx_root), vx_p.word_name_map@, vx_p.word_rules@, (vx_res->Ok_0).word_rules@, maps(vx_p));
            lemma_complete("seq_rule"@, elems(vx_root), vx_p.seq_name_map@, vx_p.seq_rules@, (vx_res->Ok_0).sequence_rules@, maps(vx_p));
            lemma_complete("math_rule"@, elems(vx_root), vx_p.math_name_map@, vx_p.math_rules@, (vx_res->Ok_0).math_rules@, maps(vx_p));
            lemma_complete("mtext_rule"@, elems(vx_root), vx_p.mtext_name_map@, vx_p.mtext_rules@, (vx_res->Ok_0).mtext_rules@, maps(vx_p));
            lemma_complete("pos_rule"@, elems(vx_root), vx_p.pos_name_map@, vx_p.pos_rules@, (vx_res->Ok_0).pos_rules@, maps(vx_p));
        }
    }
