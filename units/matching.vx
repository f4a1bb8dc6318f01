@include prelude.inc
@include hashmap.inc
@include eq.inc
@include text.inc
@include node.inc
@include dnmtypes.inc
@method is_empty => vx_is_empty
@method to_string => vx_to_string
@method iter => vx_iter
@method any => vx_any
@method cmp => vx_cmp
@method reverse => vx_reverse
@method extend_from_slice => vx_extend_from_slice
@contracts utilfns.inc
@contracts rangefns.inc
@include patterns.inc
@include patrefs.inc
@verbatim
// ---------- what the patterns mean ----------
spec fn posm(pf: PatternFile, p: PosPattern, t: POS) -> bool decreases pos_deep(pf, p), p when pos_ok(pf) && pos_refs(pf, p) via posm_dec {
    match p {
        PosPattern::Pos(q) => q == t,
        PosPattern::PosNot(q) => !posm(pf, *q, t),
        PosPattern::PosOr(ps) => exists|i: int| 0 <= i < ps@.len() && posm(pf, #[trigger] ps[i], t),
        PosPattern::PosRef(o) => posm(pf, pf.pos_rules@[o as int].pattern, t),
    }
}
#[via_fn]
proof fn posm_dec(pf: PatternFile, p: PosPattern, t: POS) { lemma_pos_deep(pf, p); }
spec fn mtextm(pf: PatternFile, p: MTextPattern, t: Seq<char>) -> bool decreases mtext_deep(pf, p), p when mtext_ok(pf) && mtext_refs(pf, p) via mtextm_dec {
    match p {
        MTextPattern::AnyMText => true,
        MTextPattern::MTextLit(s) => s@ == t,
        MTextPattern::MTextNot(q) => !mtextm(pf, *q, t),
        MTextPattern::MTextOr(ps) => exists|i: int| 0 <= i < ps@.len() && mtextm(pf, #[trigger] ps[i], t),
        MTextPattern::MTextRef(o) => mtextm(pf, pf.mtext_rules@[o as int].pattern, t),
    }
}
#[via_fn]
proof fn mtextm_dec(pf: PatternFile, p: MTextPattern, t: Seq<char>) { lemma_mtext_deep(pf, p); }
@src src/patterns/matching.rs
@type Match
@type InternalMathMatch
@type InternalWordMatch
@type InternalSeqMatch
@type PhraseTree
@verbatim
// ---------- matches, as finite trees of markers ----------
struct GM<'t> { mk: MarkerEnum<'t>, subs: Seq<GM<'t>> }
spec fn gm<'t>(m: Match<'t>) -> GM<'t> decreases m { GM { mk: m.marker, subs: Seq::new(m.sub_matches@.len(), |i: int| if 0 <= i < m.sub_matches@.len() { gm(m.sub_matches[i]) } else { arbitrary() }) } }
spec fn gms<'t>(s: Seq<Match<'t>>) -> Seq<GM<'t>> { Seq::new(s.len(), |i: int| gm(s[i])) }
proof fn lemma_gms<'t>()
    ensures
        gms(Seq::<Match<'t>>::empty()) == Seq::<GM<'t>>::empty(),
        forall|a: Seq<Match<'t>>, b: Seq<Match<'t>>| #[trigger] gms(a + b) == gms(a) + gms(b),
{
    assert(gms(Seq::<Match<'t>>::empty()) =~= Seq::<GM<'t>>::empty());
    assert forall|a: Seq<Match<'t>>, b: Seq<Match<'t>>| #[trigger] gms(a + b) == gms(a) + gms(b) by { assert(gms(a + b) =~= gms(a) + gms(b)); }
}
proof fn lemma_gms_one<'t>(s: Seq<Match<'t>>) ensures s.len() == 1 ==> gms(s) == seq![GM { mk: s[0].marker, subs: gms(s[0].sub_matches@) }] {
    if s.len() == 1 { assert(gms(s) =~= seq![gm(s[0])]); assert(gm(s[0]).subs =~= gms(s[0].sub_matches@)); }
}
// derived Clone copies a match
impl<'t> Clone for Match<'t> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<'t> Clone for MarkerEnum<'t> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
trait VxExtendFrom<T> { fn vx_extend_from_slice(&mut self, o: &[T]); }
impl<'t> VxExtendFrom<Match<'t>> for Vec<Match<'t>> { #[verifier::external_body] fn vx_extend_from_slice(&mut self, o: &[Match<'t>]) ensures final(self)@ == old(self)@ + o@ { self.extend_from_slice(o) } }
impl<'t> VxExtendFrom<MarkerEnum<'t>> for Vec<MarkerEnum<'t>> { #[verifier::external_body] fn vx_extend_from_slice(&mut self, o: &[MarkerEnum<'t>]) ensures final(self)@ == old(self)@ + o@ { self.extend_from_slice(o) } }
spec fn none_or<'t>(a: Option<Seq<GM<'t>>>) -> Seq<GM<'t>> { match a { Some(s) => s, None => Seq::empty() } }
spec fn marked<'t>(a: Option<Seq<GM<'t>>>, mk: MarkerEnum<'t>) -> Option<Seq<GM<'t>>> { match a { Some(s) => Some(seq![GM { mk, subs: s }]), None => None } }
// both: the matches of a, then those of b
spec fn both<'t>(a: Option<Seq<GM<'t>>>, b: Option<Seq<GM<'t>>>) -> Option<Seq<GM<'t>>> { match (a, b) { (Some(x), Some(y)) => Some(x + y), _ => None } }
// collecting from a depth-first walk: the first that matches, or all that match
spec fn collect<'t>(ty: MathDescendantMatchType, a: Option<Seq<GM<'t>>>, b: Option<Seq<GM<'t>>>) -> Option<Seq<GM<'t>>> {
    match (a, b) { (None, _) => b, (_, None) => a, (Some(x), Some(y)) => if ty is First { a } else { Some(x + y) } }
}
spec fn elems(n: RoNode) -> Seq<RoNode> { keep(n.kids()) }
proof fn lemma_keep_in(s: Seq<RoNode>) ensures forall|i: int| 0 <= i < keep(s).len() ==> s.contains(#[trigger] keep(s)[i]) decreases s.len() {
    if s.len() > 0 { let t = s.drop_last(); lemma_keep_in(t); assert forall|i: int| 0 <= i < keep(s).len() implies s.contains(#[trigger] keep(s)[i]) by {
        if i < keep(t).len() { let j = choose|j: int| 0 <= j < t.len() && t[j] == keep(t)[i]; assert(s[j] == keep(s)[i]); } else { assert(s[s.len() - 1] == keep(s)[i]); } } }
}
proof fn lemma_elems(n: RoNode) ensures forall|i: int| 0 <= i < elems(n).len() ==> (#[trigger] elems(n)[i]).height() < n.height() {
    n.axiom_tree(); lemma_keep_in(n.kids());
    assert forall|i: int| 0 <= i < elems(n).len() implies (#[trigger] elems(n)[i]).height() < n.height() by { let j = choose|j: int| 0 <= j < n.kids().len() && n.kids()[j] == elems(n)[i]; assert(n.kids()[j].height() < n.height()); }
}
// the first index at which the children match
spec fn mathm<'t>(pf: PatternFile, p: MathPattern, n: RoNode) -> Option<Seq<GM<'t>>> decreases math_deep(pf, p), p, n.height(), 4int, 0int when math_ok(pf) && math_refs(pf, p) via mathm_dec {
    match p {
        MathPattern::AnyMath => Some(Seq::empty()),
        MathPattern::MathRef(o) => mathm(pf, pf.math_rules@[o as int].pattern, n),
        MathPattern::Marked(q, mk) => marked(mathm(pf, *q, n), MarkerEnum::Math(MathMarker { node: n, marker: mk })),
        MathPattern::MathOr(ps) => math_or(pf, p, ps, n, 0),
        MathPattern::MathNode(name, text, children) =>
            if !(name matches Some(s) ==> s@ == n.name()) { None }
            else if !(text matches Some(o) ==> simple(n.kids()) && mtextm(pf, pf.mtext_rules@[o as int].pattern, simple_text(n.kids(), false))) { None }
            else { match children {
                None => Some(Seq::empty()),
                Some((ps, ty)) => { let extra = elems(n).len() - ps@.len();
                    if extra < 0 { None } else { match ty {
                        MathChildrenMatchType::StartsWith => math_kids(pf, p, ps, n, 0, ps@.len() as int),
                        MathChildrenMatchType::MatchesExactly => if extra == 0 { math_kids(pf, p, ps, n, 0, ps@.len() as int) } else { None },
                        MathChildrenMatchType::EndsWith => math_kids(pf, p, ps, n, extra, ps@.len() as int),
                        MathChildrenMatchType::Arbitrary => math_kids_from(pf, p, ps, n, 0),
                    } } }
            } },
        MathPattern::MathDescendant(q, ty) => { let r = desc(pf, p, *q, ty, n); if ty is Arbitrary { Some(none_or(r)) } else { r } },
    }
}
// the first alternative, from the k-th on, that matches
spec fn math_or<'t>(pf: PatternFile, p: MathPattern, ps: Vec<MathPattern>, n: RoNode, k: int) -> Option<Seq<GM<'t>>> decreases math_deep(pf, p), p, n.height(), 0int, ps@.len() - k when math_ok(pf) && math_refs(pf, p) && p == MathPattern::MathOr(ps) && 0 <= k via math_or_dec {
    if k >= ps@.len() { None } else { let a = mathm(pf, ps[k], n); if a is Some { a } else { math_or(pf, p, ps, n, k + 1) } }
}
// the first k child patterns on the element children from `start` on
spec fn math_kids<'t>(pf: PatternFile, p: MathPattern, ps: Vec<MathPattern>, n: RoNode, start: int, k: int) -> Option<Seq<GM<'t>>> decreases math_deep(pf, p), p, n.height(), 0int, k when math_ok(pf) && math_refs(pf, p) && is_node(p, ps) && 0 <= start && start + ps@.len() <= elems(n).len() && 0 <= k <= ps@.len() via math_kids_dec {
    if k == 0 { Some(Seq::empty()) } else { both(math_kids(pf, p, ps, n, start, k - 1), mathm(pf, ps[k - 1], elems(n)[start + k - 1])) }
}
spec fn is_node(p: MathPattern, ps: Vec<MathPattern>) -> bool { p matches MathPattern::MathNode(_, _, Some((q, _))) && q == ps }
// the first place from `start` on where all child patterns match
spec fn math_kids_from<'t>(pf: PatternFile, p: MathPattern, ps: Vec<MathPattern>, n: RoNode, start: int) -> Option<Seq<GM<'t>>> decreases math_deep(pf, p), p, n.height(), 1int, elems(n).len() + 1 - start when math_ok(pf) && math_refs(pf, p) && is_node(p, ps) && 0 <= start {
    if start + ps@.len() > elems(n).len() { None } else { let a = math_kids(pf, p, ps, n, start, ps@.len() as int); if a is Some { a } else { math_kids_from(pf, p, ps, n, start + 1) } }
}
// the node and all elements below it, depth first
spec fn desc<'t>(pf: PatternFile, p: MathPattern, q: MathPattern, ty: MathDescendantMatchType, n: RoNode) -> Option<Seq<GM<'t>>> decreases math_deep(pf, p), p, n.height(), 3int, 0int when math_ok(pf) && math_refs(pf, p) && is_desc(p, q, ty) {
    collect(ty, mathm(pf, q, n), desc_kids(pf, p, q, ty, n, elems(n).len() as int))
}
spec fn is_desc(p: MathPattern, q: MathPattern, ty: MathDescendantMatchType) -> bool { p matches MathPattern::MathDescendant(r, t) && *r == q && t == ty }
spec fn desc_kids<'t>(pf: PatternFile, p: MathPattern, q: MathPattern, ty: MathDescendantMatchType, n: RoNode, k: int) -> Option<Seq<GM<'t>>> decreases math_deep(pf, p), p, n.height(), 2int, k when math_ok(pf) && math_refs(pf, p) && is_desc(p, q, ty) && 0 <= k <= elems(n).len() via desc_kids_dec {
    if k == 0 { None } else { collect(ty, desc_kids(pf, p, q, ty, n, k - 1), desc(pf, p, q, ty, elems(n)[k - 1])) }
}
#[via_fn]
proof fn mathm_dec<'t>(pf: PatternFile, p: MathPattern, n: RoNode) { lemma_math_deep(pf, p); }
#[via_fn]
proof fn math_or_dec<'t>(pf: PatternFile, p: MathPattern, ps: Vec<MathPattern>, n: RoNode, k: int) { lemma_math_deep(pf, p); }
#[via_fn]
proof fn math_kids_dec<'t>(pf: PatternFile, p: MathPattern, ps: Vec<MathPattern>, n: RoNode, start: int, k: int) { lemma_math_deep(pf, p); }
#[via_fn]
proof fn desc_kids_dec<'t>(pf: PatternFile, p: MathPattern, q: MathPattern, ty: MathDescendantMatchType, n: RoNode, k: int) { lemma_elems(n); }
@verbatim
proof fn lemma_kids_none(pf: PatternFile, p: MathPattern, ps: Vec<MathPattern>, n: RoNode, start: int, k: int)
    requires math_ok(pf), math_refs(pf, p), is_node(p, ps), 0 <= start, start + ps@.len() <= elems(n).len(), 0 <= k <= ps@.len(), math_kids(pf, p, ps, n, start, k) is None
    ensures math_kids(pf, p, ps, n, start, ps@.len() as int) is None
    decreases ps@.len() - k
{ if k < ps@.len() { assert(math_kids(pf, p, ps, n, start, k + 1) is None); lemma_kids_none(pf, p, ps, n, start, k + 1); } }
// what the walk has collected after the node and its first k children
spec fn upto<'t>(pf: PatternFile, p: MathPattern, q: MathPattern, ty: MathDescendantMatchType, n: RoNode, k: int) -> Option<Seq<GM<'t>>> { collect(ty, mathm(pf, q, n), desc_kids(pf, p, q, ty, n, k)) }
proof fn lemma_collect<'t>(ty: MathDescendantMatchType, a: Option<Seq<GM<'t>>>, b: Option<Seq<GM<'t>>>, c: Option<Seq<GM<'t>>>)
    ensures collect(ty, a, collect(ty, b, c)) == collect(ty, collect(ty, a, b), c)
{ if a is Some && b is Some && c is Some { assert(a->0 + (b->0 + c->0) =~= (a->0 + b->0) + c->0); } }
proof fn lemma_step<'t>(pf: PatternFile, p: MathPattern, q: MathPattern, ty: MathDescendantMatchType, n: RoNode, k: int)
    requires math_ok(pf), math_refs(pf, p), is_desc(p, q, ty), 0 <= k < elems(n).len()
    ensures upto(pf, p, q, ty, n, k + 1) == collect(ty, upto(pf, p, q, ty, n, k), desc(pf, p, q, ty, elems(n)[k]))
{ lemma_collect(ty, mathm(pf, q, n), desc_kids(pf, p, q, ty, n, k), desc(pf, p, q, ty, elems(n)[k])); }
proof fn lemma_first<'t>(pf: PatternFile, p: MathPattern, q: MathPattern, ty: MathDescendantMatchType, n: RoNode, k: int)
    requires math_ok(pf), math_refs(pf, p), is_desc(p, q, ty), 0 <= k <= elems(n).len(), ty is First, upto(pf, p, q, ty, n, k) is Some
    ensures upto(pf, p, q, ty, n, elems(n).len() as int) == upto(pf, p, q, ty, n, k)
    decreases elems(n).len() - k
{ if k < elems(n).len() { lemma_step(pf, p, q, ty, n, k); lemma_first(pf, p, q, ty, n, k + 1); } }
proof fn lemma_keep_len(s: Seq<RoNode>) ensures keep(s).len() <= s.len() decreases s.len() { if s.len() > 0 { lemma_keep_len(s.drop_last()); } }
@verbatim
// ---------- words ----------
#[verifier::external_body]
struct Word<'t> { _p: &'t str }
impl<'t> Word<'t> {
    uninterp spec fn s(&self) -> Seq<char>;
    uninterp spec fn a(&self) -> int;      // byte offsets within the sentence
    uninterp spec fn b(&self) -> int;
    uninterp spec fn tag(&self) -> POS;
    #[verifier::external_body] fn get_string(&self) -> (r: &'t str) ensures r@ == self.s() { unimplemented!() }
    #[verifier::external_body] fn get_offset_start(&self) -> (r: usize) ensures r == self.a() { unimplemented!() }
    #[verifier::external_body] fn get_offset_end(&self) -> (r: usize) ensures r == self.b() { unimplemented!() }
    #[verifier::external_body] fn get_pos(&self) -> (r: POS) ensures r == self.tag() { unimplemented!() }
}
// the words' byte offsets lie in the range's text
spec fn word_in(w: Word, x: DNMRange) -> bool { 0 <= w.a() < w.b() <= blen(x.text()) }
spec fn range_in(x: DNMRange) -> bool { x.ok() && x.dnm.back_map@.len() == x.dnm.n() }
// the part of a range at the given bytes
spec fn at_bytes<'t>(x: DNMRange<'t>, rs: int, re: int) -> DNMRange<'t> { choose|r: DNMRange<'t>| r.dnm == x.dnm && #[trigger] byte_range_of(x, rs, re, r.start as int, r.end as int) }
proof fn lemma_at_bytes<'t>(x: DNMRange<'t>, rs: int, re: int)
    requires x.ok()
    ensures forall|r: DNMRange<'t>| r.dnm == x.dnm && #[trigger] byte_range_of(x, rs, re, r.start as int, r.end as int) ==> r == at_bytes(x, rs, re)
{
    let s = x.dnm.plaintext@; let bo = x.dnm.byte_offsets@;
    assert forall|r: DNMRange<'t>| r.dnm == x.dnm && #[trigger] byte_range_of(x, rs, re, r.start as int, r.end as int) implies r == at_bytes(x, rs, re) by {
        let q = at_bytes(x, rs, re);
        assert(q.dnm == x.dnm && byte_range_of(x, rs, re, q.start as int, q.end as int));
        if q.start < r.start { lemma_blen_mono(s, q.start + 1, r.start as int); } if r.start < q.start { lemma_blen_mono(s, r.start + 1, q.start as int); }
        if q.end < r.end { lemma_blen_mono(s, q.end as int, r.end - 1); } if r.end < q.end { lemma_blen_mono(s, r.end as int, q.end - 1); }
    }
}
// the formula a word stands for: the first element of the math node, below its semantics wrapper
spec fn formula(x: DNMRange, w: Word) -> Option<RoNode> {
    let n = x.dnm.back_map@[at_bytes(x, w.a(), w.b()).start as int].0;
    if n.name() != "math"@ || elems(n).len() == 0 { None }
    else if elems(n)[0].name() == "semantics"@ { if elems(elems(n)[0]).len() == 0 { None } else { Some(elems(elems(n)[0])[0]) } }
    else { Some(elems(n)[0]) }
}
spec fn wordm<'t>(pf: PatternFile, p: WordPattern, w: Word, x: DNMRange<'t>) -> Option<Seq<GM<'t>>> decreases word_deep(pf, p), p, 1int, 0int when file_ok(pf) && word_refs(pf, p) via wordm_dec {
    match p {
        WordPattern::WordRef(o) => wordm(pf, pf.word_rules@[o as int].pattern, w, x),
        WordPattern::WordOr(ps) => word_or(pf, p, ps, w, x, 0),
        WordPattern::Word(s) => if s@ == w.s() { Some(Seq::empty()) } else { None },
        WordPattern::WordPos(t, q) => if posm(pf, t, w.tag()) { wordm(pf, *q, w, x) } else { None },
        WordPattern::MathWord(m) => match formula(x, w) { Some(n) => mathm(pf, m, n), None => None },
        WordPattern::AnyWord => Some(Seq::empty()),
        WordPattern::WordNot(q) => if wordm(pf, *q, w, x) is Some { None } else { Some(Seq::empty()) },
        WordPattern::Marked(q, mk) => marked(wordm(pf, *q, w, x), MarkerEnum::Text(TextMarker { range: at_bytes(x, w.a(), w.b()), marker: mk })),
    }
}
// the first alternative, from the k-th on, that matches
spec fn word_or<'t>(pf: PatternFile, p: WordPattern, ps: Vec<WordPattern>, w: Word, x: DNMRange<'t>, k: int) -> Option<Seq<GM<'t>>> decreases word_deep(pf, p), p, 0int, ps@.len() - k when file_ok(pf) && word_refs(pf, p) && p == WordPattern::WordOr(ps) && 0 <= k via word_or_dec {
    if k >= ps@.len() { None } else { let a = wordm(pf, ps[k], w, x); if a is Some { a } else { word_or(pf, p, ps, w, x, k + 1) } }
}
#[via_fn]
proof fn wordm_dec<'t>(pf: PatternFile, p: WordPattern, w: Word, x: DNMRange<'t>) { lemma_word_deep(pf, p); }
#[via_fn]
proof fn word_or_dec<'t>(pf: PatternFile, p: WordPattern, ps: Vec<WordPattern>, w: Word, x: DNMRange<'t>, k: int) { lemma_word_deep(pf, p); }
@verbatim
// ---------- parse trees ----------
enum Ordering { Less, Equal, Greater }
trait VxCmp { fn vx_cmp(&self, o: &usize) -> Ordering; }
impl VxCmp for usize { fn vx_cmp(&self, o: &usize) -> (r: Ordering) ensures r == if *self < *o { Ordering::Less } else if *self == *o { Ordering::Equal } else { Ordering::Greater } { if *self < *o { Ordering::Less } else if *self == *o { Ordering::Equal } else { Ordering::Greater } } }
struct PSGPhrase { label: Phrase, children: Vec<PSGNode> }
enum PSGNode { Leaf(usize), Parent(Box<PSGPhrase>) }
impl PSGPhrase {
    fn get_label(&self) -> (r: Phrase) ensures r == self.label { self.label }
    fn get_children(&self) -> (r: &Vec<PSGNode>) ensures *r == self.children { &self.children }
}
#[verifier::external_body]
struct Sentence<'t> { _p: &'t str }
impl<'t> Sentence<'t> {
    uninterp spec fn words(&self) -> Seq<Word<'t>>;
    uninterp spec fn psg(&self) -> Option<PSGNode>;
    #[verifier::external_body] fn get_words(&self) -> (r: &Vec<Word<'t>>) ensures r@ == self.words() { unimplemented!() }
    #[verifier::external_body] fn get_psgroot(&self) -> (r: Option<&PSGNode>) ensures r is Some == self.psg() is Some, r is Some ==> *r->0 == self.psg()->0 { unimplemented!() }
}
// first and last word position below a node
spec fn first(n: PSGNode) -> usize decreases n { match n { PSGNode::Leaf(p) => p, PSGNode::Parent(c) => if c.children@.len() == 0 { 0 } else { first(c.children[0]) } } }
spec fn last(n: PSGNode) -> usize decreases n { match n { PSGNode::Leaf(p) => p, PSGNode::Parent(c) => if c.children@.len() == 0 { 0 } else { last(c.children[c.children@.len() - 1]) } } }
// a parse: every phrase covers some words, the parts of a phrase follow one another
spec fn parsed(n: PSGNode, words: int) -> bool decreases n {
    match n {
        PSGNode::Leaf(p) => p < words,
        PSGNode::Parent(c) => c.children@.len() > 0 && (forall|i: int| 0 <= i < c.children@.len() ==> parsed(#[trigger] c.children[i], words)) && forall|i: int| #![trigger c.children[i]] 0 < i < c.children@.len() ==> last(c.children[i - 1]) < first(c.children[i]),
    }
}
// the phrases among the nodes
spec fn phrases(s: Seq<PSGNode>) -> Seq<PSGNode> decreases s.len() { if s.len() == 0 { s } else if s.last() is Parent { phrases(s.drop_last()).push(s.last()) } else { phrases(s.drop_last()) } }
// the phrase tree of a parse
spec fn tree_of(n: PSGNode, t: PhraseTree) -> bool decreases t {
    n matches PSGNode::Parent(c) && t.phrase == c.label && t.start == first(n) && t.end == last(n) && t.children@.len() == phrases(c.children@).len()
    && forall|i: int| 0 <= i < t.children@.len() ==> tree_of(phrases(c.children@)[i], #[trigger] t.children[i])
}
// a tree of nested word intervals
spec fn nested(t: PhraseTree, words: int) -> bool decreases t {
    t.start <= t.end < words && (forall|i: int| 0 <= i < t.children@.len() ==> nested(#[trigger] t.children[i], words) && t.start <= t.children[i].start && t.children[i].end <= t.end)
    && forall|i: int, j: int| #![trigger t.children[i], t.children[j]] 0 <= i < j < t.children@.len() ==> t.children[i].end < t.children[j].start
}
// where the phrases of a kind that start at a position end (just after their last word), innermost first
spec fn ends(t: PhraseTree, pos: usize, target: Phrase) -> Seq<usize> decreases t, 1int, 0int { ends_kids(t, pos, target, t.children@.len() as int) + if t.start == pos && t.phrase == target { seq![(t.end + 1) as usize] } else { Seq::empty() } }
spec fn ends_kids(t: PhraseTree, pos: usize, target: Phrase, k: int) -> Seq<usize> decreases t, 0int, k { if k <= 0 || k > t.children@.len() { Seq::empty() } else { ends_kids(t, pos, target, k - 1) + ends(t.children[k - 1], pos, target) } }
proof fn lemma_ends_out(t: PhraseTree, pos: usize, target: Phrase, words: int)
    requires nested(t, words), pos < t.start || pos > t.end ensures ends(t, pos, target) == Seq::<usize>::empty() decreases t, 1int, 0int
{ lemma_ends_kids_out(t, pos, target, words, t.children@.len() as int); }
proof fn lemma_ends_kids_out(t: PhraseTree, pos: usize, target: Phrase, words: int, k: int)
    requires nested(t, words), 0 <= k <= t.children@.len(), forall|i: int| 0 <= i < k ==> pos < (#[trigger] t.children[i]).start || pos > t.children[i].end
    ensures ends_kids(t, pos, target, k) == Seq::<usize>::empty() decreases t, 0int, k
{ if k > 0 { lemma_ends_kids_out(t, pos, target, words, k - 1); lemma_ends_out(t.children[k - 1], pos, target, words); assert(ends_kids(t, pos, target, k) =~= Seq::<usize>::empty()); } }
// only the child covering the position contributes
proof fn lemma_ends_one(t: PhraseTree, pos: usize, target: Phrase, words: int, c: int, k: int)
    requires nested(t, words), 0 <= c < k <= t.children@.len(), t.children[c].start <= pos <= t.children[c].end ensures ends_kids(t, pos, target, k) == ends(t.children[c], pos, target) decreases k
{
    if k - 1 == c { lemma_ends_kids_out(t, pos, target, words, c); assert(ends_kids(t, pos, target, k) =~= ends(t.children[c], pos, target)); }
    else { lemma_ends_one(t, pos, target, words, c, k - 1); lemma_ends_out(t.children[k - 1], pos, target, words); assert(ends_kids(t, pos, target, k) =~= ends(t.children[c], pos, target)); }
}
proof fn lemma_covering(t: PhraseTree, pos: usize, target: Phrase, words: int)
    requires nested(t, words)
    ensures forall|c: int| 0 <= c < t.children@.len() && (#[trigger] t.children[c]).start <= pos <= t.children[c].end ==> ends_kids(t, pos, target, t.children@.len() as int) == ends(t.children[c], pos, target),
        (forall|c: int| 0 <= c < t.children@.len() ==> !((#[trigger] t.children[c]).start <= pos <= t.children[c].end)) ==> ends_kids(t, pos, target, t.children@.len() as int) == Seq::<usize>::empty(),
        forall|c: int| 0 <= c < t.children@.len() && pos < (#[trigger] t.children[c]).start ==> ends(t.children[c], pos, target) == Seq::<usize>::empty(),
{
    let k = t.children@.len() as int;
    assert forall|c: int| 0 <= c < k && (#[trigger] t.children[c]).start <= pos <= t.children[c].end implies ends_kids(t, pos, target, k) == ends(t.children[c], pos, target) by { lemma_ends_one(t, pos, target, words, c, k); }
    assert forall|c: int| 0 <= c < k && pos < (#[trigger] t.children[c]).start implies ends(t.children[c], pos, target) == Seq::<usize>::empty() by { lemma_ends_out(t.children[c], pos, target, words); }
    if forall|c: int| 0 <= c < k ==> !((#[trigger] t.children[c]).start <= pos <= t.children[c].end) { lemma_ends_kids_out(t, pos, target, words, k); }
}
#[verifier::opaque]
spec fn ascending(s: Seq<usize>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i <= j < s.len() ==> s[i] <= s[j] }
@fn get_phrase_matches
@props C20
@opt eq-call
@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@ret r
@contract
    requires exists|n: int| n <= usize::MAX && nested(*root, n)
    ensures r@ == ends(*root, start_pos, target), ascending(r@), forall|i: int| 0 <= i < r@.len() ==> start_pos < #[trigger] r@[i] <= root.end + 1
    decreases *root
@at entry
    proof { reveal(ascending); }
    let ghost vx_n = choose|n: int| n <= usize::MAX && nested(*root, n);
    proof { lemma_covering(*root, start_pos, target, vx_n); assert(forall|i: int| 0 <= i < root.children@.len() ==> nested(#[trigger] root.children@[i], vx_n) && root.start <= root.children@[i].start && root.children@[i].end <= root.end && (start_pos < root.children@[i].start ==> ends(root.children@[i], start_pos, target).len() == 0)); if start_pos < root.start || start_pos > root.end { lemma_ends_out(*root, start_pos, target, vx_n); } }
@at loop 0 iter it
@at loop 0 inv
    invariant it.seq().len() == root.children@.len(), forall|i: int| 0 <= i < root.children@.len() ==> *(#[trigger] it.seq()[i]) == root.children@[i],
        forall|i: int| 0 <= i < it.index() ==> !((#[trigger] root.children@[i]).start <= start_pos <= root.children@[i].end),
@verbatim
proof fn lemma_parsed(n: PSGNode, words: int) requires parsed(n, words)
    ensures first(n) <= last(n) < words, n matches PSGNode::Parent(c) ==> forall|i: int| 0 <= i < c.children@.len() ==> first(n) <= first(#[trigger] c.children[i]) && last(c.children[i]) <= last(n),
    decreases n
{
    match n { PSGNode::Parent(c) => {
        let k = c.children@.len() as int;
        assert forall|i: int| 0 <= i < k implies first(#[trigger] c.children[i]) <= last(c.children[i]) < words by { lemma_parsed(c.children[i], words); }
        assert forall|i: int| 0 <= i < k implies first(n) <= first(#[trigger] c.children[i]) && last(c.children[i]) <= last(n) by { lemma_order(c.children@, words, 0, i); lemma_order(c.children@, words, i, k - 1); }
    } _ => {} }
}
spec fn in_row(s: Seq<PSGNode>) -> bool { (forall|i: int| 0 <= i < s.len() ==> first(#[trigger] s[i]) <= last(s[i])) && forall|i: int| #![trigger s[i]] 0 < i < s.len() ==> last(s[i - 1]) < first(s[i]) }
proof fn lemma_order(s: Seq<PSGNode>, words: int, i: int, j: int) requires in_row(s), 0 <= i <= j < s.len() ensures first(s[i]) <= first(s[j]), last(s[i]) <= last(s[j]), i < j ==> last(s[i]) < first(s[j]) decreases j - i
{ if i < j { lemma_order(s, words, i, j - 1); assert(last(s[j - 1]) < first(s[j])); } }
spec fn spaced(s: Seq<PSGNode>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> last(s[i]) < first(s[j]) }
proof fn lemma_phrases(s: Seq<PSGNode>, words: int) requires in_row(s) ensures spaced(phrases(s)), forall|i: int| 0 <= i < phrases(s).len() ==> s.contains(#[trigger] phrases(s)[i]) decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last(); assert(in_row(t)) by { assert forall|i: int| 0 <= i < t.len() implies first(#[trigger] t[i]) <= last(t[i]) by { assert(first(s[i]) <= last(s[i])); } assert forall|i: int| #![trigger t[i]] 0 < i < t.len() implies last(t[i - 1]) < first(t[i]) by { assert(last(s[i - 1]) < first(s[i])); } }
        lemma_phrases(t, words); let ph = phrases(s);
        assert forall|i: int| 0 <= i < ph.len() implies s.contains(#[trigger] ph[i]) by { if i < phrases(t).len() { let j = choose|j: int| 0 <= j < t.len() && t[j] == phrases(t)[i]; assert(s[j] == ph[i]); } else { assert(s[s.len() - 1] == ph[i]); } }
        assert forall|i: int, j: int| #![trigger ph[i], ph[j]] 0 <= i < j < ph.len() implies last(ph[i]) < first(ph[j]) by {
            if j < phrases(t).len() { assert(phrases(t)[i] == ph[i] && phrases(t)[j] == ph[j]); }
            else { assert(t.contains(phrases(t)[i])); let a = choose|a: int| 0 <= a < t.len() && t[a] == phrases(t)[i]; lemma_order(s, words, a, s.len() - 1); assert(ph[i] == s[a]); }
        }
    }
}
proof fn lemma_nested(n: PSGNode, t: PhraseTree, words: int) requires parsed(n, words), tree_of(n, t) ensures nested(t, words) decreases t
{
    match n { PSGNode::Parent(c) => {
        lemma_parsed(n, words); let ph = phrases(c.children@);
        assert forall|i: int| 0 <= i < c.children@.len() implies first(#[trigger] c.children@[i]) <= last(c.children@[i]) by { lemma_parsed(c.children[i], words); }
        lemma_phrases(c.children@, words);
        assert forall|i: int| 0 <= i < t.children@.len() implies nested(#[trigger] t.children[i], words) && t.start <= t.children[i].start && t.children[i].end <= t.end && t.children[i].start == first(ph[i]) && t.children[i].end == last(ph[i]) by {
            assert(c.children@.contains(ph[i])); let a = choose|a: int| 0 <= a < c.children@.len() && c.children@[a] == ph[i]; assert(parsed(c.children[a], words)); assert(tree_of(ph[i], t.children[i])); lemma_nested(ph[i], t.children[i], words);
        }
        assert forall|i: int, j: int| #![trigger t.children[i], t.children[j]] 0 <= i < j < t.children@.len() implies t.children[i].end < t.children[j].start by { assert(last(ph[i]) < first(ph[j])); }
    } _ => {} }
}
@fn PhraseTree::from_psg
@props C20
@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@ret r
@contract
    ensures match *root { PSGNode::Leaf(p) => r == Err::<PhraseTree, usize>(p), _ => r is Ok && tree_of(*root, r->Ok_0) }
    decreases *root
@at loop 0 iter it
@at loop 0 inv
    invariant it.seq().len() == content.children@.len(), forall|i: int| 0 <= i < content.children@.len() ==> *(#[trigger] it.seq()[i]) == content.children@[i], *root == PSGNode::Parent(*content),
        start_opt == (if it.index() == 0 { None } else { Some(first(content.children@[0])) }), end == (if it.index() == 0 { 0 } else { last(content.children@[it.index() - 1]) }),
        content.children@.take(content.children@.len() as int) == content.children@,
        child_trees@.len() == phrases(content.children@.take(it.index() as int)).len(), forall|i: int| 0 <= i < child_trees@.len() ==> tree_of(phrases(content.children@.take(it.index() as int))[i], #[trigger] child_trees@[i]),
@at loop 0 before
    proof { assert(content.children@.take(content.children@.len() as int) =~= content.children@); }
@at loop 0 start
    proof { let s = content.children@; let k = it.index() as int; assert(s.take(k + 1).drop_last() =~= s.take(k)); assert(s.take(k + 1).last() == s[k]); assert(decreases_to!(*root => s[k])) by { assert(decreases_to!(content.children => content.children[k])); } }
@verbatim
// ---------- sequences ----------
trait VxReverse<T> { fn vx_reverse(&mut self); }
impl<T> VxReverse<T> for Vec<T> { #[verifier::external_body] fn vx_reverse(&mut self) ensures final(self)@ == old(self)@.reverse() { self.reverse() } }
struct Seen<'t> { end: int, ms: Seq<GM<'t>> }
spec fn sent_in(s: Sentence, x: DNMRange) -> bool { forall|i: int, j: int| #![trigger s.words()[i].a(), s.words()[j].b()] 0 <= i <= j < s.words().len() ==> 0 <= s.words()[i].a() < s.words()[j].b() <= blen(x.text()) }
spec fn tree_in(t: PhraseTree, s: Sentence) -> bool { nested(t, s.words().len() as int) && s.words().len() <= usize::MAX }
spec fn args_in(pf: PatternFile, s: Sentence, t: PhraseTree, x: DNMRange) -> bool { file_ok(pf) && range_in(x) && sent_in(s, x) && tree_in(t, s) }
// the ends to be tried for a phrase, in order of preference
spec fn tried(ty: PhraseMatchType, e: Seq<usize>) -> Seq<usize> { if ty is Longest { e.reverse() } else { e } }
spec fn seqm<'t>(pf: PatternFile, p: SequencePattern, s: Sentence, t: PhraseTree, x: DNMRange<'t>, pos: int) -> Option<Seen<'t>> decreases seq_deep(pf, p), p, 4int, 0int when file_ok(pf) && seq_refs(pf, p) && 0 <= pos <= s.words().len() <= usize::MAX via seqm_dec {
    match p {
        SequencePattern::SeqRef(o) => seqm(pf, pf.sequence_rules@[o as int].pattern, s, t, x, pos),
        // one word
        SequencePattern::SeqFromWord(w) => if pos < s.words().len() { match wordm(pf, w, s.words()[pos], x) { Some(ms) => Some(Seen { end: pos + 1, ms }), None => None } } else { None },
        // one after the other
        SequencePattern::SeqOfSeq(ps) => seq_all(pf, p, ps, s, t, x, pos, ps@.len() as int),
        SequencePattern::Phrase(kind, ty, st, en) => seq_phrase(pf, p, kind, ty, st, en, s, t, x, pos, 0),
        // the words matched; nothing is marked where there are none
        SequencePattern::Marked(q, mk) => match seqm(pf, *q, s, t, x, pos) {
            Some(r) => if r.end <= pos { Some(r) } else { Some(Seen { end: r.end, ms: seq![GM { mk: MarkerEnum::Text(TextMarker { range: at_bytes(x, s.words()[pos].a(), s.words()[r.end - 1].b()), marker: mk }), subs: r.ms }] }) },
            None => None,
        },
        SequencePattern::SeqOr(ps, ty) => { let r = match ty { SequenceMatchType::First => seq_first(pf, p, ps, s, t, x, pos, 0), _ => seq_or(pf, p, ps, ty, s, t, x, pos, ps@.len() as int) };
            if r is None && ty is Any { Some(Seen { end: pos, ms: Seq::empty() }) } else { r } },
    }
}
// the first k parts, each where the previous one ended
spec fn seq_all<'t>(pf: PatternFile, p: SequencePattern, ps: Vec<SequencePattern>, s: Sentence, t: PhraseTree, x: DNMRange<'t>, pos: int, k: int) -> Option<Seen<'t>> decreases seq_deep(pf, p), p, 0int, k when file_ok(pf) && seq_refs(pf, p) && 0 <= pos <= s.words().len() <= usize::MAX && p == SequencePattern::SeqOfSeq(ps) && 0 <= k <= ps@.len() via seq_all_dec {
    if k == 0 { Some(Seen { end: pos, ms: Seq::empty() }) }
    else { match seq_all(pf, p, ps, s, t, x, pos, k - 1) { None => None, Some(a) => if !(0 <= a.end <= s.words().len()) { None } else { match seqm(pf, ps[k - 1], s, t, x, a.end) { None => None, Some(b) => Some(Seen { end: b.end, ms: a.ms + b.ms }) } } } }
}
// the first alternative, from the k-th on, that matches
spec fn seq_first<'t>(pf: PatternFile, p: SequencePattern, ps: Vec<SequencePattern>, s: Sentence, t: PhraseTree, x: DNMRange<'t>, pos: int, k: int) -> Option<Seen<'t>> decreases seq_deep(pf, p), p, 0int, ps@.len() - k when file_ok(pf) && seq_refs(pf, p) && 0 <= pos <= s.words().len() <= usize::MAX && p is SeqOr && p->SeqOr_0 == ps && 0 <= k via seq_first_dec {
    if k >= ps@.len() { None } else { let a = seqm(pf, ps[k], s, t, x, pos); if a is Some { a } else { seq_first(pf, p, ps, s, t, x, pos, k + 1) } }
}
// all (or the longest) of the first k alternatives that match
spec fn or_join<'t>(ty: SequenceMatchType, a: Option<Seen<'t>>, b: Option<Seen<'t>>) -> Option<Seen<'t>> {
    match (a, b) { (None, _) => b, (_, None) => a, (Some(u), Some(v)) => if ty is Longest { if v.end > u.end { b } else { a } } else { Some(Seen { end: if v.end > u.end { v.end } else { u.end }, ms: u.ms + v.ms }) } }
}
spec fn seq_or<'t>(pf: PatternFile, p: SequencePattern, ps: Vec<SequencePattern>, ty: SequenceMatchType, s: Sentence, t: PhraseTree, x: DNMRange<'t>, pos: int, k: int) -> Option<Seen<'t>> decreases seq_deep(pf, p), p, 0int, k when file_ok(pf) && seq_refs(pf, p) && 0 <= pos <= s.words().len() <= usize::MAX && p == SequencePattern::SeqOr(ps, ty) && 0 <= k <= ps@.len() via seq_or_dec {
    if k == 0 { None } else { or_join(ty, seq_or(pf, p, ps, ty, s, t, x, pos, k - 1), seqm(pf, ps[k - 1], s, t, x, pos)) }
}
// the first acceptable end, from the k-th preference on
spec fn seq_phrase<'t>(pf: PatternFile, p: SequencePattern, kind: Phrase, ty: PhraseMatchType, st: Option<(Box<SequencePattern>, SequenceContainment)>, en: Option<Box<SequencePattern>>, s: Sentence, t: PhraseTree, x: DNMRange<'t>, pos: int, k: int) -> Option<Seen<'t>>
    decreases seq_deep(pf, p), p, 2int, tried(ty, ends(t, pos as usize, kind)).len() + 1 - k when file_ok(pf) && seq_refs(pf, p) && 0 <= pos <= s.words().len() <= usize::MAX && p == SequencePattern::Phrase(kind, ty, st, en) && 0 <= k
{
    let e = tried(ty, ends(t, pos as usize, kind));
    if k >= e.len() { None } else { match phrase_ok(pf, p, kind, ty, st, en, s, t, x, pos, e[k] as int) { Some(ms) => Some(Seen { end: e[k] as int, ms }), None => seq_phrase(pf, p, kind, ty, st, en, s, t, x, pos, k + 1) } }
}
// a phrase from pos to end satisfies the conditions on its start and end
spec fn phrase_ok<'t>(pf: PatternFile, p: SequencePattern, kind: Phrase, ty: PhraseMatchType, st: Option<(Box<SequencePattern>, SequenceContainment)>, en: Option<Box<SequencePattern>>, s: Sentence, t: PhraseTree, x: DNMRange<'t>, pos: int, end: int) -> Option<Seq<GM<'t>>>
    decreases seq_deep(pf, p), p, 1int, 0int when file_ok(pf) && seq_refs(pf, p) && 0 <= pos <= s.words().len() <= usize::MAX && p == SequencePattern::Phrase(kind, ty, st, en) via phrase_ok_dec
{
    let a = match st { None => Some(Seq::empty()), Some((q, c)) => match seqm(pf, *q, s, t, x, pos) { None => None, Some(r) => if c is LessOrEqual && r.end > end { None } else { Some(r.ms) } } };
    let b = match en { None => Some(Seq::empty()), Some(q) => seq_end(pf, p, q, s, t, x, pos, end) };
    both(a, b)
}
// the first place from which the end condition matches up to the end of the phrase
spec fn seq_end<'t>(pf: PatternFile, p: SequencePattern, q: Box<SequencePattern>, s: Sentence, t: PhraseTree, x: DNMRange<'t>, from: int, end: int) -> Option<Seq<GM<'t>>>
    decreases seq_deep(pf, p), p, 0int, end - from when file_ok(pf) && seq_refs(pf, p) && 0 <= from && s.words().len() <= usize::MAX && p is Phrase && p->Phrase_3 == Some(q) via seq_end_dec
{
    if from >= end || from > s.words().len() { None } else { match seqm(pf, *q, s, t, x, from) { Some(r) => if r.end == end { Some(r.ms) } else { seq_end(pf, p, q, s, t, x, from + 1, end) }, None => seq_end(pf, p, q, s, t, x, from + 1, end) } }
}
#[via_fn]
proof fn seqm_dec<'t>(pf: PatternFile, p: SequencePattern, s: Sentence, t: PhraseTree, x: DNMRange<'t>, pos: int) { lemma_seq_deep(pf, p); }
#[via_fn]
proof fn seq_all_dec<'t>(pf: PatternFile, p: SequencePattern, ps: Vec<SequencePattern>, s: Sentence, t: PhraseTree, x: DNMRange<'t>, pos: int, k: int) { lemma_seq_deep(pf, p); }
#[via_fn]
proof fn seq_first_dec<'t>(pf: PatternFile, p: SequencePattern, ps: Vec<SequencePattern>, s: Sentence, t: PhraseTree, x: DNMRange<'t>, pos: int, k: int) { lemma_seq_deep(pf, p); }
#[via_fn]
proof fn seq_or_dec<'t>(pf: PatternFile, p: SequencePattern, ps: Vec<SequencePattern>, ty: SequenceMatchType, s: Sentence, t: PhraseTree, x: DNMRange<'t>, pos: int, k: int) { lemma_seq_deep(pf, p); }
#[via_fn]
proof fn phrase_ok_dec<'t>(pf: PatternFile, p: SequencePattern, kind: Phrase, ty: PhraseMatchType, st: Option<(Box<SequencePattern>, SequenceContainment)>, en: Option<Box<SequencePattern>>, s: Sentence, t: PhraseTree, x: DNMRange<'t>, pos: int, end: int) { lemma_seq_deep(pf, p); }
#[via_fn]
proof fn seq_end_dec<'t>(pf: PatternFile, p: SequencePattern, q: Box<SequencePattern>, s: Sentence, t: PhraseTree, x: DNMRange<'t>, from: int, end: int) { lemma_seq_deep(pf, p); }
@verbatim
spec fn or_state<'t>(r: Option<Seen<'t>>, matched: bool, end: int, ms: Seq<GM<'t>>) -> bool { matched == r is Some && (matched ==> r == Some(Seen { end, ms })) }
spec fn start_part<'t>(pf: PatternFile, st: Option<(Box<SequencePattern>, SequenceContainment)>, s: Sentence, t: PhraseTree, x: DNMRange<'t>, pos: int, end: int) -> Option<Seq<GM<'t>>> {
    match st { None => Some(Seq::empty()), Some((q, c)) => match seqm(pf, *q, s, t, x, pos) { None => None, Some(r) => if c is LessOrEqual && r.end > end { None } else { Some(r.ms) } } }
}
spec fn end_part<'t>(pf: PatternFile, p: SequencePattern, en: Option<Box<SequencePattern>>, s: Sentence, t: PhraseTree, x: DNMRange<'t>, pos: int, end: int) -> Option<Seq<GM<'t>>> {
    match en { None => Some(Seq::empty()), Some(q) => seq_end(pf, p, q, s, t, x, pos, end) }
}
spec fn or_part<'t>(pf: PatternFile, p: SequencePattern, ps: Vec<SequencePattern>, ty: SequenceMatchType, s: Sentence, t: PhraseTree, x: DNMRange<'t>, pos: int) -> Option<Seen<'t>> {
    match ty { SequenceMatchType::First => seq_first(pf, p, ps, s, t, x, pos, 0), _ => seq_or(pf, p, ps, ty, s, t, x, pos, ps@.len() as int) }
}
proof fn lemma_none_left<'t>(a: Seq<GM<'t>>) ensures Seq::<GM<'t>>::empty() + a == a, a + Seq::<GM<'t>>::empty() == a { assert(Seq::<GM<'t>>::empty() + a =~= a); assert(a + Seq::<GM<'t>>::empty() =~= a); }
proof fn lemma_all_none(pf: PatternFile, p: SequencePattern, ps: Vec<SequencePattern>, s: Sentence, t: PhraseTree, x: DNMRange, pos: int, k: int)
    requires file_ok(pf), seq_refs(pf, p), 0 <= pos <= s.words().len() <= usize::MAX, p == SequencePattern::SeqOfSeq(ps), 0 <= k <= ps@.len()
    ensures seq_all(pf, p, ps, s, t, x, pos, k) is None ==> seq_all(pf, p, ps, s, t, x, pos, ps@.len() as int) is None
    decreases ps@.len() - k
{ if k < ps@.len() { lemma_all_none(pf, p, ps, s, t, x, pos, k + 1); } }
@fn InternalSeqMatch::no_match
@props C20
@ret r
@contract
    ensures !r.matched, r._matches@.len() == 0
@fn match_seq
@props C20
@opt eq-call
@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::spinoff_prover] #[verifier::rlimit(150)]
@ret r
@contract
    requires args_in(*pf, *sentence, *phrase_tree, *range), seq_refs(*pf, *rule), pos <= sentence.words().len()
    ensures
        r.matched == seqm(*pf, *rule, *sentence, *phrase_tree, *range, pos as int) is Some,
        r.matched ==> Some(Seen { end: r.end as int, ms: gms(r._matches@) }) == seqm(*pf, *rule, *sentence, *phrase_tree, *range, pos as int) && pos <= r.end <= sentence.words().len(),
        !r.matched ==> r._matches@.len() == 0,
        r.matched && r.end == pos ==> r._matches@.len() == 0,
    decreases seq_deep(*pf, *rule), *rule
@at entry
    let ghost vx_rule = *rule; let ghost vx_n = sentence.words().len() as int;
    proof { lemma_seq_deep(*pf, *rule); lemma_gms(); }
@at loop 0 iter it
@at loop 0 inv
    invariant
        vx_rule == SequencePattern::SeqOfSeq(*patterns), it.seq().len() == patterns@.len(), forall|i: int| 0 <= i < patterns@.len() ==> *(#[trigger] it.seq()[i]) == patterns@[i],
        pos <= cur_pos <= vx_n, cur_pos == pos ==> matches@.len() == 0, seq_all(*pf, vx_rule, *patterns, *sentence, *phrase_tree, *range, pos as int, it.index() as int) == Some(Seen { end: cur_pos as int, ms: gms(matches@) }),
@at loop 0 start
    proof { if seqm(*pf, patterns@[it.index() as int], *sentence, *phrase_tree, *range, cur_pos as int) is None { lemma_all_none(*pf, vx_rule, *patterns, *sentence, *phrase_tree, *range, pos as int, it.index() + 1); } }
@at loop 1 start
    proof {
        let ep = phrase_ends@[vx_k0 as int] as int;
        let a = start_part(*pf, *start_condition, *sentence, *phrase_tree, *range, pos as int, ep);
        let b = end_part(*pf, vx_rule, *end_condition, *sentence, *phrase_tree, *range, pos as int, ep);
        assert(phrase_ok(*pf, vx_rule, phrase, *match_type, *start_condition, *end_condition, *sentence, *phrase_tree, *range, pos as int, ep) == both(a, b));
        let e = tried(*match_type, ends(*phrase_tree, pos as usize, phrase)); assert(e[vx_k0 as int] == ep);
        lemma_none_left(a->0); if b is Some { lemma_none_left(b->0); }
        assert(seq_phrase(*pf, vx_rule, phrase, *match_type, *start_condition, *end_condition, *sentence, *phrase_tree, *range, pos as int, vx_k0 as int)
            == match both(a, b) { Some(ms) => Some(Seen { end: ep, ms }), None => seq_phrase(*pf, vx_rule, phrase, *match_type, *start_condition, *end_condition, *sentence, *phrase_tree, *range, pos as int, vx_k0 + 1) });
    }
@at loop 1 inv
    invariant
        vx_rule == SequencePattern::Phrase(phrase, *match_type, *start_condition, *end_condition), vx_k0 <= phrase_ends@.len(), phrase_ends@ == tried(*match_type, ends(*phrase_tree, pos, phrase)),
        forall|i: int| 0 <= i < phrase_ends@.len() ==> pos < #[trigger] phrase_ends@[i] <= vx_n,
        seqm(*pf, vx_rule, *sentence, *phrase_tree, *range, pos as int) == seq_phrase(*pf, vx_rule, phrase, *match_type, *start_condition, *end_condition, *sentence, *phrase_tree, *range, pos as int, vx_k0 as int),
    decreases phrase_ends@.len() - vx_k0
@at loop 2 before
    let ghost vx_a = gms(matches@);
@at loop 2 inv
    invariant_except_break !matched, gms(matches@) == vx_a, seq_end(*pf, vx_rule, *rule, *sentence, *phrase_tree, *range, pos as int, *end_pos as int) == seq_end(*pf, vx_rule, *rule, *sentence, *phrase_tree, *range, end_start_pos as int, *end_pos as int),
    invariant vx_rule->Phrase_3 == Some(*rule),
    ensures matched == seq_end(*pf, vx_rule, *rule, *sentence, *phrase_tree, *range, pos as int, *end_pos as int) is Some, matched ==> gms(matches@) == vx_a + seq_end(*pf, vx_rule, *rule, *sentence, *phrase_tree, *range, pos as int, *end_pos as int)->0,
@at loop 3 start
    proof {
        let k = it.index() as int; let q = seqm(*pf, patterns@[k], *sentence, *phrase_tree, *range, pos as int); assert(matches@.len() == 0 ==> matches@ =~= Seq::empty());
        if q is Some { lemma_none_left(q->0.ms); }
        if match_type is First { assert(seq_first(*pf, vx_rule, *patterns, *sentence, *phrase_tree, *range, pos as int, k) == if q is Some { q } else { seq_first(*pf, vx_rule, *patterns, *sentence, *phrase_tree, *range, pos as int, k + 1) }); }
        else { assert(seq_or(*pf, vx_rule, *patterns, *match_type, *sentence, *phrase_tree, *range, pos as int, k + 1) == or_join(*match_type, seq_or(*pf, vx_rule, *patterns, *match_type, *sentence, *phrase_tree, *range, pos as int, k), q)); }
    }
@at loop 3 iter it
@at loop 3 inv
    invariant_except_break
        match *match_type {
            SequenceMatchType::First => !matched && seq_first(*pf, vx_rule, *patterns, *sentence, *phrase_tree, *range, pos as int, 0) == seq_first(*pf, vx_rule, *patterns, *sentence, *phrase_tree, *range, pos as int, it.index() as int),
            _ => or_state(seq_or(*pf, vx_rule, *patterns, *match_type, *sentence, *phrase_tree, *range, pos as int, it.index() as int), matched, longest as int, gms(matches@)),
        },
    invariant
        vx_rule == SequencePattern::SeqOr(*patterns, *match_type), it.seq().len() == patterns@.len(), forall|i: int| 0 <= i < patterns@.len() ==> *(#[trigger] it.seq()[i]) == patterns@[i],
        pos <= longest <= vx_n, longest == pos ==> matches@.len() == 0, !matched ==> longest == pos,
    ensures
        or_state(match *match_type { SequenceMatchType::First => seq_first(*pf, vx_rule, *patterns, *sentence, *phrase_tree, *range, pos as int, 0), _ => seq_or(*pf, vx_rule, *patterns, *match_type, *sentence, *phrase_tree, *range, pos as int, patterns@.len() as int) }, matched, longest as int, gms(matches@)),
@at result
    proof {
        assert(vx_res._matches@.len() == 0 ==> vx_res._matches@ =~= Seq::empty());
        let g = Some(Seen { end: vx_res.end as int, ms: gms(vx_res._matches@) }); let w = seqm(*pf, *rule, *sentence, *phrase_tree, *range, pos as int);
        if rule is SeqOr { let r = or_part(*pf, *rule, rule->SeqOr_0, rule->SeqOr_1, *sentence, *phrase_tree, *range, pos as int); assert(w == if r is None && rule->SeqOr_1 is Any { Some(Seen { end: pos as int, ms: Seq::empty() }) } else { r }); assert(vx_res.matched ==> g == w); }
        else if rule is Marked {
            lemma_gms_one(vx_res._matches@); let q = seqm(*pf, *rule->Marked_0, *sentence, *phrase_tree, *range, pos as int);
            if q is Some && q->0.end > pos { lemma_at_bytes(*range, sentence.words()[pos as int].a(), sentence.words()[q->0.end - 1].b()); }
            assert(vx_res.matched ==> g == w); }
        else if rule is SeqOfSeq { assert(vx_res.matched ==> g == w); }
        else { assert(vx_res.matched ==> g == w); }
    }
@fn match_pos
@props C18
@opt eq-call
@closure 0 |p: &PosPattern| -> (vx_r: bool) requires exists|i: int| 0 <= i < ps@.len() && *p == ps[i] ensures vx_r == posm(*pf, *p, pos)
@ret r
@contract
    requires pos_ok(*pf), pos_refs(*pf, *rule)
    ensures r == posm(*pf, *rule, pos)
    decreases pos_deep(*pf, *rule), *rule
@at entry
    proof { lemma_pos_deep(*pf, *rule); }
@fn match_mtext
@props C18
@opt eq-call
@closure 0 |p: &MTextPattern| -> (vx_r: bool) requires exists|i: int| 0 <= i < ps@.len() && *p == ps[i] ensures vx_r == mtextm(*pf, *p, string@)
@ret r
@contract
    requires mtext_ok(*pf), mtext_refs(*pf, *rule)
    ensures r == mtextm(*pf, *rule, string@)
    decreases mtext_deep(*pf, *rule), *rule
@at entry
    proof { lemma_mtext_deep(*pf, *rule); }
@fn InternalMathMatch::no_match
@props C19
@ret r
@contract
    ensures !r.matched, r._matches@.len() == 0
@fn InternalWordMatch::no_match
@props C18
@ret r
@contract
    ensures !r.matched, r._matches@.len() == 0
@fn match_math
@props C19
@opt eq-call
@ret r
@contract
    requires mtext_ok(*pf), math_ok(*pf), math_refs(*pf, *rule)
    ensures r.matched == mathm(*pf, *rule, node) is Some, r.matched ==> Some(gms(r._matches@)) == mathm(*pf, *rule, node)
    decreases math_deep(*pf, *rule), *rule, node.height()
@at entry
    proof { lemma_math_deep(*pf, *rule); lemma_elems(node); lemma_gms(); lemma_keep_len(node.kids()); node.axiom_kids_size(); }
@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::spinoff_prover] #[verifier::rlimit(100)]
@at loop 0 iter it
@at loop 0 inv
    invariant *rule == MathPattern::MathOr(*patterns), it.seq().len() == patterns@.len(), forall|i: int| 0 <= i < patterns@.len() ==> *(#[trigger] it.seq()[i]) == patterns@[i], math_or(*pf, *rule, *patterns, node, 0) == math_or(*pf, *rule, *patterns, node, it.index() as int),
@at loop 1 inv
    invariant
        start_pos + child_rules@.len() <= c_nodes@.len(),
        match *match_type { MathChildrenMatchType::Arbitrary => mathm(*pf, *rule, node) == math_kids_from(*pf, *rule, *child_rules, node, start_pos as int), _ => mathm(*pf, *rule, node) == math_kids(*pf, *rule, *child_rules, node, start_pos as int, child_rules@.len() as int) },
    ensures mathm(*pf, *rule, node) is None,
    decreases c_nodes@.len() - start_pos
@at loop 2 inv
    invariant_except_break matched, Some(gms(matches@)) == math_kids(*pf, *rule, *child_rules, node, start_pos as int, i as int),
    ensures matched ==> Some(gms(matches@)) == math_kids(*pf, *rule, *child_rules, node, start_pos as int, child_rules@.len() as int), !matched ==> math_kids(*pf, *rule, *child_rules, node, start_pos as int, child_rules@.len() as int) is None,
@at loop 3 iter it
@at loop 3 inv
    invariant
        it.seq() == elems(node), *rule == MathPattern::MathDescendant(*pattern, *match_type),
        gms(matches@) == none_or(upto(*pf, *rule, **pattern, *match_type, node, it.index() as int)), !(match_type is Arbitrary) ==> matched == upto(*pf, *rule, **pattern, *match_type, node, it.index() as int) is Some,
@at loop 3 before
    proof { assert(desc(*pf, *rule, **pattern, *match_type, node) == upto(*pf, *rule, **pattern, *match_type, node, elems(node).len() as int)); }
@at loop 3 start
    proof { lemma_step(*pf, *rule, **pattern, *match_type, node, it.index() as int); if match_type is First && matched { lemma_first(*pf, *rule, **pattern, *match_type, node, it.index() as int); } }
@at result
    proof { if *rule is Marked { lemma_gms_one(vx_res._matches@); } }
@at loop 2 start
    proof { if mathm(*pf, child_rules@[i as int], elems(node)[start_pos + i]) is None { assert(math_kids(*pf, *rule, *child_rules, node, start_pos as int, i + 1) is None); lemma_kids_none(*pf, *rule, *child_rules, node, start_pos as int, i + 1); } }
@fn match_word
@props C18
@opt eq-call
@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@ret r
@contract
    requires file_ok(*pf), word_refs(*pf, *rule), range_in(*range), word_in(*word, *range)
    ensures r.matched == wordm(*pf, *rule, *word, *range) is Some, r.matched ==> Some(gms(r._matches@)) == wordm(*pf, *rule, *word, *range)
    decreases word_deep(*pf, *rule), *rule
@at entry
    proof { lemma_word_deep(*pf, *rule); lemma_gms(); lemma_at_bytes(*range, word.a(), word.b()); }
@at result
    proof { if *rule is Marked { lemma_gms_one(vx_res._matches@); } }
@at loop 0 iter it
@at loop 0 inv
    invariant *rule == WordPattern::WordOr(*word_patterns), it.seq().len() == word_patterns@.len(), forall|i: int| 0 <= i < word_patterns@.len() ==> *(#[trigger] it.seq()[i]) == word_patterns@[i], wordm(*pf, *rule, *word, *range) == word_or(*pf, *rule, *word_patterns, *word, *range, it.index() as int),
@verbatim
// ---------- a whole sentence ----------
spec fn none_or_ms<'t>(o: Option<Seen<'t>>) -> Seq<GM<'t>> { match o { Some(r) => r.ms, None => Seq::empty() } }
// the matches of a pattern at the first k positions
spec fn found<'t>(pf: PatternFile, p: SequencePattern, s: Sentence, t: PhraseTree, x: DNMRange<'t>, k: int) -> Seq<GM<'t>> decreases k {
    if k <= 0 { Seq::empty() } else { found(pf, p, s, t, x, k - 1) + none_or_ms(seqm(pf, p, s, t, x, k - 1)) }
}
spec fn names_ok(pf: PatternFile) -> bool { forall|n: Seq<char>| #[trigger] pf.sequence_rule_names@.dom().contains(n) ==> pf.sequence_rule_names@[n] < pf.sequence_rules@.len() }
@fn match_sentence
@opt opaque-format
@props C20
@ret r
@contract
    requires file_ok(*pf), names_ok(*pf), range_in(*range), sent_in(*sentence, *range), sentence.words().len() <= usize::MAX, sentence.psg() is Some ==> parsed(sentence.psg()->0, sentence.words().len() as int)
    ensures
        r is Ok <==> pf.sequence_rule_names@.dom().contains(rule@) && sentence.psg() is Some && sentence.psg()->0 is Parent,
        r is Ok ==> exists|t: PhraseTree| #[trigger] tree_of(sentence.psg()->0, t) && gms(r->Ok_0@) == found(*pf, pf.sequence_rules@[pf.sequence_rule_names@[rule@] as int].pattern, *sentence, t, *range, sentence.words().len() as int),
@at entry
    proof { lemma_gms(); }
@at loop 0 before
    proof { lemma_nested(*psg, phrase_tree, words@.len() as int); }
@at loop 0 inv
    invariant args_in(*pf, *sentence, phrase_tree, *range), words@ == sentence.words(), seq_refs(*pf, actual_rule.pattern), gms(matches@) == found(*pf, actual_rule.pattern, *sentence, phrase_tree, *range, start_pos as int), forall|a: Seq<Match<'t>>, b: Seq<Match<'t>>| #[trigger] gms(a + b) == gms(a) + gms(b),
@at loop 0 start
    proof { lemma_gms(); }
@verbatim
// ---------- the markers of a match: its own, then those of its sub-matches ----------
spec fn marks<'t>(m: Match<'t>) -> Seq<MarkerEnum<'t>> decreases m, 1int, 0int { seq![m.marker] + marks_upto(m, m.sub_matches@.len() as int) }
spec fn marks_upto<'t>(m: Match<'t>, k: int) -> Seq<MarkerEnum<'t>> decreases m, 0int, k when 0 <= k <= m.sub_matches@.len() { if k == 0 { Seq::empty() } else { marks_upto(m, k - 1) + marks(m.sub_matches[k - 1]) } }
@fn Match::get_marker_list
@props C20
@ret r
@contract
    ensures r@ == marks(*self)
    decreases *self
@attr #[verifier::loop_isolation(false)]
@at loop 0 iter it
@at loop 0 inv
    invariant it.seq().len() == self.sub_matches@.len(), forall|i: int| 0 <= i < self.sub_matches@.len() ==> *(#[trigger] it.seq()[i]) == self.sub_matches@[i], markers@ == seq![self.marker] + marks_upto(*self, it.index() as int),
@at loop 0 before
    proof { assert(markers@ =~= seq![self.marker] + marks_upto(*self, 0)); }
@at loop 0 start
    proof { let k = it.index() as int; assert(decreases_to!(*self => self.sub_matches[k])) by { assert(decreases_to!(self.sub_matches => self.sub_matches[k])); }
        assert((seq![self.marker] + marks_upto(*self, k)) + marks(self.sub_matches[k]) =~= seq![self.marker] + marks_upto(*self, k + 1)); }
