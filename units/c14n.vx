@include prelude.inc
@include hashmap.inc
@include eq.inc
@include text.inc
@include words.inc
@include node.inc
@include dnmtypes.inc
@method map => vx_map
@method trim => vx_trim
@method is_empty => vx_is_empty
@method collect => vx_collect
@method split_whitespace => vx_split_whitespace
@method sort_unstable => vx_sort_unstable
@method sort => vx_sort_unstable
@method unwrap_or_default => vx_unwrap_or_default
@contracts rangefns.inc
@verbatim
// ---------- Ord on strings: a total order on their contents ----------
uninterp spec fn str_le(a: Seq<char>, b: Seq<char>) -> bool;
#[verifier::external_body]
proof fn axiom_str_order()
    ensures vstd::relations::total_ordering(|a: Seq<char>, b: Seq<char>| str_le(a, b))
{}
spec fn le() -> spec_fn(Seq<char>, Seq<char>) -> bool { |a: Seq<char>, b: Seq<char>| str_le(a, b) }
spec fn strs(v: Seq<&str>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
trait VxSortStr { fn vx_sort_unstable(&mut self); }
impl<'a> VxSortStr for Vec<&'a str> {
    #[verifier::external_body]
    fn vx_sort_unstable(&mut self)
        ensures strs(final(self)@).to_multiset() == strs(old(self)@).to_multiset(), vstd::relations::sorted_by(strs(final(self)@), le())
    { self.sort_unstable() }
}
trait VxOptMap<T>: Sized {
    spec fn vx_opt(&self) -> Option<T>;
    fn vx_map<U, F: Fn(T) -> U>(self, f: F) -> (r: Option<U>)
        requires self.vx_opt() is Some ==> call_requires(f, (self.vx_opt()->0,))
        ensures self.vx_opt() is Some == r is Some, self.vx_opt() is Some ==> call_ensures(f, (self.vx_opt()->0,), r->0);
}
impl<T> VxOptMap<T> for Option<T> {
    spec fn vx_opt(&self) -> Option<T> { *self }
    #[verifier::external_body] fn vx_map<U, F: Fn(T) -> U>(self, f: F) -> (r: Option<U>) { self.map(f) }
}
// ---------- the canonical form ----------
#[verifier::opaque]
spec fn sorted_words(s: Seq<Seq<char>>) -> Seq<Seq<char>> { choose|t: Seq<Seq<char>>| t.to_multiset() == s.to_multiset() && vstd::relations::sorted_by(t, le()) }
spec fn class_text(n: RoNode) -> Seq<char> { match n.prop("class"@) { Some(s) => s, None => Seq::<char>::empty() } }
// every word followed by a space
spec fn spaced(s: Seq<Seq<char>>) -> Seq<char> decreases s.len() { if s.len() == 0 { Seq::empty() } else { (spaced(s.drop_last()) + s.last()).push(' ') } }
spec fn class_part(ws: Seq<Seq<char>>) -> Seq<char> { if ws.len() == 0 { Seq::empty() } else { " class=\""@ + spaced(sorted_words(ws)).drop_last() + "\""@ } }
spec fn open_tag(n: RoNode) -> Seq<char> { "<"@ + n.name() + class_part(white_words(class_text(n))) + ">"@ }
spec fn close_tag(n: RoNode) -> Seq<char> { "</"@ + n.name() + ">"@ }
spec fn hidden(n: RoNode) -> bool { n.name() == "annotation"@ || n.name() == "annotation-xml"@ }
spec fn wrapper(n: RoNode) -> bool { n.name() == "semantics"@ }
spec fn recorded_text(d: DNM, n: RoNode) -> Seq<char> { if d.node_map@.dom().contains(n.hash()) { d.plaintext@.subrange(d.node_map@[n.hash()].0 as int, d.node_map@[n.hash()].1 as int) } else { Seq::empty() } }
spec fn blank(s: Seq<char>) -> bool { trimmed_start(trimmed_end(s)).len() == 0 }
spec fn canon(d: DNM, n: RoNode) -> Seq<char> decreases n.height(), 1nat, 0nat {
    if n.is_text() { if blank(recorded_text(d, n)) { Seq::empty() } else { recorded_text(d, n) } }
    else if !n.is_element() || hidden(n) { Seq::empty() }
    else if wrapper(n) { canon_kids(d, n, n.kids().len()) }
    else { open_tag(n) + canon_kids(d, n, n.kids().len()) + close_tag(n) }
}
spec fn canon_kids(d: DNM, n: RoNode, k: nat) -> Seq<char> decreases n.height(), 0nat, k {
    if k == 0 || k > n.kids().len() { Seq::empty() } else { let c = n.kids()[k - 1]; if c.height() < n.height() { canon_kids(d, n, (k - 1) as nat) + canon(d, c) } else { Seq::empty() } }
}
proof fn lemma_sorted_words(s: Seq<Seq<char>>, t: Seq<Seq<char>>)
    requires t.to_multiset() == s.to_multiset(), vstd::relations::sorted_by(t, le())
    ensures sorted_words(s) == t, s.len() == t.len()
{
    s.to_multiset_ensures(); t.to_multiset_ensures();
    axiom_str_order(); reveal(sorted_words);
    assert(vstd::relations::total_ordering(le())) by { assert(le() =~= (|a: Seq<char>, b: Seq<char>| str_le(a, b))); }
    vstd::seq_lib::lemma_sorted_unique(sorted_words(s), t, le());
}
proof fn lemma_spaced(s: Seq<Seq<char>>, k: int) requires 0 <= k < s.len() ensures spaced(s.take(k + 1)) == (spaced(s.take(k)) + s[k]).push(' ') { assert(s.take(k + 1).drop_last() =~= s.take(k)); }
// C22: the order of the classes does not matter
proof fn lemma_class_order(n: RoNode, m: RoNode)
    requires n.name() == m.name(), white_words(class_text(n)).to_multiset() == white_words(class_text(m)).to_multiset()
    ensures open_tag(n) == open_tag(m)
{ reveal(sorted_words); white_words(class_text(n)).to_multiset_ensures(); white_words(class_text(m)).to_multiset_ensures(); }
// ---------- crypto::md5 ----------
uninterp spec fn md5(s: Seq<char>) -> Seq<char>;
use NodeType::{ElementNode, TextNode};
struct MD5_HASHER;
#[verifier::external_body]
struct VxMd5 { _p: usize }
impl MD5_HASHER { #[verifier::external_body] fn lock(&self) -> (r: Result<VxMd5, ()>) ensures r is Ok { unimplemented!() } }
impl VxMd5 {
    uninterp spec fn fed(&self) -> Seq<char>;
    #[verifier::external_body] fn reset(&mut self) ensures final(self).fed() == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body] fn input_str(&mut self, s: &str) ensures final(self).fed() == old(self).fed() + s@ { unimplemented!() }
    #[verifier::external_body] fn result_str(&mut self) -> (r: String) ensures r@ == md5(old(self).fed()) { unimplemented!() }
}
trait VxPop { fn vx_pop(&mut self) -> Option<char>; }
impl VxPop for String { #[verifier::external_body] fn vx_pop(&mut self) -> (r: Option<char>) ensures old(self)@.len() > 0 ==> final(self)@ == old(self)@.drop_last(), old(self)@.len() == 0 ==> final(self)@ == old(self)@ { self.pop() } }
@method pop => vx_pop
@src src/dnm/c14n.rs
@fn DNM::canonical_internal
@props C22
@opt eq-call
@attr #[verifier::loop_isolation(false)]
@contract
    requires indent is None, ranges_ok(*self)
    ensures final(canonical_node)@ == old(canonical_node)@ + canon(*self, node)
    decreases node.height()
@subst vx_concat(vx_concat(String::new(), "\n"), &vx_range_list(1, level).vx_map(|_vx_p0| " ").vx_collect::<String>()) => vx_opaque_string()
@closure 0 |level: u32| -> (vx_r: u32) requires false
@at entry
    proof { node.axiom_tree(); let tx = recorded_text(*self, node); reveal_strlit(" class=\""); reveal_strlit("\""); reveal_strlit("<"); reveal_strlit("</"); reveal_strlit(">"); }
    let ghost s0 = canonical_node@;
@at before-call vx_sort_unstable 0
    proof { assert(strs(classes_split@) =~= white_words(class_text(node))); }
@at loop 0 before
    let ghost ws = strs(classes_split@); let ghost c0 = canonical_node@;
    proof { lemma_sorted_words(white_words(class_text(node)), ws); assert(ws.len() > 0); assert(ws.take(0) =~= Seq::<Seq<char>>::empty()); }
@at loop 0 iter it
@at loop 0 inv
    invariant strs(it.seq()) == ws, canonical_node@ == c0 + spaced(ws.take(it.index())),
@at loop 0 start
    proof { lemma_spaced(ws, it.index()); }
@at loop 0 end
    proof { assert(canonical_node@ =~= c0 + spaced(ws.take(it.index() + 1))); }
@at loop 0 after
    proof { assert(ws.take(ws.len() as int) =~= ws); }
@at after-call vx_pop 0
    proof { assert(ws.len() > 0); assert(canonical_node@ =~= c0 + spaced(ws).drop_last()); }
@at before-call get_first_child 0
    let ghost s1 = canonical_node@;
    proof { assert(s1 =~= s0 + if wrapper(node) { Seq::<char>::empty() } else { open_tag(node) }); assert(canon_kids(*self, node, 0) =~= Seq::<char>::empty()); }
@at before-call canonical_internal 0
    proof { assert(canon_kids(*self, node, 1) == canon_kids(*self, node, 0) + canon(*self, child)); }
@at loop 1 inv
    invariant
        node.height() == node.height(), ranges_ok(*self), indent is None, next_indent_level is None,
        0 <= child_node.pos() < node.kids().len(), child_node == node.kids()[child_node.pos()], child_node.sibs() == node.kids(),
        canonical_node@ =~= s1 + canon_kids(*self, node, (child_node.pos() + 1) as nat),
    decreases node.kids().len() - child_node.pos()
@at loop 1 start
    proof { node.axiom_tree(); child_node.axiom_tree(); }
@at loop 1 after
    proof { assert(child_node.pos() + 1 == node.kids().len()); assert(canonical_node@ =~= s1 + canon_kids(*self, node, node.kids().len())); }
@fn DNM::node_c14n_basic
@props C22
@ret r
@contract
    requires ranges_ok(*self)
    ensures r@ == canon(*self, node)
@fn DNM::to_c14n_basic
@props C22
@ret r
@contract
    requires ranges_ok(*self)
    ensures r@ == canon(*self, self.root_node)
@fn DNM::node_hash_basic
@props C22
@ret r
@contract
    requires ranges_ok(*self)
    ensures r@ == md5(canon(*self, node))
@fn DNM::to_hash_basic
@props C22
@ret r
@contract
    requires ranges_ok(*self)
    ensures r@ == md5(canon(*self, self.root_node))
