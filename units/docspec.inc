@include docbase.inc
@verbatim
// ---------- std::vec::IntoIter: what is still to come ----------
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
struct VxIter<T> { _v: Vec<T> }
impl<T> VxIter<T> {
    uninterp spec fn rest(&self) -> Seq<T>;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<T>)
        ensures old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1), old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest()
    { unimplemented!() }
}
trait VxWalk<T> { fn vx_walk(self) -> VxIter<T>; }
impl<T> VxWalk<T> for Vec<T> { #[verifier::external_body] fn vx_walk(self) -> (r: VxIter<T>) ensures r.rest() == self@ { unimplemented!() } }
impl Clone for DNMParameters { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
// ---------- the tokenizer: a function of its tables and the text ----------
uninterp spec fn sentences_of(t: Tokenizer, d: &DNM) -> Seq<DNMRange<'static>>;
// ---------- C28 ----------
spec fn bounds(v: Seq<DNMRange>) -> Seq<(usize, usize)> { Seq::new(v.len(), |i: int| (v[i].start, v[i].end)) }
spec fn all_ok(v: Seq<DNMRange>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).ok() }
// the non-empty ranges, in order
spec fn filled<'a>(v: Seq<DNMRange<'a>>) -> Seq<DNMRange<'a>> decreases v.len() {
    if v.len() == 0 { Seq::empty() } else if v[0].start < v[0].end { seq![v[0]] + filled(v.skip(1)) } else { filled(v.skip(1)) }
}
// the document model of a node under the standard parameters
spec fn st_init(p: DNMParameters) -> St { St { chars: Seq::empty(), back: Seq::empty(), ws: p.normalize_white_spaces, map: Map::empty() } }
spec fn model_of(d: DNM, p: DNMParameters, n: RoNode) -> bool { d.parameters == p && d.root_node == n && d.wf() && ranges_ok(d) && d.st() == visit(p, n, st_init(p)) && d.node_map@.dom().contains(n.hash()) && d.node_map@[n.hash()] == (0usize, d.n() as usize) }
spec fn std_model(d: DNM, n: RoNode) -> bool { std_params(d.parameters) && model_of(d, d.parameters, n) && d.back_map@.len() == d.n() }
proof fn lemma_ok_of_tiles(d: &DNM, v: Seq<DNMRange>, hi: int)
    requires d.wf(), tiles(d, v, hi) ensures forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).ok() && v[i].dnm == d decreases v.len()
{ if v.len() > 0 { lemma_ok_of_tiles(d, v.drop_last(), v.last().start as int); assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]).ok() && v[i].dnm == d by { if i < v.len() - 1 { assert(v[i] == v.drop_last()[i]); } } } }
proof fn lemma_ok_of(d: &DNM)
    requires d.wf() ensures forall|v: Seq<DNMRange>| #[trigger] in_order(d, v) ==> all_ok(v)
{ assert forall|v: Seq<DNMRange>| #[trigger] in_order(d, v) implies all_ok(v) by { let hi = choose|hi: int| #[trigger] tiles(d, v, hi); lemma_ok_of_tiles(d, v, hi); } }
// ---------- the selected nodes ----------
spec fn headings(d: XmlDoc) -> Seq<RoNode> { d.select("//*[contains(@class,'ltx_title') and not(contains(@class,'ltx_title_document')) and (local-name()='h1' or local-name()='h2' or local-name()='h3' or local-name()='h4' or local-name()='h5' or local-name()='h6') and not(descendant::*[contains(@class,'ltx_ERROR')])]"@) }
spec fn paragraphs(d: XmlDoc) -> Seq<RoNode> { d.select("//*[local-name()='div' and contains(@class,'ltx_para') and not(descendant::*[contains(@class,'ltx_ERROR')]) and not(preceding-sibling::*[contains(@class,'ltx_ERROR')])]"@) }
spec fn abstract_ps(d: XmlDoc) -> Seq<RoNode> { d.select("//*[local-name()='div' and contains(@class,'ltx_abstract') and not(descendant::*[contains(@class,'ltx_ERROR')])]//*[local-name()='p' and contains(@class,'ltx_p')][1]"@) }
spec fn keyword_divs(d: XmlDoc) -> Seq<RoNode> { d.select("//*[local-name()='div' and contains(@class,'ltx_keywords') and not(descendant::*[contains(@class,'ltx_ERROR')])]"@) }
spec fn acknowledgements(d: XmlDoc) -> Seq<RoNode> { d.select("//*[local-name()='div' and contains(@class,'ltx_acknowledgement') and not(descendant::*[contains(@class,'ltx_ERROR')])]"@) }
spec fn captions(d: XmlDoc) -> Seq<RoNode> { d.select("//*[local-name()='figcaption' and contains(@class,'ltx_caption') and not(descendant::*[contains(@class,'ltx_ERROR')])]"@) }
spec fn maths(d: XmlDoc) -> Seq<RoNode> { d.select("//*[local-name()='math']"@) }
spec fn references(d: XmlDoc) -> Seq<RoNode> { d.select("//*[(local-name()='span' or local-name()='a') and (contains(@class,'ltx_ref ') or @class='ltx_ref')]"@) }
spec fn first(s: Seq<RoNode>) -> Seq<RoNode> { if s.len() > 0 { seq![s[0]] } else { Seq::empty() } }
spec fn first_of(s: Seq<RoNode>) -> Option<RoNode> { if s.len() > 0 { Some(s[0]) } else { None } }
spec fn extended(d: XmlDoc) -> Seq<RoNode> { first(abstract_ps(d)) + first(keyword_divs(d)) + paragraphs(d) + first(acknowledgements(d)) + captions(d) }
// depth-first document order
spec fn preorder(n: RoNode) -> Seq<RoNode> decreases n.height(), 1nat, 0nat { seq![n] + preorder_kids(n, n.kids().len()) }
spec fn preorder_kids(n: RoNode, k: nat) -> Seq<RoNode> decreases n.height(), 0nat, k {
    if k == 0 || k > n.kids().len() { Seq::empty() } else { let c = n.kids()[k - 1]; preorder_kids(n, (k - 1) as nat) + if c.height() < n.height() { preorder(c) } else { Seq::empty() } }
}
proof fn lemma_select_add<T>(a: Seq<T>, ka: Seq<bool>, b: Seq<T>, kb: Seq<bool>)
    requires a.len() == ka.len(), b.len() == kb.len() ensures vx_select(a + b, ka + kb) == vx_select(a, ka) + vx_select(b, kb) decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); assert(ka + kb =~= ka); assert(vx_select(b, kb) =~= Seq::<T>::empty()); assert(vx_select(a, ka) + vx_select(b, kb) =~= vx_select(a, ka)); } else { lemma_select_add(a, ka, b.drop_last(), kb.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert((ka + kb).drop_last() =~= ka + kb.drop_last()); assert(vx_select(a + b, ka + kb) =~= vx_select(a, ka) + vx_select(b, kb)); } }
// the flags by which a filter selects nodes
spec fn flags_ok<F: Fn(&RoNode) -> bool>(f: F, s: Seq<RoNode>, k: Seq<bool>) -> bool { k.len() == s.len() && forall|i: int| 0 <= i < k.len() ==> call_ensures(f, (&s[i],), #[trigger] k[i]) }
spec fn selected_by<F: Fn(&RoNode) -> bool>(f: F, s: Seq<RoNode>, r: Seq<RoNode>) -> bool { exists|k: Seq<bool>| flags_ok(f, s, k) && r == #[trigger] vx_select(s, k) }
// the words of a whole document model
spec fn item_words(d: &DNM, v: Seq<DNMRange>, f: spec_fn(Seq<char>) -> Seq<(int, int)>) -> bool {
    if d.node_map@.dom().contains(d.root_node.hash()) { exists|x: DNMRange| #![trigger x.ok()] x.dnm == d && x.ok() && (x.start, x.end) == d.node_map@[d.root_node.hash()] && addresses(x, v, f(x.text())) } else { v.len() == 0 }
}
