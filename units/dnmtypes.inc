@verbatim
#[verifier::external_body]
struct VxTokenFn { _p: usize }
impl Clone for VxTokenFn { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
@src src/dnm/parameters.rs
@type RuntimeParseData
@type SpecialTagsOption
subst Arc<fn(RoNode) -> String> => VxTokenFn
@type DNMParameters
@src src/dnm/mod.rs
@type DNM
@src src/dnm/range.rs
@type DNMRange
@verbatim
impl DNM {
    // the table of byte offsets (C01): entry i is the byte length of the first i characters
    spec fn wf(&self) -> bool {
        self.byte_offsets@.len() == self.plaintext@.len() + 1
        && forall|i: int| 0 <= i <= self.plaintext@.len() ==> #[trigger] self.byte_offsets@[i] == blen(self.plaintext@.take(i))
    }
    // the number of characters
    spec fn n(&self) -> int { self.plaintext@.len() as int }
}
impl<'dnmrange> DNMRange<'dnmrange> {
    spec fn ok(&self) -> bool { self.dnm.wf() && self.start <= self.end <= self.dnm.n() }
    spec fn text(&self) -> Seq<char> { self.dnm.plaintext@.subrange(self.start as int, self.end as int) }
    // a part of the same document
    spec fn within(&self, o: DNMRange<'dnmrange>) -> bool { self.dnm == o.dnm && o.start <= self.start && self.end <= o.end && self.start <= self.end }
}
// every recorded range lies in the text
spec fn ranges_ok(d: DNM) -> bool { d.wf() && forall|h: usize| #[trigger] d.node_map@.dom().contains(h) ==> d.node_map@[h].0 <= d.node_map@[h].1 <= d.n() }
// memory: no allocation is larger than isize::MAX bytes
#[verifier::external_body]
proof fn axiom_string_size(s: &String) ensures blen(s@) <= isize::MAX, s@.len() <= isize::MAX {}
// position i of the text: a character of a text node lies in the node's recorded range, whose offsets increase
spec fn source(d: DNM, i: int) -> bool {
    let x = d.back_map@[i].0; let o = d.back_map@[i].1; let g = d.node_map@[x.hash()];
    under(d.root_node, x) && -1 <= o < i32::MAX - 1 && (o >= 0 ==> x.is_text() && d.node_map@.dom().contains(x.hash()) && g.0 <= i < g.1 <= d.back_map@.len() && (forall|j: int| g.0 <= j < g.1 ==> (#[trigger] d.back_map@[j]).0 == x) && (forall|j: int, k: int| #![trigger d.back_map@[j], d.back_map@[k]] g.0 <= j < k < g.1 ==> d.back_map@[j].1 < d.back_map@[k].1))
}
spec fn sourced(d: DNM) -> bool { forall|i: int| 0 <= i < d.back_map@.len() ==> #[trigger] source(d, i) }
// the node lies in the tree below root
spec fn under(root: RoNode, n: RoNode) -> bool decreases n.depth() { n == root || match n.up() { Some(u) => u.depth() < n.depth() && under(root, u), None => false } }
