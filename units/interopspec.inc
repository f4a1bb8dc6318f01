@verbatim
// ---------- std ----------
trait VxPattern { spec fn sep(&self) -> Seq<char>; }
impl VxPattern for char { spec fn sep(&self) -> Seq<char> { seq![*self] } }
impl<'a> VxPattern for &'a str { spec fn sep(&self) -> Seq<char> { self@ } }
trait VxSplitOn { fn vx_split_on<P: VxPattern>(&self, p: P) -> Vec<&str>; }
impl VxSplitOn for str { #[verifier::external_body] fn vx_split_on<P: VxPattern>(&self, p: P) -> (r: Vec<&str>) ensures refs(r@) == pieces(self@, p.sep()) { unimplemented!() } }
uninterp spec fn ascii_upper(c: char) -> char;       // char::to_ascii_uppercase
trait VxSpan { spec fn lo(&self) -> usize; spec fn hi(&self) -> usize; }
impl VxSpan for core::ops::Range<usize> { spec fn lo(&self) -> usize { self.start } spec fn hi(&self) -> usize { self.end } }
impl VxSpan for core::ops::RangeTo<usize> { spec fn lo(&self) -> usize { 0 } spec fn hi(&self) -> usize { self.end } }
trait VxGetMut { fn vx_get_mut<R: VxSpan>(&mut self, w: R) -> Option<&mut str>; }
#[verifier::external]
impl core::fmt::Debug for VxErr { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { unimplemented!() } }
spec fn boundary(s: Seq<char>, b: usize) -> bool { exists|i: int| #[trigger] at_byte(s, b as int, i) }
impl VxGetMut for String {
    #[verifier::external_body]
    fn vx_get_mut<R: VxSpan>(&mut self, w: R) -> (r: Option<&mut str>)
        ensures r is Some == (w.lo() <= w.hi() && boundary(old(self)@, w.lo()) && boundary(old(self)@, w.hi())),
            r is None ==> final(self)@ == old(self)@,
            r is Some ==> forall|i: int, j: int| #![trigger at_byte(old(self)@, w.lo() as int, i), at_byte(old(self)@, w.hi() as int, j)] at_byte(old(self)@, w.lo() as int, i) && at_byte(old(self)@, w.hi() as int, j) ==> (r->0)@ == old(self)@.subrange(i, j) && final(self)@ == old(self)@.take(i) + final(r->0)@ + old(self)@.skip(j)
    { unimplemented!() }
}
trait VxUpper { fn vx_upper(&mut self); }
impl VxUpper for str { #[verifier::external_body] fn vx_upper(&mut self) ensures final(self)@ == Seq::new(old(self)@.len(), |i: int| ascii_upper(old(self)@[i])) { self.make_ascii_uppercase() } }
// ---------- C34: rebuilding a tokenized paragraph ----------
spec fn lexeme_run() -> Seq<char> { "(?:(?:NUM|(?:(?:\\S+_)+(?:\\S+)))(\\s|$))+"@ }
// the first character in upper case, if it is ASCII
spec fn titled(s: Seq<char>) -> Seq<char> { if s.len() > 0 && u8len(s[0]) == 1 { seq![ascii_upper(s[0])] + s.skip(1) } else { s } }
spec fn finished(l: Seq<char>) -> Seq<char> { titled(re_replaced(lexeme_run(), l, "mathformula "@)) }
spec fn nonempty(ws: Seq<Seq<char>>) -> Seq<Seq<char>> decreases ws.len() { if ws.len() == 0 { ws } else if ws.last().len() > 0 { nonempty(ws.drop_last()).push(ws.last()) } else { nonempty(ws.drop_last()) } }
spec fn all_finished(ls: Seq<Seq<char>>) -> Seq<Seq<char>> { Seq::new(ls.len(), |i: int| finished(ls[i])) }
// the non-empty lines, each finished, joined by full stops
spec fn rebuilt(s: Seq<char>) -> Seq<char> { joined(all_finished(nonempty(pieces(s, seq!['\n']))), " . "@) }
proof fn lemma_first(s: Seq<char>)
    ensures at_byte(s, 0, 0), s.len() == 0 ==> !boundary(s, 1), s.len() > 0 ==> (boundary(s, 1) == (u8len(s[0]) == 1)), s.len() > 0 && u8len(s[0]) == 1 ==> at_byte(s, 1, 1), s.len() > 0 ==> s.take(0) + seq![ascii_upper(s[0])] + s.skip(1) == seq![ascii_upper(s[0])] + s.skip(1),
        s.len() > 0 ==> forall|t: Seq<char>| #![trigger t.len()] t.len() == 1 && t[0] == ascii_upper(s[0]) ==> t == seq![ascii_upper(s[0])],
{
    assert(s.take(0) =~= Seq::<char>::empty());
    if s.len() > 0 {
        lemma_blen_take(s, 0);
        assert(s.take(0) + seq![ascii_upper(s[0])] + s.skip(1) =~= seq![ascii_upper(s[0])] + s.skip(1));
        if boundary(s, 1) { let i = choose|i: int| #[trigger] at_byte(s, 1, i); if i > 1 { lemma_blen_mono(s, 1, i); } assert(i == 0 || i == 1); lemma_blen_take(s, 0); assert(s.take(1) == s.take(1int)); assert(blen(s.take(0)) == 0); assert(blen(s.take(1)) == u8len(s[0])); }
        assert(blen(s.take(1)) == u8len(s[0])) by { assert(s.take(1) == s.take(1int)); assert(blen(s.take(0)) == 0); } if u8len(s[0]) == 1 { assert(at_byte(s, 1, 1)); }
        assert forall|t: Seq<char>| #![trigger t.len()] t.len() == 1 && t[0] == ascii_upper(s[0]) implies t == seq![ascii_upper(s[0])] by { assert(t =~= seq![ascii_upper(s[0])]); }
    } else { assert forall|i: int| #[trigger] at_byte(s, 1, i) implies false by { assert(s.take(i) =~= s); } }
}
proof fn lemma_select(v: Seq<&str>, k: Seq<bool>)
    requires k.len() == v.len(), forall|i: int| 0 <= i < k.len() ==> #[trigger] k[i] == (v[i]@.len() > 0)
    ensures refs(vx_select(v, k)) == nonempty(refs(v))
    decreases v.len()
{
    if v.len() == 0 { assert(refs(vx_select(v, k)) =~= nonempty(refs(v))); }
    else {
        assert(k[k.len() - 1] == (v[k.len() - 1]@.len() > 0));
        lemma_select(v.drop_last(), k.drop_last());
        assert(refs(v).drop_last() =~= refs(v.drop_last()));
        if k.last() { assert(refs(vx_select(v, k)) =~= refs(vx_select(v.drop_last(), k.drop_last())).push(v.last()@)); }
    }
}
proof fn lemma_lines()
    ensures forall|s: Seq<char>| (#[trigger] blen(s) == 0) == (s.len() == 0), forall|v: Seq<&str>, k: Seq<bool>| k.len() == v.len() && (forall|i: int| 0 <= i < k.len() ==> #[trigger] k[i] == (v[i]@.len() > 0)) ==> refs(#[trigger] vx_select(v, k)) == nonempty(refs(v))
{ assert forall|s: Seq<char>| (#[trigger] blen(s) == 0) == (s.len() == 0) by { if s.len() > 0 { assert(blen(s) == blen(s.drop_last()) + u8len(s.last())); } }
  assert forall|v: Seq<&str>, k: Seq<bool>| k.len() == v.len() && (forall|i: int| 0 <= i < k.len() ==> #[trigger] k[i] == (v[i]@.len() > 0)) implies refs(#[trigger] vx_select(v, k)) == nonempty(refs(v)) by { lemma_select(v, k); } }
proof fn lemma_finished()
    ensures forall|x: Seq<String>, ls: Seq<&str>| #![trigger strs(x), refs(ls)] x.len() == ls.len() && (forall|i: int| 0 <= i < x.len() ==> (#[trigger] x[i])@ == finished(ls[i]@)) ==> strs(x) == all_finished(refs(ls))
{ assert forall|x: Seq<String>, ls: Seq<&str>| #![trigger strs(x), refs(ls)] x.len() == ls.len() && (forall|i: int| 0 <= i < x.len() ==> (#[trigger] x[i])@ == finished(ls[i]@)) implies strs(x) == all_finished(refs(ls)) by { assert forall|i: int| 0 <= i < x.len() implies strs(x)[i] == all_finished(refs(ls))[i] by { assert(x[i]@ == finished(ls[i]@)); } assert(strs(x) =~= all_finished(refs(ls))); } }
// ---------- libxml::tree: a document under construction; a node records what was done to it ----------
enum NodeOp { Child(int), Attr(Seq<char>, Seq<char>), Text(Seq<char>) }
struct NodeV { id: int, name: Seq<char>, ops: Seq<NodeOp>, linked: bool }
// what a C string can hold
spec fn storable(s: Seq<char>) -> bool { !s.contains('\0') }
#[verifier::external_body]
struct Document { _p: usize }
#[verifier::external_body]
struct Node { _p: usize }
impl Document {
    uninterp spec fn root(&self) -> Option<int>;
    spec fn tree(&self) -> RoNode { built(self.root()->0) }
    #[verifier::external_body] fn new() -> (r: Result<Document, ()>) ensures r is Ok, (r->Ok_0).root() is None { unimplemented!() }
    #[verifier::external_body] fn set_root_element(&mut self, n: &Node) ensures final(self).root() == Some(n.v().id) { unimplemented!() }
    #[verifier::external_body] fn get_root_readonly(&self) -> (r: Option<RoNode>) ensures r is Some == self.root() is Some, r is Some ==> r->0 == self.tree() { unimplemented!() }
}
impl Node {
    uninterp spec fn v(&self) -> NodeV;
    #[verifier::external_body] fn new(name: &str, ns: Option<Namespace>, d: &Document) -> (r: Result<Node, ()>) ensures storable(name@) ==> r is Ok, r is Ok ==> (r->Ok_0).v().name == name@ && (r->Ok_0).v().ops == Seq::<NodeOp>::empty() && !(r->Ok_0).v().linked { unimplemented!() }
    #[verifier::external_body] fn add_child(&mut self, c: &mut Node) -> (r: Result<(), VxErr>)
        ensures r is Ok == !old(c).v().linked, r is Ok ==> final(self).v() == (NodeV { ops: old(self).v().ops.push(NodeOp::Child(old(c).v().id)), ..old(self).v() }) && final(c).v() == (NodeV { linked: true, ..old(c).v() })
    { unimplemented!() }
    #[verifier::external_body] fn set_attribute(&mut self, k: &str, v: &str) -> (r: Result<(), VxErr>)
        ensures storable(k@) && storable(v@) ==> r is Ok, r is Ok ==> final(self).v() == (NodeV { ops: old(self).v().ops.push(NodeOp::Attr(k@, v@)), ..old(self).v() })
    { unimplemented!() }
    #[verifier::external_body] fn append_text(&mut self, s: &str) -> (r: Result<(), VxErr>)
        ensures storable(s@) ==> r is Ok, r is Ok ==> final(self).v() == (NodeV { ops: old(self).v().ops.push(NodeOp::Text(s@)), ..old(self).v() })
    { unimplemented!() }
}
uninterp spec fn built(id: int) -> RoNode;       // the node as it is read back
enum Kid { Sub(int), Txt(Seq<char>) }
// children: elements as linked, texts merged with a text before them; an empty text adds nothing
spec fn kids_of(ops: Seq<NodeOp>) -> Seq<Kid> decreases ops.len() {
    if ops.len() == 0 { Seq::empty() } else { kid_step(kids_of(ops.drop_last()), ops.last()) }
}
spec fn attr_of(ops: Seq<NodeOp>, k: Seq<char>) -> Option<Seq<char>> decreases ops.len() {
    if ops.len() == 0 { None } else { match ops.last() { NodeOp::Attr(a, v) => if a == k { Some(v) } else { attr_of(ops.drop_last(), k) }, _ => attr_of(ops.drop_last(), k) } }
}
spec fn is_kid(n: RoNode, k: Kid) -> bool { match k { Kid::Sub(i) => n == built(i), Kid::Txt(s) => n.is_text() && n.content() == s } }
// a node that nothing is done to any more is read back as it was built
#[verifier::external_body]
proof fn axiom_built(n: &Node)
    ensures ({ let r = built(n.v().id); r.is_element() && r.name() == n.v().name && r.kids().len() == kids_of(n.v().ops).len() && (forall|i: int| 0 <= i < r.kids().len() ==> is_kid(#[trigger] r.kids()[i], kids_of(n.v().ops)[i])) && forall|k: Seq<char>| #[trigger] r.prop(k) == attr_of(n.v().ops, k) })
{}
// html > body > div.ltx_para > text
spec fn para_doc(r: RoNode, s: Seq<char>) -> bool {
    r.is_element() && r.name() == "html"@ && r.kids().len() == 1 && body_of(r.kids()[0], s) && r.prop("class"@) is None
}
spec fn body_of(b: RoNode, s: Seq<char>) -> bool { b.is_element() && b.name() == "body"@ && b.kids().len() == 1 && para_of(b.kids()[0], s) && b.prop("class"@) is None }
spec fn para_of(p: RoNode, s: Seq<char>) -> bool {
    p.is_element() && p.name() == "div"@ && p.prop("class"@) == Some("ltx_para"@) && if s.len() == 0 { p.kids().len() == 0 } else { p.kids().len() == 1 && p.kids()[0].is_text() && p.kids()[0].content() == s }
}
// a model with the given (or the default) parameters, holding the text
spec fn model_of(d: DNM, o: Option<DNMParameters>, s: Seq<char>) -> bool {
    (o is Some ==> d.parameters == o->0) && d.wf() && ranges_ok(d)
    && d.st() == visit(d.parameters, d.root_node, start(d.parameters)) && d.plaintext@ == d.st().chars
    && (plain(d.parameters) ==> d.plaintext@ == (if d.parameters.normalize_white_spaces { norm_chars(s, true, s.len() as int) } else { s }))
    && (o is None ==> plain(d.parameters) && d.parameters.normalize_white_spaces && d.parameters.support_back_mapping)
}
spec fn start(p: DNMParameters) -> St { St { chars: Seq::empty(), back: Seq::empty(), ws: p.normalize_white_spaces, map: Map::empty() } }
// parameters without rules and without transliteration, stemming or lowercasing
spec fn plain(p: DNMParameters) -> bool { p.special_tag_name_options@ == Map::<Seq<char>, SpecialTagsOption>::empty() && p.special_tag_class_options@ == Map::<Seq<char>, SpecialTagsOption>::empty() && !p.normalize_unicode && !p.stem_words_once && !p.stem_words_full && !p.convert_to_lowercase }
proof fn lemma_enter(p: DNMParameters, n: RoNode, k: int)
    requires plain(p), 0 <= k <= class_names(n).len() + 1 ensures policy_from(p, n, k) == Pol::Enter decreases class_names(n).len() + 1 - k
{ if k <= class_names(n).len() { lemma_enter(p, n, k + 1); } }
proof fn lemma_one(p: DNMParameters, n: RoNode, s: St)
    requires plain(p), n.is_element(), n.kids().len() <= 1
    ensures visit(p, n, s).chars == (if n.kids().len() == 1 { visit(p, n.kids()[0], s).chars } else { s.chars })
{ n.axiom_tree(); lemma_enter(p, n, 0); assert(visit_kids(p, n, 0, s) == s); }
proof fn lemma_model(p: DNMParameters, r: RoNode, s: Seq<char>)
    requires para_doc(r, s)
    ensures plain(p) ==> visit(p, r, start(p)).chars == (if p.normalize_white_spaces { norm_chars(s, true, s.len() as int) } else { s })
{
    if plain(p) {
        let b = r.kids()[0]; let d = b.kids()[0];
        lemma_one(p, r, start(p)); lemma_one(p, b, start(p)); lemma_one(p, d, start(p));
        if s.len() > 0 { assert(text_chars(p, d.kids()[0], p.normalize_white_spaces) == (if p.normalize_white_spaces { norm_chars(s, true, s.len() as int) } else { s }));
            assert(visit(p, d.kids()[0], start(p)).chars =~= text_chars(p, d.kids()[0], p.normalize_white_spaces)); }
        else { assert(visit(p, r, start(p)).chars =~= s); assert(norm_chars(s, true, 0) =~= s); }
    }
}
// one more operation
spec fn kid_step(r: Seq<Kid>, op: NodeOp) -> Seq<Kid> {
    match op { NodeOp::Child(i) => r.push(Kid::Sub(i)), NodeOp::Attr(_, _) => r,
        NodeOp::Text(s) => if s.len() == 0 { r } else if r.len() > 0 && r.last() is Txt { r.drop_last().push(Kid::Txt(r.last()->Txt_0 + s)) } else { r.push(Kid::Txt(s)) } }
}
spec fn attr_step(ops: Seq<NodeOp>, op: NodeOp, k: Seq<char>) -> Option<Seq<char>> { match op { NodeOp::Attr(a, v) => if a == k { Some(v) } else { attr_of(ops, k) }, _ => attr_of(ops, k) } }
proof fn lemma_steps()
    ensures kids_of(Seq::<NodeOp>::empty()) == Seq::<Kid>::empty(), forall|k: Seq<char>| #[trigger] attr_of(Seq::<NodeOp>::empty(), k) is None,
        forall|ops: Seq<NodeOp>, op: NodeOp| kids_of(#[trigger] ops.push(op)) == kid_step(kids_of(ops), op),
        forall|ops: Seq<NodeOp>, op: NodeOp, k: Seq<char>| #[trigger] attr_of(ops.push(op), k) == attr_step(ops, op, k),
{
    assert forall|ops: Seq<NodeOp>, op: NodeOp| kids_of(#[trigger] ops.push(op)) == kid_step(kids_of(ops), op) by { assert(ops.push(op).drop_last() =~= ops); }
    assert forall|ops: Seq<NodeOp>, op: NodeOp, k: Seq<char>| #[trigger] attr_of(ops.push(op), k) == attr_step(ops, op, k) by { assert(ops.push(op).drop_last() =~= ops); }
}
trait VxOrDefault2 { fn vx_or_default(self) -> DNMParameters; }
impl VxOrDefault2 for Option<DNMParameters> {
    fn vx_or_default(self) -> (r: DNMParameters) ensures self is Some ==> r == self->0, self is None ==> plain(r) && consistent(r) && r.normalize_white_spaces && r.support_back_mapping
    { match self { Some(p) => p, None => DNMParameters::default() } }
}
