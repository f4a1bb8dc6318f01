@verbatim
// ---------- what formatting prints ----------
uninterp spec fn dec(i: i32) -> Seq<char>;     // decimal representation
trait VxDisplay { spec fn disp(&self) -> Seq<char>; fn vx_show(&self) -> (r: String) ensures r@ == self.disp(); }
impl VxDisplay for str { spec fn disp(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_show(&self) -> (r: String) { self.to_string() } }
impl VxDisplay for String { spec fn disp(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_show(&self) -> (r: String) { self.clone() } }
impl VxDisplay for i32 { spec fn disp(&self) -> Seq<char> { dec(*self) } #[verifier::external_body] fn vx_show(&self) -> (r: String) { self.to_string() } }
impl<'a, T: VxDisplay + ?Sized> VxDisplay for &'a T { spec fn disp(&self) -> Seq<char> { (**self).disp() } fn vx_show(&self) -> (r: String) { (**self).vx_show() } }
#[verifier::external_body]
fn vx_push_display<T: VxDisplay + ?Sized>(s: &mut String, x: &T) ensures final(s)@ == old(s)@ + x.disp() { s.push_str(&x.vx_show()) }
trait VxInt { fn vx_to_string(&self) -> String; }
impl VxInt for i32 { #[verifier::external_body] fn vx_to_string(&self) -> (r: String) ensures r@ == dec(*self) { self.to_string() } }
// ---------- XPointers ----------
// an XPath step selecting `t` selects its sibling `n` as well
spec fn like(n: RoNode, t: RoNode) -> bool { if t.is_text() { n.is_text() || n.is_cdata() } else { n.ty() == t.ty() && n.name() == t.name() } }
spec fn f_like(t: RoNode) -> spec_fn(RoNode) -> bool { |n: RoNode| like(n, t) }
spec fn decides<F: Fn(RoNode) -> bool>(rule: F, f: spec_fn(RoNode) -> bool) -> bool { forall|n: RoNode, b: bool| #[trigger] call_ensures(rule, (n,), b) ==> b == f(n) }
// one-based number of the k-th sibling among those selected by f
spec fn rank(f: spec_fn(RoNode) -> bool, ks: Seq<RoNode>, k: int) -> int decreases k { if k <= 0 { 1 } else { rank(f, ks, k - 1) + if f(ks[k - 1]) { 1int } else { 0 } } }
// the node after n in document order, outside n
spec fn next_after(root: RoNode, n: RoNode) -> Option<RoNode> decreases n.depth() {
    if n.pos() + 1 < n.sibs().len() { Some(n.sibs()[n.pos() + 1]) } else if n == root { None } else { match n.up() { Some(u) => if u.depth() < n.depth() { next_after(root, u) } else { None }, None => None } }
}
spec fn last_sibling(n: RoNode) -> bool { n.pos() + 1 == n.sibs().len() }
proof fn lemma_next_after(root: RoNode, n: RoNode)
    requires under(root, n), last_sibling(root)
    ensures next_after(root, n) is Some ==> next_after(root, n)->0.up() is Some && next_after(root, n)->0.up()->0.depth() < n.depth() && under(root, next_after(root, n)->0.up()->0) && next_after(root, n)->0 == next_after(root, n)->0.sibs()[next_after(root, n)->0.pos()]
    decreases n.depth()
{
    n.axiom_tree();
    if n.pos() + 1 < n.sibs().len() { if n.up() is Some { let u = n.up()->0; u.axiom_tree(); } } else if n != root { lemma_next_after(root, n.up()->0); }
}
// how a step names its node
spec fn step(t: RoNode) -> Seq<char> {
    if t.is_text() { "text()"@ } else { match t.ns() { Some(p) => if p.len() == 0 { "*[local-name() = '"@ + t.name() + "']"@ } else { p + ":"@ + t.name() }, None => t.name() } }
}
spec fn number(t: RoNode) -> int { rank(f_like(t), t.sibs(), t.pos()) }
// path of a node: by identifier, or the path of the parent and the rank among like siblings
spec fn child_path(base: Seq<char>, t: RoNode) -> Seq<char> { base + "/"@ + step(t) + "["@ + dec(number(t) as i32) + "]"@ }
spec fn id_path(x: Seq<char>) -> Seq<char> { "//*[@id=\""@ + x + "\"]"@ }
spec fn path(root: RoNode, n: RoNode) -> Seq<char> decreases n.depth() {
    match n.prop("id"@) { Some(x) => id_path(x), None => if n == root { "/"@ } else { match n.up() { Some(u) => if u.depth() < n.depth() { child_path(path(root, u), n) } else { Seq::empty() }, None => Seq::empty() } } }
}
// the end of a range inside a replaced element is the node after it
spec fn end_path(root: RoNode, n: RoNode) -> Seq<char> {
    if n.prop("id"@) is Some || n == root || n.is_text() { path(root, n) } else { let a = match next_after(root, n) { Some(a) => a, None => n }; match a.up() { Some(u) => child_path(path(root, u), a), None => Seq::empty() } }
}
spec fn node_pointer(root: RoNode, n: RoNode, is_end: bool) -> Seq<char> { if is_end { end_path(root, n) } else { path(root, n) } }
spec fn pointer(root: RoNode, n: RoNode, offset: i32, is_end: bool) -> Seq<char> {
    if offset < 0 { node_pointer(root, n, is_end) } else { "string-index("@ + node_pointer(root, n, is_end) + ","@ + dec((offset + 1) as i32) + ")"@ }
}
spec fn arange(a: Seq<char>, b: Seq<char>) -> Seq<char> { "arange("@ + a + ","@ + b + ")"@ }
// a position of the text: where the character came from, or right after the last one
spec fn position(d: DNM, i: int) -> (RoNode, i32) { if i < d.back_map@.len() { d.back_map@[i] } else { let l = d.back_map@.last(); (l.0, if l.1 < 0 { l.1 } else { (l.1 + 1) as i32 }) } }
proof fn lemma_text_step()
    ensures forall|b: Seq<char>, c: Seq<char>| #![trigger b + "/text()["@ + c] b + "/text()["@ + c == b + "/"@ + "text()"@ + "["@ + c
{
    reveal_strlit("/text()["); reveal_strlit("/"); reveal_strlit("text()"); reveal_strlit("[");
    assert("/text()["@ =~= "/"@ + "text()"@ + "["@);
    assert forall|b: Seq<char>, c: Seq<char>| #![trigger b + "/text()["@ + c] b + "/text()["@ + c == b + "/"@ + "text()"@ + "["@ + c by { assert(b + "/text()["@ + c =~= b + "/"@ + "text()"@ + "["@ + c); }
}
spec fn recorded_above(m: Map<usize, (usize, usize)>, n: RoNode) -> bool decreases n.depth() { m.dom().contains(n.hash()) || match n.up() { Some(u) => u.depth() < n.depth() && recorded_above(m, u), None => false } }
spec fn lowest(m: Map<usize, (usize, usize)>, n: RoNode) -> usize decreases n.depth() { if m.dom().contains(n.hash()) { m[n.hash()].0 } else { match n.up() { Some(u) => if u.depth() < n.depth() { lowest(m, u) } else { 0 }, None => 0 } } }
