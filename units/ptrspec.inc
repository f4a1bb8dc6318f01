@verbatim
// ---------- libxml::xpath::Context, evaluated on the document ----------
#[verifier::external_body]
struct Context { _p: usize }
#[verifier::external_body]
struct VxObject { _p: usize }
uninterp spec fn selected(c: Context, e: Seq<char>) -> Seq<RoNode>;   // the nodes an expression selects, in document order
uninterp spec fn valid_xpath(c: Context, e: Seq<char>) -> bool;
impl Context { #[verifier::external_body] fn evaluate(&self, e: &str) -> (r: Result<VxObject, ()>) ensures r is Ok == valid_xpath(*self, e@), r is Ok ==> (r->Ok_0).nodes() == selected(*self, e@) { unimplemented!() } }
impl VxObject {
    uninterp spec fn nodes(&self) -> Seq<RoNode>;
    #[verifier::external_body] fn get_number_of_nodes(&self) -> (r: usize) ensures r == self.nodes().len() { unimplemented!() }
    #[verifier::external_body] fn get_readonly_nodes_as_vec(&self) -> (r: Vec<RoNode>) ensures r@ == self.nodes() { unimplemented!() }
}
// ---------- str::find, str::parse ----------
spec fn found_at(p: Seq<char>, s: Seq<char>, i: int) -> bool { 0 <= i && i + p.len() <= s.len() && s.subrange(i, i + p.len()) == p }
trait VxPat { spec fn pt(&self) -> Seq<char>; }
impl VxPat for char { spec fn pt(&self) -> Seq<char> { seq![*self] } }
impl<'a> VxPat for &'a str { spec fn pt(&self) -> Seq<char> { (*self)@ } }
// `i` is the first place of the pattern
spec fn first_at(p: Seq<char>, s: Seq<char>, i: int) -> bool { found_at(p, s, i) && forall|j: int| 0 <= j < i ==> !#[trigger] found_at(p, s, j) }
spec fn nowhere(p: Seq<char>, s: Seq<char>) -> bool { forall|j: int| !#[trigger] found_at(p, s, j) }
trait VxFindParse {
    spec fn fs(&self) -> Seq<char>;
    fn vx_find<P: VxPat>(&self, p: P) -> (r: Option<usize>)
        ensures r is None ==> nowhere(p.pt(), self.fs()), r is Some ==> exists|i: int| #[trigger] first_at(p.pt(), self.fs(), i) && at_byte(self.fs(), r->0 as int, i);
    fn vx_parse<T: VxFromStr>(&self) -> (r: Result<T, ()>) ensures T::reads(self.fs()) is Some == r is Ok, r is Ok ==> T::reads(self.fs()) == Some(r->Ok_0);
}
impl VxFindParse for str {
    spec fn fs(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_find<P: VxPat>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn vx_parse<T: VxFromStr>(&self) -> (r: Result<T, ()>) { unimplemented!() }
}
trait VxFromStr: Sized { spec fn reads(s: Seq<char>) -> Option<Self>; }
uninterp spec fn read_i32(s: Seq<char>) -> Option<i32>;
impl VxFromStr for i32 { spec fn reads(s: Seq<char>) -> Option<i32> { read_i32(s) } }
// printing a number and reading it back; the digits of a number
#[verifier::external_body]
proof fn axiom_dec(x: i32) ensures read_i32(dec(x)) == Some(x), x >= 0 ==> forall|i: int| 0 <= i < dec(x).len() ==> a_digit(#[trigger] dec(x)[i]) {}
// ---------- reading a pointer ----------
spec fn pre() -> Seq<char> { "string-index("@ }
spec fn indexed(s: Seq<char>, p: Seq<char>, k: i32) -> bool { s == "string-index("@ + p + ","@ + dec(k) + ")"@ && !p.contains(',') && 1 <= k }
// a pointer of a node
spec fn plain(s: Seq<char>) -> bool { if blen(s) > 13 { (exists|i: int| #[trigger] at_byte(s, 13, i)) && forall|i: int| #[trigger] at_byte(s, 13, i) ==> s.take(i) != pre() } else { true } }
spec fn one(c: Context, e: Seq<char>) -> bool { valid_xpath(c, e) && selected(c, e).len() == 1 }
// the first position from `a` on, before `b`, whose offset is not below `off`
spec fn reach(d: DNM, a: int, b: int, off: int) -> int decreases b - a { if a < b && d.back_map@[a].1 < off { reach(d, a + 1, b, off) } else { a } }
spec fn node_place(d: DNM, n: RoNode) -> usize { lowest(d.node_map@, n) }
spec fn text_place(d: DNM, n: RoNode, off: int) -> usize {
    if d.node_map@.dom().contains(n.hash()) { let g = d.node_map@[n.hash()]; reach(d, g.0 as int, g.1 as int, off) as usize } else { node_place(d, n) }
}
// what a pointer says, and that it can be read
spec fn places(c: Context, d: DNM, s: Seq<char>, r: usize) -> bool {
    (forall|p: Seq<char>, k: i32| #[trigger] indexed(s, p, k) ==> r == text_place(d, selected(c, p)[0], k - 1))
    && (plain(s) ==> r == node_place(d, selected(c, s)[0]))
}
spec fn node_readable(d: DNM, n: RoNode) -> bool { recorded_above(d.node_map@, n) && (d.node_map@.dom().contains(n.hash()) ==> d.node_map@[n.hash()].1 <= d.back_map@.len()) }
spec fn readable(c: Context, d: DNM, s: Seq<char>) -> bool {
    (plain(s) && one(c, s) && node_readable(d, selected(c, s)[0])) || exists|p: Seq<char>, k: i32| #[trigger] indexed(s, p, k) && one(c, p) && node_readable(d, selected(c, p)[0])
}
// where a range pointer is cut in two
spec fn cuts(s: Seq<char>, a: Seq<char>, b: Seq<char>) -> bool {
    s == arange(a, b) && a.len() > 0 && (first_at("),"@, s, 6 + a.len() as int) || (nowhere("),"@, s) && first_at("],"@, s, 6 + a.len() as int)))
}
proof fn lemma_blen_ascii(s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 0x80
    ensures blen(s) == s.len()
    decreases s.len()
{ if s.len() > 0 { let t = s.drop_last(); assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i] as u32) < 0x80 by { assert(t[i] == s[i]); } lemma_blen_ascii(t); } }
proof fn lemma_boundary(a: Seq<char>, b: Seq<char>)
    ensures at_byte(a + b, blen(a) as int, a.len() as int), blen(a + b) == blen(a) + blen(b)
{ assert((a + b).take(a.len() as int) =~= a); lemma_blen_add(a, b); }
// facts of one indexed pointer
proof fn lemma_indexed(s: Seq<char>, p: Seq<char>, k: i32)
    requires indexed(s, p, k)
    ensures
        read_i32(dec(k)) == Some(k), at_byte(s, 13, 13), s.take(13) == pre(), blen(s) > 13, !plain(s), s.len() == 13 + p.len() + 2 + dec(k).len(),
        first_at(seq![','], s, 13 + p.len() as int), at_byte(s, 13 + blen(p) as int, 13 + p.len() as int), at_byte(s, 13 + blen(p) as int + 1, 13 + p.len() as int + 1),
        at_byte(s, blen(s) - 1, s.len() - 1), s.subrange(13, 13 + p.len() as int) == p, s.subrange(13 + p.len() as int + 1, s.len() - 1) == dec(k), 13 + blen(p) + 1 <= blen(s) - 1, s.last() == ')',
        forall|q: Seq<char>, l: i32| #[trigger] indexed(s, q, l) ==> q == p && l == k,
{
    reveal_strlit("string-index("); reveal_strlit(","); reveal_strlit(")");
    let x = "string-index("@; let y = ","@; let z = ")"@; let d = dec(k); axiom_dec(k);
    assert(x.len() == 13); lemma_blen_ascii(x); lemma_blen_ascii(y); lemma_blen_ascii(z);
    assert(s =~= x + (p + y + d + z)); lemma_boundary(x, p + y + d + z);
    assert(s =~= (x + p) + (y + d + z)); lemma_boundary(x + p, y + d + z); lemma_boundary(x, p);
    assert(s =~= (x + p + y) + (d + z)); lemma_boundary(x + p + y, d + z); lemma_boundary(x + p, y);
    assert(s =~= (x + p + y + d) + z); lemma_boundary(x + p + y + d, z); lemma_boundary(x + p + y, d);
    assert(s.take(13) =~= x);
    assert forall|i: int| #[trigger] at_byte(s, 13, i) implies s.take(i) == pre() by { lemma_at_byte_unique(s, 13, i, 13); }
    assert(s.subrange(13, 13 + p.len() as int) =~= p); assert(s.subrange(13 + p.len() as int + 1, s.len() - 1) =~= d);
    let c = 13 + p.len() as int;
    assert(s.subrange(c as int, c + 1) =~= seq![',']);
    assert forall|j: int| 0 <= j < c implies !#[trigger] found_at(seq![','], s, j) by {
        if found_at(seq![','], s, j) { assert(s.subrange(j, j + 1)[0] == s[j]); assert(seq![','][0] == ','); if j < 13 { assert(s[j] == x[j]); } else { assert(s[j] == p[j - 13]); } }
    }
    assert forall|q: Seq<char>, l: i32| #[trigger] indexed(s, q, l) implies q == p && l == k by {
        let e = dec(l); axiom_dec(l);
        let cq = 13 + q.len() as int;
        assert(s[cq as int] == ','); assert(s[c as int] == ',');
        if cq < c { assert(s[cq as int] == p[cq - 13]); } if c < cq { assert(s[c as int] == q[c - 13]); }
        assert(q =~= s.subrange(13, cq as int)); assert(e =~= s.subrange(cq + 1, s.len() - 1));
        assert(read_i32(d) == Some(k)); assert(read_i32(e) == Some(l));
    }
}
proof fn lemma_at(s: Seq<char>)
    ensures forall|b: int, i: int, j: int| #![trigger at_byte(s, b, i), at_byte(s, b, j)] at_byte(s, b, i) && at_byte(s, b, j) ==> i == j, at_byte(s, 0, 0), at_byte(s, blen(s) as int, s.len() as int)
{
    assert(s.take(s.len() as int) =~= s);
    assert forall|b: int, i: int, j: int| #![trigger at_byte(s, b, i), at_byte(s, b, j)] at_byte(s, b, i) && at_byte(s, b, j) implies i == j by { lemma_at_byte_unique(s, b, i, j); }
}
proof fn lemma_plain(s: Seq<char>)
    ensures (forall|q: Seq<char>, l: i32| #[trigger] indexed(s, q, l) ==> !plain(s)), vx_prefix(pre(), s) && blen(s) > 13 ==> !plain(s), s.len() >= 13 ==> blen(s) >= 13
{
    assert forall|q: Seq<char>, l: i32| #[trigger] indexed(s, q, l) implies !plain(s) by { lemma_indexed(s, q, l); }
    reveal_strlit("string-index("); assert(pre().len() == 13); lemma_blen_ascii(pre());
    if vx_prefix(pre(), s) { assert(at_byte(s, 13, 13)); }
    if s.len() >= 13 { assert(s.take(0).len() == 0); lemma_blen_mono(s, 0, 13); }
}
// memory: no string is larger than isize::MAX bytes
#[verifier::external_body]
proof fn axiom_str_size(s: &str) ensures blen(s@) <= isize::MAX {}
proof fn lemma_first_unique(p: Seq<char>, s: Seq<char>)
    ensures forall|i: int, j: int| #![trigger first_at(p, s, i), first_at(p, s, j)] first_at(p, s, i) && first_at(p, s, j) ==> i == j, forall|i: int| #[trigger] first_at(p, s, i) ==> !nowhere(p, s)
{
    assert forall|i: int, j: int| #![trigger first_at(p, s, i), first_at(p, s, j)] first_at(p, s, i) && first_at(p, s, j) implies i == j by { assert(found_at(p, s, i)); assert(found_at(p, s, j)); if i < j {} if j < i {} }
    assert forall|i: int| #[trigger] first_at(p, s, i) implies !nowhere(p, s) by { assert(found_at(p, s, i)); }
}
proof fn lemma_cuts(s: Seq<char>, a: Seq<char>, b: Seq<char>)
    requires cuts(s, a, b)
    ensures
        at_byte(s, 0, 0), at_byte(s, 7, 7), s.subrange(0, 7) == "arange("@, blen(s) >= 9, at_byte(s, blen(s) - 1, s.len() - 1), at_byte(s, blen(s) as int, s.len() as int), s.subrange(s.len() - 1, s.len() as int) == ")"@, vx_prefix("arange("@, s), vx_suffix(")"@, s), vx_suffix(seq![')'], s),
        at_byte(s, 6 + blen(a) as int, 6 + a.len() as int), at_byte(s, 7 + blen(a) as int, 7 + a.len() as int), at_byte(s, 8 + blen(a) as int, 8 + a.len() as int), 8 + blen(a) <= blen(s) - 1,
        s.subrange(7, 7 + a.len() as int) == a, s.subrange(8 + a.len() as int, s.len() - 1) == b,
        forall|q: Seq<char>, w: Seq<char>| #[trigger] cuts(s, q, w) ==> q == a && w == b,
{
    reveal_strlit("arange("); reveal_strlit(","); reveal_strlit(")"); reveal_strlit("),"); reveal_strlit("],");
    let x = "arange("@; let y = ","@; let z = ")"@; let l = a.last(); let e = seq![l];
    assert("),"@.len() == 2); assert("],"@.len() == 2); assert("),"@[0] == ')'); assert("],"@[0] == ']');
    let n = 6 + a.len() as int;
    if first_at("),"@, s, n) { assert(found_at("),"@, s, n)); assert(s.subrange(n, n + 2)[0] == s[n]); } else { assert(found_at("],"@, s, n)); assert(s.subrange(n, n + 2)[0] == s[n]); }
    assert(s =~= x + (a + y + b + z)); assert(s[n] == l);
    assert(l == ')' || l == ']');
    assert(e[0] == l); lemma_blen_ascii(e);
    lemma_blen_ascii(x); lemma_blen_ascii(y); lemma_blen_ascii(z);
    let a0 = a.drop_last(); assert(a =~= a0 + e);
    lemma_boundary(a0, e);
    lemma_boundary(x, a + y + b + z);
    assert(s =~= (x + a0) + (e + y + b + z)); lemma_boundary(x + a0, e + y + b + z); lemma_boundary(x, a0);
    assert(s =~= (x + a) + (y + b + z)); lemma_boundary(x + a, y + b + z); lemma_boundary(x, a);
    assert(s =~= (x + a + y) + (b + z)); lemma_boundary(x + a + y, b + z); lemma_boundary(x + a, y);
    assert(s =~= (x + a + y + b) + z); lemma_boundary(x + a + y + b, z); lemma_boundary(x + a + y, b);
    lemma_at(s);
    assert(s.take(7) =~= x); assert(s.skip(s.len() - 1) =~= z); assert(seq![')'] =~= z);
    assert(s.subrange(0, 7) =~= x); assert(s.subrange(s.len() - 1, s.len() as int) =~= z); assert(s.subrange(7, 7 + a.len() as int) =~= a); assert(s.subrange(8 + a.len() as int, s.len() - 1) =~= b);
    assert forall|q: Seq<char>, w: Seq<char>| #[trigger] cuts(s, q, w) implies q == a && w == b by {
        lemma_first_unique("),"@, s); lemma_first_unique("],"@, s);
        let m = 6 + q.len() as int;
        assert(first_at("),"@, s, m) || first_at("],"@, s, m)); assert(m == n);
        assert(s == x + q + y + w + z); assert(q =~= s.subrange(7, 7 + q.len() as int)); assert(w =~= s.subrange(8 + q.len() as int, s.len() - 1));
    }
}
