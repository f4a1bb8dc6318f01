@include prelude.inc
@include hashmap.inc
@include eq.inc
@include text.inc
@include node.inc
@include dnmtypes.inc
@method trim_end => vx_trim_end
@method is_whitespace => vx_is_whitespace
@method to_string => vx_to_string
@method into => vx_into
@method chars => vx_chars
@method rev => vx_rev
@method len => vx_len
@method find => vx_find
@method parse => vx_parse
@include xptrspec.inc
@include ptrspec.inc
@contracts noderange.inc
@contracts xptrfns.inc
@src src/dnm/range.rs
@fn DNMRange::xpointer_to_offset
@props C23
@opt eq-call
@ret r
@contract
    requires readable(*xpath_context, *dnm, string@)
    ensures places(*xpath_context, *dnm, string@, r)
@closure 0 || -> (vx_r: usize) requires false
@closure 1 |_vx: ()| -> (vx_r: VxObject) requires false
@attr #[verifier::loop_isolation(false)]
@at entry
    let ghost c = *xpath_context; let ghost d = *dnm;
    proof {
        reveal_strlit("string-index("); lemma_blen_ascii("string-index("@);
        if exists|p: Seq<char>, k: i32| #[trigger] indexed(string@, p, k) && one(c, p) && node_readable(d, selected(c, p)[0]) {
            let (p, k) = choose|p: Seq<char>, k: i32| #[trigger] indexed(string@, p, k) && one(c, p) && node_readable(d, selected(c, p)[0]);
            lemma_indexed(string@, p, k);
        }
        lemma_at(string@); lemma_plain(string@); axiom_str_size(string);
    }
@at loop 0 inv
    invariant range.start <= pos, reach(d, pos as int, range.end as int, offset as int) == reach(d, range.start as int, range.end as int, offset as int), range.end <= d.back_map@.len(), d == *dnm,
    decreases range.end - pos
@fn DNMRange::deserialize
@props C23
@opt eq-call
@ret r
@contract
    requires exists|a: Seq<char>, b: Seq<char>| #[trigger] cuts(string@, a, b) && readable(*xpath_context, *dnm, a) && readable(*xpath_context, *dnm, b),
    ensures r.dnm == dnm, forall|a: Seq<char>, b: Seq<char>| #[trigger] cuts(string@, a, b) ==> places(*xpath_context, *dnm, a, r.start) && places(*xpath_context, *dnm, b, r.end),
@closure 0 || -> (vx_r: usize) requires !nowhere("],"@, string@) ensures exists|i: int| #[trigger] first_at("],"@, string@, i) && at_byte(string@, vx_r as int, i)
@closure 1 || -> (vx_r: usize) requires false
@at entry
    let ghost s = string@; let ghost c = *xpath_context; let ghost d = *dnm;
    let ghost (a, b) = choose|a: Seq<char>, b: Seq<char>| #[trigger] cuts(s, a, b) && readable(c, d, a) && readable(c, d, b);
    proof { lemma_cuts(s, a, b); lemma_at(s); lemma_first_unique("),"@, s); lemma_first_unique("],"@, s); assert(string.cs() == s); axiom_str_size(string); }
@verbatim
// ---------- C23: the round trip ----------
// text nodes have no attributes (xmlGetProp answers NULL)
#[verifier::external_body]
proof fn axiom_text_props(n: RoNode) ensures n.is_text() ==> forall|k: Seq<char>| (#[trigger] n.prop(k)) is None {}
// XPath finds each text node of the document by its path, and the ids have no commas
spec fn findable(c: Context, d: DNM) -> bool {
    forall|n: RoNode| n.is_text() && under(d.root_node, n) ==> one(c, #[trigger] path(d.root_node, n)) && selected(c, path(d.root_node, n))[0] == n && !path(d.root_node, n).contains(',')
}
proof fn lemma_reach(d: DNM, a: int, i: int, b: int, off: int)
    requires a <= i <= b, forall|j: int| a <= j < i ==> (#[trigger] d.back_map@[j]).1 < off, i == b || d.back_map@[i].1 >= off
    ensures reach(d, a, b, off) == i
    decreases i - a
{ if a < i { assert(d.back_map@[a].1 < off); lemma_reach(d, a + 1, i, b, off); } }
spec fn in_text(d: DNM, i: int) -> bool { if i < d.back_map@.len() { d.back_map@[i].1 >= 0 } else { d.back_map@.last().1 >= 0 } }
// one end: it can be read, and it says where it came from
proof fn lemma_end(c: Context, d: DNM, i: usize, is_end: bool, a: Seq<char>)
    requires sourced(d), findable(c, d), !d.root_node.is_text(), 0 < d.back_map@.len(), i <= d.back_map@.len(), in_text(d, i as int), a == pointer(d.root_node, position(d, i as int).0, position(d, i as int).1, is_end)
    ensures readable(c, d, a), forall|r: usize| #[trigger] places(c, d, a, r) ==> r == i, a.last() == ')', a.len() > 0, exists|p: Seq<char>, k: i32| #[trigger] indexed(a, p, k) && p.len() > 0 && p.last() == ']',
{
    let n = d.back_map@.len() as int; let (x, o) = position(d, i as int); let g = d.node_map@[x.hash()];
    assert(source(d, if i < n { i as int } else { n - 1 }));
    axiom_text_props(x); let p = path(d.root_node, x); let k = (o + 1) as i32;
    assert(x.is_text() && under(d.root_node, x));
    x.axiom_tree();
    assert(p == child_path(path(d.root_node, x.up()->0), x));
    reveal_strlit("]"); assert("]"@.len() == 1 && "]"@[0] == ']'); assert(p.last() == ']');
    assert(a == pre() + p + ","@ + dec(k) + ")"@);
    assert(indexed(a, p, k)); lemma_indexed(a, p, k); lemma_plain(a);
    if i < n {
        assert forall|j: int| g.0 <= j < i implies (#[trigger] d.back_map@[j]).1 < o by { assert(d.back_map@[j].1 < d.back_map@[i as int].1); }
    } else {
        assert forall|j: int| g.0 <= j < i implies (#[trigger] d.back_map@[j]).1 < o by { if j < n - 1 { assert(d.back_map@[j].1 < d.back_map@[n - 1].1); } }
    }
    lemma_reach(d, g.0 as int, i as int, g.1 as int, o as int);
    assert(recorded_above(d.node_map@, x));
    assert forall|r: usize| #[trigger] places(c, d, a, r) implies r == i by { assert(r == text_place(d, selected(c, p)[0], k - 1)); }
}
// two indexed pointers: the comma after the first is where the pair is cut
proof fn lemma_pair(a: Seq<char>, b: Seq<char>, p: Seq<char>, k: i32)
    requires indexed(a, p, k), p.len() > 0, p.last() == ']'
    ensures cuts(arange(a, b), a, b)
{
    let s = arange(a, b); lemma_indexed(a, p, k); axiom_dec(k);
    reveal_strlit("arange("); reveal_strlit(","); reveal_strlit(")"); reveal_strlit("),"); reveal_strlit("string-index(");
    let x = "arange("@; let y = ","@; let z = ")"@; let w = "),"@; let h = pre(); let d = dec(k);
    assert(w.len() == 2 && w[0] == ')' && w[1] == ','); assert(x.len() == 7 && h.len() == 13);
    let n = 6 + a.len() as int;
    assert(s[n] == a.last()); assert(s[n + 1] == y[0]);
    assert(s.subrange(n, n + 2) =~= w);
    assert(a =~= h + p + y + d + z);
    assert forall|j: int| 0 <= j < n implies !#[trigger] found_at(w, s, j) by {
        if found_at(w, s, j) {
            assert(s.subrange(j, j + 2)[0] == s[j] && s.subrange(j, j + 2)[1] == s[j + 1]);
            let q = j + 1;
            if q < 7 { assert(s[q] == x[q]); }
            else if q < 20 { assert(s[q] == h[q - 7]); }
            else if q < 20 + p.len() { assert(s[q] == p[q - 20]); }
            else if q == 20 + p.len() { assert(s[j] == p.last()); }
            else if q < 21 + p.len() + d.len() { assert(s[q] == d[q - 21 - p.len()]); }
            else { assert(s[q] == z[0]); }
        }
    }
}
// deserialising the pointer of a range inside the text gives the same range back
fn theorem_round_trip<'dnmrange>(r: &DNMRange<'dnmrange>, c: &Context) -> (q: DNMRange<'dnmrange>)
    requires
        sourced(*r.dnm), r.dnm.parameters.support_back_mapping, r.start < r.end <= r.dnm.back_map@.len(), in_text(*r.dnm, r.start as int), in_text(*r.dnm, r.end as int),
        last_sibling(r.dnm.root_node), !r.dnm.root_node.is_text(), findable(*c, *r.dnm),
    ensures q.dnm == r.dnm, q.start == r.start, q.end == r.end,
{
    let ghost d = *r.dnm;
    proof { assert forall|i: int| 0 <= i < d.back_map@.len() implies under(d.root_node, (#[trigger] d.back_map@[i]).0) && d.back_map@[i].1 < i32::MAX - 1 by { assert(source(d, i)); } }
    let s = r.serialize();
    let ghost a = pointer(d.root_node, position(d, r.start as int).0, position(d, r.start as int).1, false);
    let ghost b = pointer(d.root_node, position(d, r.end as int).0, position(d, r.end as int).1, true);
    proof {
        lemma_end(*c, d, r.start, false, a); lemma_end(*c, d, r.end, true, b);
        let (p, k) = choose|p: Seq<char>, k: i32| #[trigger] indexed(a, p, k) && p.len() > 0 && p.last() == ']';
        lemma_pair(a, b, p, k);
    }
    let q = DNMRange::deserialize(s.as_str(), r.dnm, c);
    proof { assert(places(*c, d, a, q.start)); assert(places(*c, d, b, q.end)); }
    q
}
