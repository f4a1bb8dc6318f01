@verbatim
// ---------- C23: characters of text nodes and where they come from ----------
spec fn strict(o: Seq<i32>) -> bool { forall|i: int, j: int| #![trigger o[i], o[j]] 0 <= i < j < o.len() ==> o[i] < o[j] }
spec fn exact(p: DNMParameters) -> bool { consistent(p) && p.support_back_mapping && !p.normalize_unicode && !p.convert_to_lowercase }
proof fn lemma_norm_strict(s: Seq<char>, o: Seq<i32>, ws: bool, k: int)
    requires s.len() == o.len(), 0 <= k <= s.len(), strict(o)
    ensures strict(norm_offs(s, o, ws, k)), forall|j: int| 0 <= j < norm_offs(s, o, ws, k).len() ==> exists|i: int| 0 <= i < k && o[i] == #[trigger] norm_offs(s, o, ws, k)[j]
    decreases k
{
    if k > 0 {
        lemma_norm_strict(s, o, ws, k - 1); let a = norm_offs(s, o, ws, k - 1); let b = norm_offs(s, o, ws, k);
        assert forall|j: int| 0 <= j < b.len() implies exists|i: int| 0 <= i < k && o[i] == #[trigger] b[j] by { if j < a.len() { let i = choose|i: int| 0 <= i < k - 1 && o[i] == a[j]; assert(o[i] == b[j]); } else { assert(o[k - 1] == b[j]); } }
        assert forall|i: int, j: int| #![trigger b[i], b[j]] 0 <= i < j < b.len() implies b[i] < b[j] by {
            if j < a.len() { assert(a[i] < a[j]); } else if i < a.len() { let q = choose|q: int| 0 <= q < k - 1 && o[q] == a[i]; assert(o[q] < o[k - 1]); }
        }
    }
}
proof fn lemma_offs_strict(p: DNMParameters, n: RoNode, ws: bool)
    requires exact(p)
    ensures strict(text_offs(p, n, ws)), forall|j: int| 0 <= j < text_offs(p, n, ws).len() ==> 0 <= #[trigger] text_offs(p, n, ws)[j] < n.content().len(), text_offs(p, n, ws).len() == text_chars(p, n, ws).len()
{
    let s = n.content(); axiom_content_size(n); lemma_text_len(p, n, ws); lemma_offsets_sorted(p, n, ws);
    let o = prep_offs(p, s); assert(o == iota(s.len())); assert(strict(o));
    if p.normalize_white_spaces { lemma_norm_strict(prep_chars(p, s), o, ws, s.len() as int); }
}
// the run of a text node: its own characters, in order
spec fn run(m: Map<usize, (usize, usize)>, back: Seq<(RoNode, i32)>, x: RoNode) -> bool {
    has(m, x) && rg(m, x).1 <= back.len()
    && (forall|j: int| rg(m, x).0 <= j < rg(m, x).1 ==> (#[trigger] back[j]).0 == x && 0 <= back[j].1 < x.content().len())
    && (forall|j: int, k: int| #![trigger back[j], back[k]] rg(m, x).0 <= j < k < rg(m, x).1 ==> back[j].1 < back[k].1)
}
spec fn source_at(p: DNMParameters, n: RoNode, t: St, i: int) -> bool { let x = t.back[i].0; visited(p, n, x) && -1 <= t.back[i].1 && (t.back[i].1 >= 0 ==> x.is_text() && rg(t.map, x).0 <= i < rg(t.map, x).1) }
spec fn sources(p: DNMParameters, n: RoNode, s: St, t: St) -> bool {
    &&& s.back.len() <= t.back.len() && t.back.take(s.back.len() as int) == s.back
    &&& forall|x: RoNode| #[trigger] visited(p, n, x) && x.is_text() ==> run(t.map, t.back, x)
    &&& forall|i: int| s.back.len() <= i < t.back.len() ==> #[trigger] source_at(p, n, t, i)
}
spec fn source_kid(p: DNMParameters, n: RoNode, k: nat, t: St, i: int) -> bool { let x = t.back[i].0; (exists|q: int| 0 <= q < k && #[trigger] visited(p, n.kids()[q], x)) && -1 <= t.back[i].1 && (t.back[i].1 >= 0 ==> x.is_text() && rg(t.map, x).0 <= i < rg(t.map, x).1) }
spec fn sources_kids(p: DNMParameters, n: RoNode, k: nat, s: St, t: St) -> bool {
    &&& s.back.len() <= t.back.len() && t.back.take(s.back.len() as int) == s.back
    &&& forall|i: int, x: RoNode| #![trigger visited(p, n.kids()[i], x)] 0 <= i < k && visited(p, n.kids()[i], x) && x.is_text() ==> run(t.map, t.back, x)
    &&& forall|i: int| s.back.len() <= i < t.back.len() ==> #[trigger] source_kid(p, n, k, t, i)
}
// a run depends on the entry of its node and on the positions up to its end
proof fn lemma_run_same(a: St, b: St, x: RoNode)
    requires run(a.map, a.back, x), has(b.map, x), rg(b.map, x) == rg(a.map, x), a.back.len() <= b.back.len(), b.back.take(a.back.len() as int) == a.back
    ensures run(b.map, b.back, x)
{
    assert forall|j: int| 0 <= j < a.back.len() implies #[trigger] b.back[j] == a.back[j] by { assert(b.back.take(a.back.len() as int)[j] == b.back[j]); }
}
proof fn lemma_leaf(p: DNMParameters, n: RoNode)
    requires !entered(p, n)
    ensures visited(p, n, n), forall|x: RoNode| #[trigger] visited(p, n, x) ==> x == n
{ assert forall|x: RoNode| #[trigger] visited(p, n, x) implies x == n by { if x != n { let i = lemma_visited_down(p, n, x); } } }
proof fn lemma_sources(p: DNMParameters, n: RoNode, s: St)
    requires exact(p), aligned(p, s), visit(p, n, s).chars.len() <= usize::MAX
    ensures sources(p, n, s, visit(p, n, s))
    decreases n.height(), 1nat, 0nat
{
    let t = visit(p, n, s); n.axiom_tree(); lemma_aligned(p, n, s); lemma_recorded(p, n, s);
    if n.is_text() {
        lemma_leaf(p, n); lemma_offs_strict(p, n, s.ws);
        assert(t.back =~= s.back + text_back(p, n, s.ws)); assert(t.back.take(s.back.len() as int) =~= s.back);
        let m = s.back.len(); let o = text_offs(p, n, s.ws);
        assert(rg(t.map, n) == (m as usize, t.back.len() as usize));
        assert forall|j: int| m <= j < t.back.len() implies #[trigger] t.back[j] == (n, o[j - m]) by {}
        assert forall|i: int| m <= i < t.back.len() implies #[trigger] source_at(p, n, t, i) by { assert(t.back[i] == (n, o[i - m])); }
        assert(run(t.map, t.back, n)) by {
            assert forall|j: int, k: int| #![trigger t.back[j], t.back[k]] m <= j < k < t.back.len() implies t.back[j].1 < t.back[k].1 by { assert(o[j - m] < o[k - m]); }
        }
    } else if entered(p, n) {
        let u = visit_kids(p, n, n.kids().len(), s); lemma_sources_kids(p, n, n.kids().len(), s); lemma_aligned_kids(p, n, n.kids().len(), s); lemma_recorded_kids(p, n, n.kids().len(), s);
        assert(t.back == u.back);
        assert forall|x: RoNode| #[trigger] visited(p, n, x) && x.is_text() implies run(t.map, t.back, x) by { let i = lemma_visited_down(p, n, x); RoNode::axiom_hash(x, n); assert(run(u.map, u.back, x)); assert(u.back.take(u.back.len() as int) =~= u.back); lemma_run_same(u, t, x); }
        assert forall|i: int| s.back.len() <= i < t.back.len() implies #[trigger] source_at(p, n, t, i) by {
            assert(source_kid(p, n, n.kids().len(), u, i)); let x = u.back[i].0; let q = choose|q: int| 0 <= q < n.kids().len() && #[trigger] visited(p, n.kids()[q], x);
            lemma_visited_up(p, n, q, x); RoNode::axiom_hash(x, n);
        }
    } else {
        lemma_leaf(p, n);
        assert(t.back.take(s.back.len() as int) =~= s.back);
        assert forall|i: int| s.back.len() <= i < t.back.len() implies #[trigger] source_at(p, n, t, i) by { assert(t.back[i] == (n, -1i32)); }
    }
}
proof fn lemma_sources_kids(p: DNMParameters, n: RoNode, k: nat, s: St)
    requires exact(p), aligned(p, s), k <= n.kids().len(), entered(p, n), visit_kids(p, n, k, s).chars.len() <= usize::MAX
    ensures sources_kids(p, n, k, s, visit_kids(p, n, k, s))
    decreases n.height(), 0nat, k
{
    n.axiom_tree(); let ks = n.kids(); let t = visit_kids(p, n, k, s);
    if k == 0 { assert(t.back.take(s.back.len() as int) =~= s.back); } else {
        let u = visit_kids(p, n, (k - 1) as nat, s); let c = ks[k - 1];
        assert(t == visit(p, c, u));
        lemma_longer(p, c, u); lemma_aligned_kids(p, n, (k - 1) as nat, s);
        lemma_sources_kids(p, n, (k - 1) as nat, s); lemma_sources(p, c, u);
        lemma_recorded_kids(p, n, (k - 1) as nat, s); lemma_recorded(p, c, u);
        assert(t.back.take(s.back.len() as int) =~= t.back.take(u.back.len() as int).take(s.back.len() as int));
        assert forall|i: int, x: RoNode| #![trigger visited(p, ks[i], x)] 0 <= i < k - 1 && visited(p, ks[i], x) implies has(t.map, x) && rg(t.map, x) == rg(u.map, x) by {
            assert(tiled(p, u.map, x)); assert forall|y: RoNode| #[trigger] visited(p, c, y) implies y.hash() != x.hash() by { lemma_disjoint(p, n, i, k - 1, x, y); }
        }
        assert forall|i: int, x: RoNode| #![trigger visited(p, ks[i], x)] 0 <= i < k && visited(p, ks[i], x) && x.is_text() implies run(t.map, t.back, x) by {
            if i < k - 1 { assert(run(u.map, u.back, x)); lemma_run_same(u, t, x); }
        }
        assert forall|i: int| s.back.len() <= i < t.back.len() implies #[trigger] source_kid(p, n, k, t, i) by {
            if i < u.back.len() {
                assert(source_kid(p, n, (k - 1) as nat, u, i)); assert(t.back.take(u.back.len() as int)[i] == t.back[i]);
                let x = u.back[i].0; let q = choose|q: int| 0 <= q < k - 1 && #[trigger] visited(p, ks[q], x); assert(visited(p, ks[q], x));
            } else { assert(source_at(p, c, t, i)); assert(visited(p, ks[k - 1], t.back[i].0)); }
        }
    }
}
proof fn lemma_visited_under(p: DNMParameters, r: RoNode, x: RoNode)
    requires visited(p, r, x) ensures under(r, x) decreases x.depth()
{ if x != r { lemma_visited_under(p, r, x.up()->0); } }
// every model built without transliteration or lowercasing knows its sources
proof fn lemma_sourced(d: DNM)
    requires exact(d.parameters), d.st() == visit(d.parameters, d.root_node, St { chars: Seq::empty(), back: Seq::empty(), ws: d.parameters.normalize_white_spaces, map: Map::empty() }), d.st().chars.len() <= usize::MAX
    ensures sourced(d)
{
    let p = d.parameters; let s = St { chars: Seq::<char>::empty(), back: Seq::empty(), ws: p.normalize_white_spaces, map: Map::empty() };
    lemma_sources(p, d.root_node, s); lemma_recorded(p, d.root_node, s); let t = d.st();
    assert forall|i: int| 0 <= i < d.back_map@.len() implies #[trigger] source(d, i) by {
        assert(source_at(p, d.root_node, t, i)); let x = t.back[i].0; lemma_visited_under(p, d.root_node, x); axiom_content_size(x);
        if d.back_map@[i].1 >= 0 { assert(run(t.map, t.back, x)); }
    }
}
fn theorem_sourced(root_node: RoNode, parameters: DNMParameters) -> (r: DNM)
    requires exact(parameters)
    ensures sourced(r)
{
    let r = DNM::new(root_node, parameters);
    proof { axiom_string_size(&r.plaintext); lemma_sourced(r); }
    r
}
