@verbatim
// ---------- C01: the back map has one entry per character, or none ----------
spec fn aligned(p: DNMParameters, s: St) -> bool { if p.support_back_mapping { s.back.len() == s.chars.len() } else { s.back.len() == 0 } }
proof fn lemma_aligned(p: DNMParameters, n: RoNode, s: St)
    requires consistent(p), aligned(p, s) ensures aligned(p, visit(p, n, s)), visit(p, n, s).chars.len() >= s.chars.len()
    decreases n.height(), 1nat, 0nat
{
    if n.is_text() { if p.support_back_mapping { lemma_text_len(p, n, s.ws); } }
    else { match policy(p, n) { Pol::Enter => lemma_aligned_kids(p, n, n.kids().len(), s), _ => {} } }
}
proof fn lemma_aligned_kids(p: DNMParameters, n: RoNode, k: nat, s: St)
    requires consistent(p), aligned(p, s), k <= n.kids().len() ensures aligned(p, visit_kids(p, n, k, s)), visit_kids(p, n, k, s).chars.len() >= s.chars.len()
    decreases n.height(), 0nat, k
{ n.axiom_tree(); if k > 0 { lemma_aligned_kids(p, n, (k - 1) as nat, s); lemma_aligned(p, n.kids()[k - 1], visit_kids(p, n, (k - 1) as nat, s)); } }

proof fn lemma_visited_anc(p: DNMParameters, r: RoNode, x: RoNode)
    requires visited(p, r, x) ensures anc(x, r.depth()) == r, x.depth() >= r.depth()
    decreases x.depth()
{ if x != r { x.axiom_tree(); let u = x.up()->0; lemma_visited_anc(p, r, u); } }
// visited from n: n itself, or visited from one of its children when it is entered
proof fn lemma_visited_up(p: DNMParameters, n: RoNode, i: int, x: RoNode)
    requires 0 <= i < n.kids().len(), entered(p, n), visited(p, n.kids()[i], x) ensures visited(p, n, x), x != n
    decreases x.depth()
{
    n.axiom_tree(); let c = n.kids()[i]; c.axiom_tree(); lemma_visited_anc(p, c, x);
    if x == c { assert(visited(p, n, n)); } else { x.axiom_tree(); let u = x.up()->0; lemma_visited_up(p, n, i, u); }
}
proof fn lemma_visited_down(p: DNMParameters, n: RoNode, x: RoNode) -> (i: int)
    requires visited(p, n, x), x != n ensures 0 <= i < n.kids().len(), entered(p, n), visited(p, n.kids()[i], x)
    decreases x.depth()
{
    x.axiom_tree(); n.axiom_tree();
    let u = x.up()->0;
    if u == n { assert(visited(p, x, x)); x.pos() } else { let i = lemma_visited_down(p, n, u); lemma_visited_anc(p, n.kids()[i], u); i }
}
proof fn lemma_disjoint(p: DNMParameters, n: RoNode, i: int, j: int, x: RoNode, y: RoNode)
    requires 0 <= i < n.kids().len(), 0 <= j < n.kids().len(), i != j, visited(p, n.kids()[i], x), visited(p, n.kids()[j], y) ensures x.hash() != y.hash()
{ n.axiom_tree(); lemma_visited_anc(p, n.kids()[i], x); lemma_visited_anc(p, n.kids()[j], y); RoNode::axiom_hash(x, y); RoNode::axiom_hash(n.kids()[i], n.kids()[j]); assert(n.kids()[i].pos() == i && n.kids()[j].pos() == j); }
spec fn recorded_kids(p: DNMParameters, n: RoNode, k: nat, s: St, t: St) -> bool {
    let ks = n.kids();
    &&& s.chars.len() <= t.chars.len()
    &&& forall|i: int| 0 <= i < k ==> has(t.map, #[trigger] ks[i])
    &&& k == 0 ==> t.chars.len() == s.chars.len()
    &&& k > 0 ==> rg(t.map, ks[0]).0 == s.chars.len() && rg(t.map, ks[k - 1]).1 == t.chars.len()
    &&& forall|i: int, j: int| #![trigger ks[i], ks[j]] 0 <= i && j == i + 1 && j < k ==> rg(t.map, ks[i]).1 == rg(t.map, ks[j]).0
    &&& forall|i: int, x: RoNode| #![trigger visited(p, ks[i], x)] 0 <= i < k && visited(p, ks[i], x) ==> tiled(p, t.map, x) && s.chars.len() <= rg(t.map, x).0 && rg(t.map, x).1 <= t.chars.len()
    &&& forall|h: usize| #[trigger] t.map.dom().contains(h) ==> s.map.dom().contains(h) || exists|i: int, x: RoNode| 0 <= i < k && #[trigger] visited(p, ks[i], x) && x.hash() == h
    &&& forall|h: usize| #[trigger] s.map.dom().contains(h) ==> t.map.dom().contains(h)
    &&& forall|h: usize| (forall|i: int, x: RoNode| 0 <= i < k && #[trigger] visited(p, ks[i], x) ==> x.hash() != h) && s.map.dom().contains(h) ==> #[trigger] t.map[h] == s.map[h]
}
// tiled(x) only depends on the entries of x and of its children
proof fn lemma_tiled_same(p: DNMParameters, a: Map<usize, (usize, usize)>, b: Map<usize, (usize, usize)>, x: RoNode)
    requires tiled(p, a, x), has(b, x), rg(b, x) == rg(a, x), entered(p, x) ==> forall|i: int| 0 <= i < x.kids().len() ==> has(b, #[trigger] x.kids()[i]) && rg(b, x.kids()[i]) == rg(a, x.kids()[i])
    ensures tiled(p, b, x)
{}
proof fn lemma_recorded(p: DNMParameters, n: RoNode, s: St)
    requires consistent(p), visit(p, n, s).chars.len() <= usize::MAX
    ensures recorded(p, n, s, visit(p, n, s))
    decreases n.height(), 1nat, 0nat
{
    let t = visit(p, n, s); n.axiom_tree();
    if entered(p, n) {
        let u = visit_kids(p, n, n.kids().len(), s);
        lemma_recorded_kids(p, n, n.kids().len(), s);
        assert forall|x: RoNode| #[trigger] visited(p, n, x) implies tiled(p, t.map, x) && s.chars.len() <= rg(t.map, x).0 && rg(t.map, x).1 <= t.chars.len() by {
            if x != n {
                let i = lemma_visited_down(p, n, x); RoNode::axiom_hash(x, n);
                assert(tiled(p, u.map, x));
                assert forall|j: int| 0 <= j < x.kids().len() && entered(p, x) implies has(t.map, #[trigger] x.kids()[j]) && rg(t.map, x.kids()[j]) == rg(u.map, x.kids()[j]) by {
                    let c = x.kids()[j]; x.axiom_tree(); RoNode::axiom_hash(c, n); lemma_visited_anc(p, n, x);
                }
                lemma_tiled_same(p, u.map, t.map, x);
            } else {
                assert forall|j: int| 0 <= j < n.kids().len() implies has(t.map, #[trigger] n.kids()[j]) && rg(t.map, n.kids()[j]) == rg(u.map, n.kids()[j]) by { RoNode::axiom_hash(n.kids()[j], n); }
            }
        }
        assert forall|h: usize| #[trigger] t.map.dom().contains(h) implies s.map.dom().contains(h) || exists|x: RoNode| #[trigger] visited(p, n, x) && x.hash() == h by {
            if h == n.hash() { assert(visited(p, n, n)); } else if !s.map.dom().contains(h) {
                assert(u.map.dom().contains(h));
                let (i, x) = choose|i: int, x: RoNode| 0 <= i < n.kids().len() && #[trigger] visited(p, n.kids()[i], x) && x.hash() == h;
                lemma_visited_up(p, n, i, x); 
            }
        }
        assert forall|h: usize| (forall|x: RoNode| #[trigger] visited(p, n, x) ==> x.hash() != h) && s.map.dom().contains(h) implies #[trigger] t.map[h] == s.map[h] by {
            assert(visited(p, n, n));
            assert forall|i: int, x: RoNode| 0 <= i < n.kids().len() && #[trigger] visited(p, n.kids()[i], x) implies x.hash() != h by { lemma_visited_up(p, n, i, x); }
            assert(u.map[h] == s.map[h]);
        }
    } else {
        if n.is_text() { } 
        assert(visited(p, n, n));
        assert forall|x: RoNode| #[trigger] visited(p, n, x) implies x == n by { if x != n { let i = lemma_visited_down(p, n, x); } }
        if n.is_text() { assert(t.map == s.map.insert(n.hash(), (s.chars.len() as usize, t.chars.len() as usize))); }
        else { assert(t.map == s.map.insert(n.hash(), (s.chars.len() as usize, t.chars.len() as usize))); }
    }
}
proof fn lemma_recorded_kids(p: DNMParameters, n: RoNode, k: nat, s: St)
    requires consistent(p), k <= n.kids().len(), entered(p, n), visit_kids(p, n, k, s).chars.len() <= usize::MAX
    ensures recorded_kids(p, n, k, s, visit_kids(p, n, k, s))
    decreases n.height(), 0nat, k
{
    n.axiom_tree(); let ks = n.kids();
    if k > 0 {
        let u = visit_kids(p, n, (k - 1) as nat, s); let c = ks[k - 1]; let t = visit(p, c, u);
        assert(t == visit_kids(p, n, k, s));
        lemma_longer(p, c, u);
        lemma_recorded_kids(p, n, (k - 1) as nat, s);
        lemma_recorded(p, c, u);
        // entries of the earlier children stay
        assert forall|i: int, x: RoNode| #![trigger visited(p, ks[i], x)] 0 <= i < k - 1 && visited(p, ks[i], x) implies has(t.map, x) && rg(t.map, x) == rg(u.map, x) by {
            assert(tiled(p, u.map, x));
            assert forall|y: RoNode| #[trigger] visited(p, c, y) implies y.hash() != x.hash() by { lemma_disjoint(p, n, i, k - 1, x, y); }
        }
        assert forall|i: int| 0 <= i < k - 1 implies has(t.map, #[trigger] ks[i]) && rg(t.map, ks[i]) == rg(u.map, ks[i]) by { assert(visited(p, ks[i], ks[i])); }
        assert forall|i: int, x: RoNode| #![trigger visited(p, ks[i], x)] 0 <= i < k && visited(p, ks[i], x) implies tiled(p, t.map, x) && s.chars.len() <= rg(t.map, x).0 && rg(t.map, x).1 <= t.chars.len() by {
            if i < k - 1 {
                assert(tiled(p, u.map, x));
                assert forall|j: int| 0 <= j < x.kids().len() && entered(p, x) implies has(t.map, #[trigger] x.kids()[j]) && rg(t.map, x.kids()[j]) == rg(u.map, x.kids()[j]) by {
                    x.axiom_tree(); lemma_visited_anc(p, ks[i], x); assert(visited(p, ks[i], x.kids()[j]));
                }
                lemma_tiled_same(p, u.map, t.map, x);
            }
        }
        assert forall|h: usize| #[trigger] t.map.dom().contains(h) implies s.map.dom().contains(h) || exists|i: int, x: RoNode| 0 <= i < k && #[trigger] visited(p, ks[i], x) && x.hash() == h by {
            if u.map.dom().contains(h) { if !s.map.dom().contains(h) { let (i, x) = choose|i: int, x: RoNode| 0 <= i < k - 1 && #[trigger] visited(p, ks[i], x) && x.hash() == h; assert(visited(p, ks[i], x)); } }
            else { let x = choose|x: RoNode| #[trigger] visited(p, c, x) && x.hash() == h; assert(visited(p, ks[k - 1], x)); }
        }
        assert forall|h: usize| (forall|i: int, x: RoNode| 0 <= i < k && #[trigger] visited(p, ks[i], x) ==> x.hash() != h) && s.map.dom().contains(h) implies #[trigger] t.map[h] == s.map[h] by {
            assert forall|x: RoNode| #[trigger] visited(p, c, x) implies x.hash() != h by { assert(visited(p, ks[k - 1], x)); }
            assert(u.map[h] == s.map[h]);
        }
    }
}
proof fn lemma_longer(p: DNMParameters, n: RoNode, s: St)
    ensures visit(p, n, s).chars.len() >= s.chars.len()
    decreases n.height(), 1nat, 0nat
{ if entered(p, n) { lemma_longer_kids(p, n, n.kids().len(), s); } }
proof fn lemma_longer_kids(p: DNMParameters, n: RoNode, k: nat, s: St)
    ensures visit_kids(p, n, k, s).chars.len() >= s.chars.len()
    decreases n.height(), 0nat, k
{ if k > 0 && k <= n.kids().len() { let c = n.kids()[k - 1]; if c.height() < n.height() { lemma_longer(p, c, visit_kids(p, n, (k - 1) as nat, s)); lemma_longer_kids(p, n, (k - 1) as nat, s); } } }

// ---------- C03: what normalising whitespace does ----------
spec fn non_ws(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 { s } else if is_ws(s.last()) { non_ws(s.drop_last()) } else { non_ws(s.drop_last()).push(s.last()) } }
proof fn lemma_norm(s: Seq<char>, ws: bool, k: int)
    requires 0 <= k <= s.len(), is_ws(' ')
    ensures
        // every other character stays, in order
        non_ws(norm_chars(s, ws, k)) == non_ws(s.take(k)),
        // the only whitespace left is single spaces, none directly after the preceding whitespace
        forall|i: int| 0 <= i < norm_chars(s, ws, k).len() && is_ws(#[trigger] norm_chars(s, ws, k)[i]) ==> norm_chars(s, ws, k)[i] == ' ' && !(if i == 0 { ws } else { is_ws(norm_chars(s, ws, k)[i - 1]) }),
        // it ends in whitespace exactly when the text does
        k > 0 ==> (if norm_chars(s, ws, k).len() == 0 { ws && is_ws(s[k - 1]) } else { is_ws(norm_chars(s, ws, k).last()) == is_ws(s[k - 1]) }),
    decreases k
{
    if k > 0 {
        lemma_norm(s, ws, k - 1);
        let a = norm_chars(s, ws, k - 1); let b = norm_chars(s, ws, k); let c = if is_ws(s[k - 1]) { ' ' } else { s[k - 1] };
        assert(s.take(k).drop_last() =~= s.take(k - 1));
        if keep(s, ws, k - 1) {
            assert(b.drop_last() =~= a);
            assert forall|i: int| 0 <= i < b.len() && is_ws(#[trigger] b[i]) implies b[i] == ' ' && !(if i == 0 { ws } else { is_ws(b[i - 1]) }) by { if i < a.len() { assert(b[i] == a[i]); if i > 0 { assert(b[i - 1] == a[i - 1]); } } else { if i > 0 { assert(b[i - 1] == a.last()); } } }
        }
    }
}
// ---------- C04: recorded offsets name the source character ----------
// entry j of an expansion comes from character k of the source
spec fn from_char(s: Seq<char>, o: Seq<i32>, f: spec_fn(char) -> Seq<char>, j: int, k: int) -> bool { 0 <= k < s.len() && spread_offs(s, o, f)[j] == o[k] && f(s[k]).contains(spread_chars(s, f)[j]) }
proof fn lemma_spread_source(s: Seq<char>, o: Seq<i32>, f: spec_fn(char) -> Seq<char>, j: int)
    requires s.len() == o.len(), 0 <= j < spread_offs(s, o, f).len()
    ensures exists|k: int| from_char(s, o, f, j, k)
    decreases s.len()
{
    lemma_spread_len(s, o, f);
    if s.len() > 0 {
        let s1 = s.drop_last(); let o1 = o.drop_last(); lemma_spread_len(s1, o1, f);
        let m = spread_offs(s1, o1, f).len();
        if j < m { lemma_spread_source(s1, o1, f, j); let k = choose|k: int| from_char(s1, o1, f, j, k); assert(from_char(s, o, f, j, k)); }
        else { assert(f(s.last())[j - m] == spread_chars(s, f)[j]); assert(from_char(s, o, f, j, s.len() - 1)); }
    }
}
spec fn sorted(o: Seq<i32>) -> bool { forall|i: int, j: int| #![trigger o[i], o[j]] 0 <= i <= j < o.len() ==> o[i] <= o[j] }
proof fn lemma_spread_sorted(s: Seq<char>, o: Seq<i32>, f: spec_fn(char) -> Seq<char>)
    requires s.len() == o.len(), sorted(o)
    ensures sorted(spread_offs(s, o, f)), forall|j: int| 0 <= j < spread_offs(s, o, f).len() ==> o.contains(#[trigger] spread_offs(s, o, f)[j])
    decreases s.len()
{
    if s.len() > 0 {
        let s1 = s.drop_last(); let o1 = o.drop_last();
        assert forall|i: int, j: int| #![trigger o1[i], o1[j]] 0 <= i <= j < o1.len() implies o1[i] <= o1[j] by { assert(o[i] <= o[j]); }
        lemma_spread_sorted(s1, o1, f);
        let a = spread_offs(s1, o1, f); let b = spread_offs(s, o, f);
        assert forall|j: int| 0 <= j < b.len() implies o.contains(#[trigger] b[j]) && b[j] <= o.last() by {
            if j < a.len() { assert(o1.contains(a[j])); let k = choose|k: int| 0 <= k < o1.len() && o1[k] == a[j]; assert(o[k] == b[j]); assert(o[k] <= o[o.len() - 1]); } else { assert(b[j] == o[o.len() - 1]); }
        }
        assert forall|i: int, j: int| #![trigger b[i], b[j]] 0 <= i <= j < b.len() implies b[i] <= b[j] by { if j < a.len() { assert(a[i] <= a[j]); } else { assert(b[i] <= o.last()); } }
    }
}
proof fn lemma_norm_sorted(s: Seq<char>, o: Seq<i32>, ws: bool, k: int)
    requires s.len() == o.len(), 0 <= k <= s.len(), sorted(o)
    ensures sorted(norm_offs(s, o, ws, k)), forall|j: int| 0 <= j < norm_offs(s, o, ws, k).len() ==> exists|i: int| 0 <= i < k && o[i] == #[trigger] norm_offs(s, o, ws, k)[j]
    decreases k
{
    if k > 0 {
        lemma_norm_sorted(s, o, ws, k - 1); let a = norm_offs(s, o, ws, k - 1); let b = norm_offs(s, o, ws, k);
        assert forall|j: int| 0 <= j < b.len() implies exists|i: int| 0 <= i < k && o[i] == #[trigger] b[j] by { if j < a.len() { let i = choose|i: int| 0 <= i < k - 1 && o[i] == a[j]; assert(o[i] == b[j]); } else { assert(o[k - 1] == b[j]); } }
        assert forall|i: int, j: int| #![trigger b[i], b[j]] 0 <= i <= j < b.len() implies b[i] <= b[j] by {
            if j < a.len() { assert(a[i] <= a[j]); } else if i < a.len() { let q = choose|q: int| 0 <= q < k - 1 && o[q] == a[i]; assert(o[q] <= o[k - 1]); }
        }
    }
}
// within one text node the recorded offsets are positions of its characters and never decrease
proof fn lemma_offsets_sorted(p: DNMParameters, n: RoNode, ws: bool)
    requires consistent(p), p.support_back_mapping
    ensures sorted(text_offs(p, n, ws)), forall|j: int| 0 <= j < text_offs(p, n, ws).len() ==> 0 <= #[trigger] text_offs(p, n, ws)[j] < n.content().len()
{
    let s = n.content(); axiom_content_size(n); lemma_text_len(p, n, ws); let i0 = iota(s.len()); assert(sorted(i0));
    let u = uni_chars(p, s); let o1 = uni_offs(p, s); let o2 = prep_offs(p, s); let t = prep_chars(p, s);
    if p.normalize_unicode { lemma_spread_sorted(s, i0, f_unidec()); assert forall|j: int| 0 <= j < o1.len() implies 0 <= #[trigger] o1[j] < s.len() by { assert(i0.contains(o1[j])); } }
    if p.convert_to_lowercase { lemma_spread_sorted(u, o1, f_low()); assert forall|j: int| 0 <= j < o2.len() implies 0 <= #[trigger] o2[j] < s.len() by { assert(o1.contains(o2[j])); } }
    if p.normalize_white_spaces { lemma_norm_sorted(t, o2, ws, t.len() as int); }
}

// recorded ranges lie in the text
spec fn bounded_map(m: Map<usize, (usize, usize)>, len: int) -> bool { forall|h: usize| #[trigger] m.dom().contains(h) ==> m[h].0 <= m[h].1 <= len }
proof fn lemma_bounded(p: DNMParameters, n: RoNode, s: St)
    requires bounded_map(s.map, s.chars.len() as int), visit(p, n, s).chars.len() <= usize::MAX
    ensures bounded_map(visit(p, n, s).map, visit(p, n, s).chars.len() as int)
    decreases n.height(), 1nat, 0nat
{
    lemma_longer(p, n, s);
    if !n.is_text() && policy(p, n) == Pol::Enter { lemma_longer_kids(p, n, n.kids().len(), s); lemma_bounded_kids(p, n, n.kids().len(), s); }
}
proof fn lemma_bounded_kids(p: DNMParameters, n: RoNode, k: nat, s: St)
    requires bounded_map(s.map, s.chars.len() as int), visit_kids(p, n, k, s).chars.len() <= usize::MAX
    ensures bounded_map(visit_kids(p, n, k, s).map, visit_kids(p, n, k, s).chars.len() as int)
    decreases n.height(), 0nat, k
{
    if k > 0 && k <= n.kids().len() { let c = n.kids()[k - 1]; if c.height() < n.height() {
        let t = visit_kids(p, n, (k - 1) as nat, s);
        lemma_longer_kids(p, n, (k - 1) as nat, s); lemma_longer(p, c, t); lemma_bounded_kids(p, n, (k - 1) as nat, s); lemma_bounded(p, c, t); } }
}
