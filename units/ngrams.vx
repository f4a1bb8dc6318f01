@include prelude.inc
@include hashmap.inc
@include sort.inc
@include eq.inc
@method asc_iter => vx_asc_iter
@method copied => vx_copied
@method collect => vx_collect
@method join => vx_join
@method filter => vx_filter
@method extend => vx_extend
@method split_ascii_whitespace => vx_split_ascii_whitespace
@method sort_by => vx_sort_by
@method map => vx_map
@method iter => vx_iter
@method chars => vx_chars
@method next => vx_next
@method is_alphanumeric => vx_is_alphanumeric
@path std::mem::take => vx_take
@src src/ngrams.rs
@verbatim
// ---------- circular_queue::CircularQueue, as documented ----------
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
struct CircularQueue<T> { _p: Vec<T> }
impl<T> CircularQueue<T> {
    uninterp spec fn seq(&self) -> Seq<T>;   // oldest first
    uninterp spec fn cap(&self) -> nat;
    #[verifier::external_body]
    fn with_capacity(capacity: usize) -> (r: Self) ensures r.seq() == Seq::<T>::empty(), r.cap() == capacity { unimplemented!() }
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == self.seq().len(), r <= self.cap() { unimplemented!() }
    #[verifier::external_body]
    fn is_full(&self) -> (r: bool) ensures r == (self.seq().len() == self.cap()) { unimplemented!() }
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) ensures r == (self.seq().len() == 0) { unimplemented!() }
    #[verifier::external_body]
    fn capacity(&self) -> (r: usize) ensures r == self.cap() { unimplemented!() }
    #[verifier::external_body]
    fn clear(&mut self) ensures final(self).seq() == Seq::<T>::empty(), final(self).cap() == old(self).cap() { unimplemented!() }
    #[verifier::external_body]
    fn push(&mut self, x: T)
        ensures final(self).cap() == old(self).cap(),
            old(self).cap() > 0 && old(self).seq().len() < old(self).cap() ==> final(self).seq() == old(self).seq().push(x),
            old(self).cap() > 0 && old(self).seq().len() >= old(self).cap() ==> final(self).seq() == old(self).seq().skip(1).push(x),
            old(self).cap() == 0 ==> final(self).seq() == old(self).seq(),
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_asc_iter(&self) -> (r: Vec<&T>) ensures vx_deref_seq(r@) == self.seq(), r@.len() <= self.cap() { unimplemented!() }
}
// the words joined by single spaces
spec fn joined(ws: Seq<&str>, sep: Seq<char>) -> Seq<char> decreases ws.len() {
    if ws.len() == 0 { Seq::empty() } else if ws.len() == 1 { ws[0]@ } else { joined(ws.drop_last(), sep) + sep + ws.last()@ }
}
trait VxJoin { spec fn vx_parts(&self) -> Seq<&str>; fn vx_join(&self, sep: &str) -> (r: String) ensures r@ == joined(self.vx_parts(), sep@); }
impl<'a> VxJoin for Vec<&'a str> {
    spec fn vx_parts(&self) -> Seq<&str> { self@ }
    #[verifier::external_body]
    fn vx_join(&self, sep: &str) -> (r: String) { self.join(sep) }
}
#[verifier::external_body]
fn vx_take<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(v)@, final(v)@ == Seq::<T>::empty() { std::mem::take(v) }
// str pieces
uninterp spec fn ascii_words(s: Seq<char>) -> Seq<Seq<char>>;   // str::split_ascii_whitespace: the maximal whitespace-free pieces
trait VxStr { spec fn cs(&self) -> Seq<char>;
    fn vx_split_ascii_whitespace<'a>(&'a self) -> (r: Vec<&'a str>) ensures r@.len() == ascii_words(self.cs()).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == ascii_words(self.cs())[i] && r@[i]@.len() > 0;
    fn vx_chars(&self) -> (r: VxChars) ensures r.s@ == self.cs(), r.i == 0; }
impl VxStr for str { spec fn cs(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_split_ascii_whitespace<'a>(&'a self) -> (r: Vec<&'a str>) { self.split_ascii_whitespace().collect() }
    #[verifier::external_body] fn vx_chars(&self) -> (r: VxChars) { VxChars { s: self.chars().collect(), i: 0 } } }
struct VxChars { s: Vec<char>, i: usize }
impl VxChars { 
    #[verifier::external_body]
    fn vx_next(&mut self) -> (r: Option<char>) ensures final(self).s == old(self).s,
      old(self).i < old(self).s@.len() ==> r == Some(old(self).s@[old(self).i as int]) && final(self).i == old(self).i + 1,
      old(self).i >= old(self).s@.len() ==> r is None && final(self).i == old(self).i { unimplemented!() } }
#[verifier::external_body]
proof fn axiom_str_view_eq(a: &str, b: &str) ensures (a == b) == (a@ == b@) {}

// ================= C14: ranks of distinct words in order of first insertion =================
// the number of distinct words among the first k
spec fn distinct_upto(ws: Seq<Seq<char>>, k: int) -> nat decreases k {
    if k <= 0 { 0 } else { distinct_upto(ws, k - 1) + if is_first(ws, k - 1) { 1nat } else { 0nat } }
}
spec fn is_first(ws: Seq<Seq<char>>, k: int) -> bool { forall|j: int| 0 <= j < k ==> #[trigger] ws[j] != ws[k] }
impl Dictionary {
    // the dictionary after inserting exactly the words ws, in this order
    spec fn after(&self, ws: Seq<Seq<char>>) -> bool {
        self.index == distinct_upto(ws, ws.len() as int)
        && (forall|w: Seq<char>| #[trigger] self.map@.dom().contains(w) ==> ws.contains(w))
        && (forall|i: int| #![trigger ws[i]] 0 <= i < ws.len() ==> self.map@.dom().contains(ws[i]))
        && (forall|i: int| #![trigger is_first(ws, i)] 0 <= i < ws.len() && is_first(ws, i) ==> self.map@[ws[i]] == distinct_upto(ws, i + 1))
    }
}
proof fn lemma_distinct_push(ws: Seq<Seq<char>>, w: Seq<char>, k: int)
    requires 0 <= k <= ws.len()
    ensures distinct_upto(ws.push(w), k) == distinct_upto(ws, k)
    decreases k
{ if k > 0 { lemma_distinct_push(ws, w, k - 1); assert(is_first(ws.push(w), k - 1) == is_first(ws, k - 1)) by {
    assert forall|j: int| 0 <= j < k implies #[trigger] ws.push(w)[j] == ws[j] by {}
    if is_first(ws, k - 1) { assert forall|j: int| 0 <= j < k - 1 implies #[trigger] ws.push(w)[j] != ws.push(w)[k - 1] by { assert(ws[j] != ws[k - 1]); } }
    if is_first(ws.push(w), k - 1) { assert forall|j: int| 0 <= j < k - 1 implies #[trigger] ws[j] != ws[k - 1] by { assert(ws.push(w)[j] != ws.push(w)[k - 1]); } }
} } }
proof fn lemma_distinct_mono(ws: Seq<Seq<char>>, a: int, b: int)
    requires 0 <= a <= b <= ws.len()
    ensures distinct_upto(ws, a) <= distinct_upto(ws, b) <= distinct_upto(ws, a) + (b - a)
    decreases b - a
{ if a < b { lemma_distinct_mono(ws, a, b - 1); } }
proof fn lemma_first_occurrence(ws: Seq<Seq<char>>, i: int) -> (r: int)
    requires 0 <= i < ws.len()
    ensures 0 <= r <= i, ws[r] == ws[i], is_first(ws, r)
    decreases i
{ if is_first(ws, i) { i } else { let j = choose|j: int| 0 <= j < i && #[trigger] ws[j] == ws[i]; lemma_first_occurrence(ws, j) } }
// the step of the history argument
proof fn lemma_dictionary_step(d: Dictionary, e: Dictionary, ws: Seq<Seq<char>>, w: Seq<char>)
    requires d.after(ws),
        d.map@.dom().contains(w) ==> e.map@ == d.map@ && e.index == d.index,
        !d.map@.dom().contains(w) ==> e.map@ == d.map@.insert(w, (d.index + 1) as usize) && e.index == d.index + 1,
    ensures e.after(ws.push(w))
{
    let n = ws.len() as int; let vs = ws.push(w);
    lemma_distinct_push(ws, w, n);
    assert(vs[n] == w);
    assert forall|j: int| 0 <= j < n implies #[trigger] vs[j] == ws[j] by {}
    if d.map@.dom().contains(w) {
        let i = choose|i: int| 0 <= i < n && ws[i] == w;
        assert(ws.contains(w)); assert(0 <= i < n && ws[i] == w); assert(vs[i] == vs[n]);
        assert(!is_first(vs, n));
    } else {
        assert(is_first(vs, n)) by { assert forall|j: int| 0 <= j < n implies #[trigger] vs[j] != vs[n] by { assert(d.map@.dom().contains(ws[j])); } }
    }
    assert forall|x: Seq<char>| #[trigger] e.map@.dom().contains(x) implies vs.contains(x) by {
        if x == w { assert(vs[n] == x); } else { assert(ws.contains(x)); let i = choose|i: int| 0 <= i < n && ws[i] == x; assert(vs[i] == x); }
    }
    assert forall|i: int| #![trigger vs[i]] 0 <= i < vs.len() implies e.map@.dom().contains(vs[i]) by { if i < n { assert(d.map@.dom().contains(ws[i])); } }
    assert forall|i: int| #![trigger is_first(vs, i)] 0 <= i < vs.len() && is_first(vs, i) implies e.map@[vs[i]] == distinct_upto(vs, i + 1) by {
        if i < n {
            lemma_distinct_push(ws, w, i + 1);
            assert(is_first(ws, i)) by { assert forall|j: int| 0 <= j < i implies #[trigger] ws[j] != ws[i] by { assert(vs[j] != vs[i]); } }
            assert(d.map@.dom().contains(ws[i]));
        } else { }
    }
}
// the values are exactly 1..=count, each used once
proof fn lemma_ranks_are_1_to_n(d: Dictionary, ws: Seq<Seq<char>>, w: Seq<char>, v: Seq<char>)
    requires d.after(ws), d.map@.dom().contains(w), d.map@.dom().contains(v)
    ensures 1 <= d.map@[w] <= d.index, w != v ==> d.map@[w] != d.map@[v]
{
    let i = choose|i: int| 0 <= i < ws.len() && ws[i] == w; assert(ws.contains(w));
    let j = choose|j: int| 0 <= j < ws.len() && ws[j] == v; assert(ws.contains(v));
    let i = lemma_first_occurrence(ws, i); let j = lemma_first_occurrence(ws, j);
    assert(is_first(ws, i)); assert(is_first(ws, j));
    lemma_distinct_mono(ws, i + 1, ws.len() as int);
    if i < j { lemma_distinct_mono(ws, i + 1, j); }
    if j < i { lemma_distinct_mono(ws, j + 1, i); }
}

// ================= C12: windows =================
// number of positions at which `p` is the space-joined window of n words of ws
spec fn windows(ws: Seq<&str>, n: int, p: Seq<char>) -> nat decreases ws.len() {
    if ws.len() == 0 { 0 } else { windows(ws.drop_last(), n, p) + if ws.len() >= n && joined(ws.skip(ws.len() - n), " "@) == p { 1nat } else { 0nat } }
}
spec fn cnt(m: Map<Seq<char>, usize>, p: Seq<char>) -> nat { if m.dom().contains(p) { m[p] as nat } else { 0 } }
// m1 is m0 with every window of ws counted once
spec fn counted(m0: Map<Seq<char>, usize>, m1: Map<Seq<char>, usize>, ws: Seq<&str>, n: int) -> bool {
    (forall|p: Seq<char>| #[trigger] cnt(m1, p) == cnt(m0, p) + windows(ws, n, p))
    && (forall|p: Seq<char>| #[trigger] m1.dom().contains(p) <==> m0.dom().contains(p) || windows(ws, n, p) > 0)
}
proof fn lemma_windows_short(ws: Seq<&str>, n: int, p: Seq<char>)
    requires ws.len() < n ensures windows(ws, n, p) == 0 decreases ws.len()
{ if ws.len() > 0 { lemma_windows_short(ws.drop_last(), n, p); } }

// ================= C13: windows inside the justified words =================
// some anchor within w words of position i
spec fn justified(ws: Seq<&str>, a: Seq<char>, w: int, i: int) -> bool {
    exists|j: int| 0 <= j < ws.len() && i - w <= j <= i + w && (#[trigger] ws[j])@ == a
}
spec fn all_justified(ws: Seq<&str>, a: Seq<char>, w: int, i: int, k: int) -> bool {
    forall|x: int| i <= x < k ==> #[trigger] justified(ws, a, w, x)
}
// number of windows of n words ending at or before position k, all of whose words are justified, that spell p
spec fn jwindows(ws: Seq<&str>, a: Seq<char>, w: int, n: int, p: Seq<char>, k: int) -> nat decreases k {
    if k <= 0 { 0 } else {
        jwindows(ws, a, w, n, p, k - 1) + if k >= n && all_justified(ws, a, w, k - n, k) && joined(ws.subrange(k - n, k), " "@) == p { 1nat } else { 0nat }
    }
}
spec fn jcounted(m0: Map<Seq<char>, usize>, m1: Map<Seq<char>, usize>, ws: Seq<&str>, a: Seq<char>, w: int, n: int, k: int) -> bool {
    (forall|p: Seq<char>| #[trigger] cnt(m1, p) == cnt(m0, p) + jwindows(ws, a, w, n, p, k))
    && (forall|p: Seq<char>| #[trigger] m1.dom().contains(p) <==> m0.dom().contains(p) || jwindows(ws, a, w, n, p, k) > 0)
}
// a run of justified words [d, e), preceded by an unjustified one (or the start)
proof fn lemma_run(ws: Seq<&str>, a: Seq<char>, w: int, n: int, p: Seq<char>, d: int, e: int)
    requires 0 <= d <= e <= ws.len(), n >= 1, all_justified(ws, a, w, d, e), d == 0 || !justified(ws, a, w, d - 1)
    ensures jwindows(ws, a, w, n, p, e) == jwindows(ws, a, w, n, p, d) + windows(ws.subrange(d, e), n, p)
    decreases e - d
{
    let r = ws.subrange(d, e);
    if d < e {
        assert(all_justified(ws, a, w, d, e - 1)) by { assert forall|x: int| d <= x < e - 1 implies #[trigger] justified(ws, a, w, x) by {} }
        lemma_run(ws, a, w, n, p, d, e - 1);
        assert(r.drop_last() =~= ws.subrange(d, e - 1));
        if e - d >= n {
            assert(r.skip(r.len() - n) =~= ws.subrange(e - n, e));
            assert(all_justified(ws, a, w, e - n, e)) by { assert forall|x: int| e - n <= x < e implies #[trigger] justified(ws, a, w, x) by {} }
        } else if e >= n {
            assert(e - n < d); assert(d > 0);
            assert(!all_justified(ws, a, w, e - n, e)) by { if all_justified(ws, a, w, e - n, e) { assert(justified(ws, a, w, d - 1)); } }
        }
    } else { assert(r =~= Seq::<&str>::empty()); }
}
// an unjustified word ends no counted window
proof fn lemma_gap(ws: Seq<&str>, a: Seq<char>, w: int, n: int, p: Seq<char>, d: int, e: int)
    requires 0 <= d <= e <= ws.len(), n >= 1, forall|x: int| d <= x < e ==> !#[trigger] justified(ws, a, w, x)
    ensures jwindows(ws, a, w, n, p, e) == jwindows(ws, a, w, n, p, d)
    decreases e - d
{
    if d < e {
        lemma_gap(ws, a, w, n, p, d, e - 1);
        if e >= n && all_justified(ws, a, w, e - n, e) { assert(justified(ws, a, w, e - 1)); }
    }
}
proof fn lemma_jwindows_mono(ws: Seq<&str>, a: Seq<char>, w: int, n: int, p: Seq<char>, d: int, e: int)
    requires 0 <= d <= e
    ensures jwindows(ws, a, w, n, p, d) <= jwindows(ws, a, w, n, p, e)
    decreases e - d
{ if d < e { lemma_jwindows_mono(ws, a, w, n, p, d, e - 1); } }
// what recording the run [d, e) needs and does
proof fn lemma_record(m0: Map<Seq<char>, usize>, c: Map<Seq<char>, usize>, ws: Seq<&str>, a: Seq<char>, w: int, n: int, d: int, e: int)
    requires 0 <= d <= e <= ws.len(), n >= 1, all_justified(ws, a, w, d, e), d == 0 || !justified(ws, a, w, d - 1), jcounted(m0, c, ws, a, w, n, d),
        forall|p: Seq<char>| #[trigger] cnt(m0, p) + jwindows(ws, a, w, n, p, ws.len() as int) <= usize::MAX,
    ensures forall|p: Seq<char>| #[trigger] cnt(c, p) + windows(ws.subrange(d, e), n, p) <= usize::MAX
{
    assert forall|p: Seq<char>| #[trigger] cnt(c, p) + windows(ws.subrange(d, e), n, p) <= usize::MAX by {
        lemma_run(ws, a, w, n, p, d, e); lemma_jwindows_mono(ws, a, w, n, p, e, ws.len() as int); assert(cnt(m0, p) + jwindows(ws, a, w, n, p, ws.len() as int) <= usize::MAX);
    }
}
proof fn lemma_recorded(m0: Map<Seq<char>, usize>, c: Map<Seq<char>, usize>, c2: Map<Seq<char>, usize>, ws: Seq<&str>, a: Seq<char>, w: int, n: int, d: int, e: int, f: int)
    requires 0 <= d <= e <= f <= ws.len(), n >= 1, all_justified(ws, a, w, d, e), d == 0 || !justified(ws, a, w, d - 1), jcounted(m0, c, ws, a, w, n, d),
        counted(c, c2, ws.subrange(d, e), n), forall|x: int| e <= x < f ==> !#[trigger] justified(ws, a, w, x),
    ensures jcounted(m0, c2, ws, a, w, n, f)
{
    assert forall|p: Seq<char>| #[trigger] cnt(c2, p) == cnt(m0, p) + jwindows(ws, a, w, n, p, f) by { lemma_run(ws, a, w, n, p, d, e); lemma_gap(ws, a, w, n, p, e, f); assert(cnt(c, p) == cnt(m0, p) + jwindows(ws, a, w, n, p, d)); }
    assert forall|p: Seq<char>| #[trigger] c2.dom().contains(p) <==> m0.dom().contains(p) || jwindows(ws, a, w, n, p, f) > 0 by { lemma_run(ws, a, w, n, p, d, e); lemma_gap(ws, a, w, n, p, e, f); assert(c.dom().contains(p) <==> m0.dom().contains(p) || jwindows(ws, a, w, n, p, d) > 0); }
}
// the words of some content: the whitespace separated tokens starting with an alphanumeric character
spec fn are_tokens(toks: Seq<&str>, content: Seq<char>) -> bool { toks.len() == ascii_words(content).len() && forall|i: int| 0 <= i < toks.len() ==> (#[trigger] toks[i])@ == ascii_words(content)[i] }
spec fn is_words_of(ws: Seq<&str>, content: Seq<char>) -> bool {
    exists|toks: Seq<&str>, k: Seq<bool>| #![trigger vx_select(toks, k)] are_tokens(toks, content) && ws == vx_select(toks, k) && k.len() == toks.len() && forall|i: int| 0 <= i < k.len() ==> #[trigger] k[i] == alnum(toks[i]@[0])
}
proof fn lemma_windows_mono(ws: Seq<&str>, n: int, p: Seq<char>, k: int)
    requires 0 <= k <= ws.len()
    ensures windows(ws.take(k), n, p) <= windows(ws, n, p)
    decreases ws.len() - k
{ if k < ws.len() { lemma_windows_mono(ws, n, p, k + 1); assert(ws.take(k + 1).drop_last() =~= ws.take(k)); } else { assert(ws.take(k) =~= ws); } }
// ================= C15: reports =================
spec fn desc(x: usize, y: usize) -> core::cmp::Ordering { if y < x { core::cmp::Ordering::Less } else if y == x { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater } }
spec fn reports(r: Seq<(&String, usize)>, m: Map<Seq<char>, usize>) -> bool {
    r.len() == m.len()
    && (forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> m.dom().contains(r[i].0@) && m[r[i].0@] == r[i].1)
    && (forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i < j < r.len() ==> r[i].0@ != r[j].0@ && r[i].1 >= r[j].1)
    && (forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0@ == k)
}
// a permutation of the entries is complete and has no repetitions
proof fn lemma_report(s: Seq<(&String, usize)>, r: Seq<(&String, usize)>, m: Map<Seq<char>, usize>)
    requires exists|l: Seq<(&String, &usize)>| #[trigger] vx_lists_map(l, m) && s.len() == l.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == (l[i].0, *l[i].1), vx_reorders(s, r),
        forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i < j < r.len() ==> r[i].1 >= r[j].1,
    ensures reports(r, m)
{
    let l = choose|l: Seq<(&String, &usize)>| #[trigger] vx_lists_map(l, m) && s.len() == l.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == (l[i].0, *l[i].1);
    let p = choose|p: Seq<int>| #[trigger] vx_perm(p, s.len() as int) && forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == s[p[i]];
    assert forall|i: int| #![trigger r[i]] 0 <= i < r.len() implies m.dom().contains(r[i].0@) && m[r[i].0@] == r[i].1 by { let x = l[p[i]]; assert(r[i] == s[p[i]]); assert(x.0.kv() == x.0@); }
    assert forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i < j < r.len() implies r[i].0@ != r[j].0@ by {
        assert(r[i] == s[p[i]]); assert(r[j] == s[p[j]]); let x = l[p[i]]; let y = l[p[j]]; assert(p[i] != p[j]); assert(x.0.kv() != y.0.kv());
    }
    assert forall|k: Seq<char>| #[trigger] m.dom().contains(k) implies exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0@ == k by {
        let z = choose|z: int| 0 <= z < l.len() && (#[trigger] l[z]).0.kv() == k;
        assert(vx_hit(p, z)); let i = choose|i: int| 0 <= i < p.len() && #[trigger] p[i] == z; assert(r[i] == s[p[i]]);
    }
}
@type Dictionary
@type Ngrams
@fn Dictionary::insert
@props C14
@contract
    requires old(self).index < usize::MAX, forall|k: Seq<char>| #[trigger] old(self).map@.dom().contains(k) ==> old(self).map@[k] <= old(self).index,
    ensures
        old(self).map@.dom().contains(word@) ==> final(self).map@ == old(self).map@ && final(self).index == old(self).index,
        !old(self).map@.dom().contains(word@) ==> final(self).map@ == old(self).map@.insert(word@, (old(self).index + 1) as usize) && final(self).index == old(self).index + 1,
        forall|ws: Seq<Seq<char>>| #[trigger] old(self).after(ws) ==> final(self).after(ws.push(word@)),
@at exit
    proof {
        assert(old(self).map@.dom().contains(word@) ==> self.map@ =~= old(self).map@);
        assert(!old(self).map@.dom().contains(word@) ==> self.map@ =~= old(self).map@.insert(word@, (old(self).index + 1) as usize));
        assert forall|ws: Seq<Seq<char>>| #[trigger] old(self).after(ws) implies self.after(ws.push(word@)) by { lemma_dictionary_step(*old(self), *self, ws, word@); }
    }
@fn Dictionary::count
@props C14
@ret r
@contract
    ensures r == self.index, forall|ws: Seq<Seq<char>>| #[trigger] self.after(ws) ==> r == distinct_upto(ws, ws.len() as int)
@fn Dictionary::sorted
@props C15
@ret r
@contract
    ensures reports(r@, self.map@)
@closure 0 |vx_p0: (&String, &usize)| -> (vx_r: (&String, usize)) ensures vx_r == (vx_p0.0, *vx_p0.1)
@closure 1 |a: &(&String, usize), b: &(&String, usize)| -> (vx_r: core::cmp::Ordering) ensures vx_r == desc(a.1, b.1)
@at before-call vx_sort_by 0
    let ghost s0 = as_vec@;
@at exit
    proof { lemma_report(s0, as_vec@, self.map@); }
@fn Default for Ngrams::default
@inherent impl Ngrams
@props C12
@ret r
@contract
    ensures r.anchor is None, r.n == 1, r.counts@ =~= Map::<Seq<char>, usize>::empty(),
@fn Ngrams::insert
@props C12
@contract
    requires cnt(old(self).counts@, phrase@) < usize::MAX
    ensures
        final(self).counts@ == old(self).counts@.insert(phrase@, (cnt(old(self).counts@, phrase@) + 1) as usize),
        final(self).n == old(self).n, final(self).anchor == old(self).anchor, final(self).window_size == old(self).window_size,
@fn Ngrams::get
@props C12
@ret r
@contract
    ensures r == cnt(self.counts@, word@)
@fn Ngrams::distinct_count
@props C15
@ret r
@contract
    ensures r == self.counts@.len()
@fn Ngrams::sorted
@props C15
@ret r
@contract
    ensures reports(r@, self.counts@)
@closure 0 |vx_p0: (&String, &usize)| -> (vx_r: (&String, usize)) ensures vx_r == (vx_p0.0, *vx_p0.1)
@closure 1 |a: &(&String, usize), b: &(&String, usize)| -> (vx_r: core::cmp::Ordering) ensures vx_r == desc(a.1, b.1)
@at before-call vx_sort_by 0
    let ghost s0 = as_vec@;
@at exit
    proof { lemma_report(s0, as_vec@, self.counts@); }
@fn Ngrams::record_words
@props C12 C13
@contract
    requires
        old(self).n >= 1,
        forall|p: Seq<char>| #[trigger] cnt(old(self).counts@, p) + windows(words@, old(self).n as int, p) <= usize::MAX,
    ensures
        counted(old(self).counts@, final(self).counts@, words@, old(self).n as int),
        final(self).n == old(self).n, final(self).anchor == old(self).anchor, final(self).window_size == old(self).window_size,
@at entry
    let ghost ws = words@; let ghost n0 = self.n as int; let ghost m0 = self.counts@;
    proof { if words@.len() < self.n { assert forall|p: Seq<char>| windows(words@, self.n as int, p) == 0 by { lemma_windows_short(words@, self.n as int, p); } } }
@at loop 0 iter it
@at loop 0 inv
    invariant
        it.seq() == ws, n0 >= 1, self.n == n0, gram_window.cap() == n0, self.anchor == old(self).anchor, self.window_size == old(self).window_size,
        it.index() <= ws.len(),
        forall|p: Seq<char>| #[trigger] cnt(m0, p) + windows(ws, n0, p) <= usize::MAX,
        gram_window.seq() == (if it.index() < n0 { ws.take(it.index() as int) } else { ws.subrange(it.index() - n0, it.index() as int) }),
        counted(m0, self.counts@, ws.take(it.index() as int), n0),
@at loop 0 start
    proof { assert forall|p: Seq<char>| windows(ws.take(it.index() + 1), n0, p) <= windows(ws, n0, p) by { lemma_windows_mono(ws, n0, p, it.index() + 1); }
        let k = it.index() as int;
        assert(ws.take(k + 1).drop_last() =~= ws.take(k));
        if k + 1 >= n0 { assert(ws.take(k + 1).skip(k + 1 - n0) =~= ws.subrange(k + 1 - n0, k + 1)); }
    }
@at before-call insert 0
    let ghost key0 = key@; let ghost c0 = self.counts@;
    proof { let k = it.index() as int; assert(gram_window.seq() =~= ws.subrange(k + 1 - n0, k + 1)); }
@at after-call insert 0
    proof {
        let k = it.index() as int; let c1 = self.counts@;
        assert forall|p: Seq<char>| #[trigger] cnt(c1, p) == cnt(m0, p) + windows(ws.take(k + 1), n0, p) by { assert(cnt(c0, p) == cnt(m0, p) + windows(ws.take(k), n0, p)); }
        assert forall|p: Seq<char>| #[trigger] c1.dom().contains(p) <==> m0.dom().contains(p) || windows(ws.take(k + 1), n0, p) > 0 by { assert(c0.dom().contains(p) <==> m0.dom().contains(p) || windows(ws.take(k), n0, p) > 0); }
    }
@at loop 0 end
    proof {
        let k = it.index() as int; let c1 = self.counts@;
        if k + 1 < n0 {
        assert forall|p: Seq<char>| #[trigger] cnt(c1, p) == cnt(m0, p) + windows(ws.take(k + 1), n0, p) by { assert(cnt(c1, p) == cnt(m0, p) + windows(ws.take(k), n0, p)); }
        assert forall|p: Seq<char>| #[trigger] c1.dom().contains(p) <==> m0.dom().contains(p) || windows(ws.take(k + 1), n0, p) > 0 by { assert(c1.dom().contains(p) <==> m0.dom().contains(p) || windows(ws.take(k), n0, p) > 0); }
        }
    }
@at exit
    proof { assert(ws.take(ws.len() as int) =~= ws); }
@fn Ngrams::add_anchored_content
@props C13
@opt eq-call
@contract
    requires
        old(self).n >= 1, old(self).anchor is Some,
        forall|ws: Seq<&str>, p: Seq<char>| #![trigger is_words_of(ws, content@), cnt(old(self).counts@, p)] is_words_of(ws, content@) ==> cnt(old(self).counts@, p) + jwindows(ws, old(self).anchor->0@, old(self).window_size as int, old(self).n as int, p, ws.len() as int) <= usize::MAX,
    ensures
        exists|ws: Seq<&str>| #[trigger] is_words_of(ws, content@) && jcounted(old(self).counts@, final(self).counts@, ws, old(self).anchor->0@, old(self).window_size as int, old(self).n as int, ws.len() as int),
        final(self).n == old(self).n, final(self).anchor == old(self).anchor, final(self).window_size == old(self).window_size,
@closure 0 |vx_p0: &&str| -> (vx_r: bool) requires vx_p0@.len() > 0 ensures vx_r == alnum(vx_p0@[0])
@at entry
    let ghost a = self.anchor->0@; let ghost n0 = self.n as int; let ghost wd = self.window_size as int; let ghost m0 = self.counts@;
    // everything before d has been counted; d is preceded by an unjustified word or the start
    let ghost mut d: int = 0; let ghost mut last: int = -1;
@at loop 0 iter it
@at loop 0 inv
    invariant
        n0 >= 1, self.n == n0, self.window_size == wd, self.anchor == old(self).anchor, self.anchor is Some, a == self.anchor->0@,
        context_window.cap() == wd, wd >= 0, context_window.seq().len() <= wd, right_context <= wd,
        is_words_of(it.seq(), content@),
        forall|p: Seq<char>| #[trigger] cnt(m0, p) + jwindows(it.seq(), a, wd, n0, p, it.seq().len() as int) <= usize::MAX,
        0 <= d <= it.index() <= it.seq().len(),
        d == 0 || !justified(it.seq(), a, wd, d - 1),
        d + continuous_buffer@.len() + context_window.seq().len() == it.index(),
        continuous_buffer@ == it.seq().subrange(d, d + continuous_buffer@.len() as int),
        context_window.seq() == it.seq().subrange(it.index() - context_window.seq().len(), it.index() as int),
        all_justified(it.seq(), a, wd, d, d + continuous_buffer@.len() as int),
        // the last anchor seen, and how far it reaches
        -1 <= last < it.index(), last >= 0 ==> it.seq()[last]@ == a,
        forall|j: int| last < j < it.index() ==> (#[trigger] it.seq()[j])@ != a,
        last >= 0 ==> right_context == (if last + wd + 1 > it.index() { last + wd + 1 - it.index() } else { 0 }),
        last < 0 ==> right_context == 0,
        right_context > 0 ==> context_window.seq().len() == 0,
        // words waiting in the window are out of reach of the last anchor
        last >= 0 && context_window.seq().len() > 0 ==> it.index() - context_window.seq().len() > last + wd,
        jcounted(m0, self.counts@, it.seq(), a, wd, n0, d),
@at if 0 then
    let ghost cb = continuous_buffer@; let ghost cw = context_window.seq();
    proof {
        let k = it.index() as int; let ws = it.seq();
        last = k;
        assert(ws[k]@ == a);
        assert forall|x: int| d <= x < k + 1 implies #[trigger] justified(ws, a, wd, x) by { if x >= d + cb.len() { assert(ws[k]@ == a); } }
    }
@at if 0 then-end
    proof { let k = it.index() as int; let ws = it.seq(); assert(continuous_buffer@ =~= ws.subrange(d, k + 1)); }
@at if 1 then
    proof { let k = it.index() as int; let ws = it.seq(); assert(last >= 0); assert(ws[last]@ == a); assert(justified(ws, a, wd, k)); }
@at if 1 then-end
    proof { let k = it.index() as int; let ws = it.seq(); assert(continuous_buffer@ =~= ws.subrange(d, k + 1)); }
@at if 1 else-end
    proof { let k = it.index() as int; let ws = it.seq(); assert(context_window.seq() =~= ws.subrange(k + 1 - context_window.seq().len(), k + 1)); }
@at if 2 then
    let ghost c0 = self.counts@;
    proof {
        let k = it.index() as int; let ws = it.seq(); let e = d + continuous_buffer@.len(); let b = continuous_buffer@;
        assert(!justified(ws, a, wd, e)) by {
            assert forall|j: int| 0 <= j < ws.len() && e - wd <= j <= e + wd implies (#[trigger] ws[j])@ != a by { }
        }
        lemma_record(m0, c0, ws, a, wd, n0, d, e);
    }
@at if 2 then-end
    proof {
        let ws = it.seq(); let e = d + (it.index() - wd - d);
        lemma_recorded(m0, c0, self.counts@, ws, a, wd, n0, d, e, e + 1);
        d = e + 1;
    }
@at loop 0 hoist vx_words
@at loop 0 before
    proof { assert(is_words_of(vx_words@, content@)); assert forall|p: Seq<char>| #[trigger] cnt(m0, p) + jwindows(vx_words@, a, wd, n0, p, vx_words@.len() as int) <= usize::MAX by { assert(is_words_of(vx_words@, content@) && cnt(m0, p) >= 0 || true); } }
@at loop 0 after
    let ghost ws = vx_words@; let ghost c_end = self.counts@; let ghost e = d + continuous_buffer@.len();
    proof { lemma_record(m0, c_end, ws, a, wd, n0, d, e); }
@at exit
    proof { 
      assert forall|x: int| e <= x < ws.len() implies !#[trigger] justified(ws, a, wd, x) by { assert forall|j: int| 0 <= j < ws.len() && x - wd <= j <= x + wd implies (#[trigger] ws[j])@ != a by { } }
      lemma_recorded(m0, c_end, self.counts@, ws, a, wd, n0, d, e, ws.len() as int); }
@fn Ngrams::add_content
@props C13
@contract
    requires
        old(self).n >= 1, old(self).anchor is Some, old(self).window_size > 0,
        forall|ws: Seq<&str>, p: Seq<char>| #![trigger is_words_of(ws, content@), cnt(old(self).counts@, p)] is_words_of(ws, content@) ==> cnt(old(self).counts@, p) + jwindows(ws, old(self).anchor->0@, old(self).window_size as int, old(self).n as int, p, ws.len() as int) <= usize::MAX,
    ensures
        exists|ws: Seq<&str>| #[trigger] is_words_of(ws, content@) && jcounted(old(self).counts@, final(self).counts@, ws, old(self).anchor->0@, old(self).window_size as int, old(self).n as int, ws.len() as int),
        final(self).n == old(self).n, final(self).anchor == old(self).anchor, final(self).window_size == old(self).window_size,
@endfn
