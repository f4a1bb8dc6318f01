@include selspec.inc
@verbatim
// ---------- jwalk ----------
struct VxDirEnt { file_name: VxOs }
impl VxDirEnt { uninterp spec fn full(&self) -> VxOs; #[verifier::external_body] fn path(&self) -> (r: VxOs) ensures r == self.full() { unimplemented!() } }
#[verifier::external_body]
struct VxWalkErr { _p: usize }
type VxEach = Result<VxDirEnt, VxWalkErr>;
struct ParWalkDir { root: String, hidden: bool }
// v lists what is found below root (without hidden files if hidden is set), in some order
uninterp spec fn listing(root: Seq<char>, hidden: bool, v: Seq<VxEach>) -> bool;
impl ParWalkDir {
    #[verifier::external_body] fn new(root: String) -> (r: Self) ensures r.root@ == root@ { unimplemented!() }
    #[verifier::external_body] fn num_threads(self, n: usize) -> (r: Self) ensures r == self { unimplemented!() }
    #[verifier::external_body] fn skip_hidden(self, b: bool) -> (r: Self) ensures r == (ParWalkDir { root: self.root, hidden: b }) { unimplemented!() }
    #[verifier::external_body] fn sort(self, b: bool) -> (r: Self) ensures r == self { unimplemented!() }
    #[verifier::external_body] fn vx_into_iter(self) -> (r: Vec<VxEach>) ensures listing(self.root@, self.hidden, r@) { unimplemented!() }
}
#[verifier::external_body]
fn vx_threads() -> usize { unimplemented!() }
// the path of a selected file; an unreadable entry or a path that is no text has none
spec fn picked(e: VxEach, ext: Option<String>) -> Option<Seq<char>> {
    match e { Ok(x) => if selected(text_or_empty(x.file_name), ext) && text_or_empty(x.full()).len() > 0 { Some(text_or_empty(x.full())) } else { None }, Err(_) => None }
}
spec fn sv(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
spec fn picked_all(v: Seq<VxEach>, ext: Option<String>) -> Seq<Seq<char>> decreases v.len() {
    if v.len() == 0 { Seq::empty() } else { match picked(v.last(), ext) { Some(p) => picked_all(v.drop_last(), ext).push(p), None => picked_all(v.drop_last(), ext) } }
}
spec fn somes<T>(v: Seq<Option<T>>) -> Seq<T> decreases v.len() { if v.len() == 0 { Seq::empty() } else { match v.last() { Some(x) => somes(v.drop_last()).push(x), None => somes(v.drop_last()) } } }
spec fn texts(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
proof fn lemma_picked(v: Seq<VxEach>, ext: Option<String>, o: Seq<Option<String>>)
    requires o.len() == v.len(), forall|i: int| 0 <= i < o.len() ==> sv(#[trigger] o[i]) == picked(v[i], ext)
    ensures texts(somes(o)) == picked_all(v, ext) decreases v.len()
{
    if v.len() > 0 {
        assert forall|i: int| 0 <= i < v.len() - 1 implies sv(#[trigger] o.drop_last()[i]) == picked(v.drop_last()[i], ext) by { assert(o[i] == o.drop_last()[i]); }
        lemma_picked(v.drop_last(), ext, o.drop_last());
        assert(sv(o.last()) == picked(v.last(), ext)); assert(texts(somes(o)) =~= picked_all(v, ext));
    } else { assert(texts(somes(o)) =~= picked_all(v, ext)); }
}
proof fn lemma_picked_all(ext: Option<String>)
    ensures forall|v: Seq<VxEach>, o: Seq<Option<String>>| #![trigger somes(o), picked_all(v, ext)] o.len() == v.len() && (forall|i: int| 0 <= i < o.len() ==> sv(#[trigger] o[i]) == picked(v[i], ext)) ==> texts(somes(o)) == picked_all(v, ext)
{ assert forall|v: Seq<VxEach>, o: Seq<Option<String>>| #![trigger somes(o), picked_all(v, ext)] o.len() == v.len() && (forall|i: int| 0 <= i < o.len() ==> sv(#[trigger] o[i]) == picked(v[i], ext)) implies texts(somes(o)) == picked_all(v, ext) by { lemma_picked(v, ext, o); } }
trait VxFilterMap<T>: Sized { spec fn fm(&self) -> Seq<T>;
    fn vx_filter_map<U, F: Fn(T) -> Option<U>>(self, f: F) -> (r: Vec<U>)
        requires forall|i: int| 0 <= i < self.fm().len() ==> call_requires(f, (#[trigger] self.fm()[i],)),
        ensures exists|o: Seq<Option<U>>| r@ == #[trigger] somes(o) && o.len() == self.fm().len() && forall|i: int| 0 <= i < o.len() ==> call_ensures(f, (self.fm()[i],), #[trigger] o[i]); }
impl<T> VxFilterMap<T> for Vec<T> { spec fn fm(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_filter_map<U, F: Fn(T) -> Option<U>>(self, f: F) -> (r: Vec<U>) { unimplemented!() } }
// ---------- rayon: map, then combine the results in some order and grouping ----------
struct VxPar<T> { items: Vec<T> }
trait VxBridge<T> { fn vx_par_bridge(self) -> VxPar<T>; }
impl<T> VxBridge<T> for Vec<T> { #[verifier::external_body] fn vx_par_bridge(self) -> (r: VxPar<T>) ensures r.items@ == self@ { unimplemented!() } }
// a schedule: how partial results were grouped; an identity may be thrown in anywhere
enum Tree<T> { Empty(T), Leaf(int), Node(Box<Tree<T>>, Box<Tree<T>>, T) }
spec fn leaves<T>(t: Tree<T>) -> Seq<int> decreases t { match t { Tree::Empty(_) => Seq::empty(), Tree::Leaf(i) => seq![i], Tree::Node(a, b, _) => leaves(*a) + leaves(*b) } }
spec fn val<T>(t: Tree<T>, items: Seq<T>) -> T { match t { Tree::Empty(x) => x, Tree::Leaf(i) => items[i], Tree::Node(_, _, x) => x } }
spec fn once(s: Seq<int>, n: int) -> bool { s.no_duplicates() && forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i] < n }
spec fn evals<T, I: Fn() -> T, F: Fn(T, T) -> T>(t: Tree<T>, items: Seq<T>, id: I, op: F) -> bool decreases t {
    match t {
        Tree::Empty(x) => call_ensures(id, (), x),
        Tree::Leaf(i) => 0 <= i < items.len(),
        Tree::Node(a, b, x) => evals(*a, items, id, op) && evals(*b, items, id, op) && call_ensures(op, (val(*a, items), val(*b, items)), x),
    }
}
impl<T> VxPar<T> {
    #[verifier::external_body]
    fn vx_map<U, F: Fn(T) -> U>(self, f: F) -> (r: VxPar<U>)
        requires forall|i: int| 0 <= i < self.items@.len() ==> call_requires(f, (#[trigger] self.items@[i],)),
        ensures r.items@.len() == self.items@.len(), forall|i: int| 0 <= i < r.items@.len() ==> call_ensures(f, (self.items@[i],), #[trigger] r.items@[i])
    { unimplemented!() }
    // every item takes part exactly once
    #[verifier::external_body]
    fn reduce<I: Fn() -> T, F: Fn(T, T) -> T>(self, id: I, op: F) -> (r: T)
        requires call_requires(id, ()), forall|a: Tree<T>, b: Tree<T>| #![trigger evals(a, self.items@, id, op), evals(b, self.items@, id, op)] evals(a, self.items@, id, op) && evals(b, self.items@, id, op) && once(leaves(a) + leaves(b), self.items@.len() as int) ==> call_requires(op, (val(a, self.items@), val(b, self.items@)))
        ensures exists|t: Tree<T>| #[trigger] evals(t, self.items@, id, op) && val(t, self.items@) == r && once(leaves(t), self.items@.len() as int) && leaves(t).len() == self.items@.len()
    { unimplemented!() }
}
// ---------- C24: exact sums ----------
type Cat = Map<Seq<char>, u64>;
spec fn at(m: Cat, k: Seq<char>) -> int { if m.dom().contains(k) { m[k] as int } else { 0 } }
spec fn is_sum(a: Cat, b: Cat, r: Cat) -> bool { forall|k: Seq<char>| (#[trigger] r.dom().contains(k)) == (a.dom().contains(k) || b.dom().contains(k)) && at(r, k) == at(a, k) + at(b, k) }
spec fn can_add(a: Cat, b: Cat) -> bool { forall|k: Seq<char>| #![trigger a.dom().contains(k)] #![trigger b.dom().contains(k)] at(a, k) + at(b, k) <= u64::MAX }
spec fn tally(ms: Seq<Cat>, s: Seq<int>, k: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { tally(ms, s.drop_last(), k) + at(ms[s.last()], k) } }
spec fn total(ms: Seq<Cat>, k: Seq<char>) -> int decreases ms.len() { if ms.len() == 0 { 0 } else { total(ms.drop_last(), k) + at(ms.last(), k) } }
spec fn reported(ms: Seq<Cat>, k: Seq<char>) -> bool { exists|i: int| 0 <= i < ms.len() && (#[trigger] ms[i]).dom().contains(k) }
// r assigns each reported key the sum of its values and has no other key
spec fn exact(ms: Seq<Cat>, r: Cat) -> bool { forall|k: Seq<char>| (#[trigger] r.dom().contains(k)) == reported(ms, k) && (r.dom().contains(k) ==> r[k] == total(ms, k)) }
proof fn lemma_tally_add(ms: Seq<Cat>, a: Seq<int>, b: Seq<int>, k: Seq<char>)
    ensures tally(ms, a + b, k) == tally(ms, a, k) + tally(ms, b, k) decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_tally_add(ms, a, b.drop_last(), k); } }
proof fn lemma_tally_nonneg(ms: Seq<Cat>, s: Seq<int>, k: Seq<char>) ensures tally(ms, s, k) >= 0 decreases s.len() { if s.len() > 0 { lemma_tally_nonneg(ms, s.drop_last(), k); } }
proof fn lemma_tally_prefix(ms: Seq<Cat>, s: Seq<int>, n: int, k: Seq<char>)
    requires 0 <= n <= ms.len(), once(s, n) ensures tally(ms, s, k) == tally(ms.take(n), s, k) decreases s.len()
{ if s.len() > 0 { assert(once(s.drop_last(), n)) by { assert forall|i: int| 0 <= i < s.len() - 1 implies 0 <= #[trigger] s.drop_last()[i] < n by { assert(s[i] == s.drop_last()[i]); } } lemma_tally_prefix(ms, s.drop_last(), n, k); assert(0 <= s[s.len() - 1] < n); assert(ms.take(n)[s.last()] == ms[s.last()]); } }
proof fn lemma_tally_remove(ms: Seq<Cat>, s: Seq<int>, p: int, k: Seq<char>)
    requires 0 <= p < s.len() ensures tally(ms, s, k) == tally(ms, s.remove(p), k) + at(ms[s[p]], k)
{ let a = s.take(p); let b = s.skip(p + 1); assert(s =~= a + (seq![s[p]] + b)); assert(s.remove(p) =~= a + b); lemma_tally_add(ms, a, seq![s[p]] + b, k); lemma_tally_add(ms, seq![s[p]], b, k); lemma_tally_add(ms, a, b, k); assert(seq![s[p]].drop_last() =~= Seq::<int>::empty()); assert(tally(ms, seq![s[p]].drop_last(), k) == 0); assert(tally(ms, seq![s[p]], k) == at(ms[s[p]], k)); }
proof fn lemma_once_remove(s: Seq<int>, n: int, p: int)
    requires once(s, n), 0 <= p < s.len(), s[p] == n - 1 ensures once(s.remove(p), n - 1)
{
    let r = s.remove(p);
    assert forall|i: int| 0 <= i < r.len() implies 0 <= #[trigger] r[i] < n - 1 by { let j = if i < p { i } else { i + 1 }; assert(r[i] == s[j]); assert(s[j] != s[p]); }
    assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && i != j implies r[i] != r[j] by { let a = if i < p { i } else { i + 1 }; let b = if j < p { j } else { j + 1 }; assert(r[i] == s[a] && r[j] == s[b]); }
}
// any selection of reports adds up to at most the total, all of them to exactly the total
proof fn lemma_tally_total(ms: Seq<Cat>, s: Seq<int>, k: Seq<char>)
    requires once(s, ms.len() as int) ensures tally(ms, s, k) <= total(ms, k), s.len() <= ms.len(), s.len() == ms.len() ==> tally(ms, s, k) == total(ms, k) && forall|i: int| 0 <= i < ms.len() ==> #[trigger] s.contains(i)
    decreases ms.len()
{
    let n = ms.len() as int;
    if n == 0 { if s.len() > 0 { assert(0 <= s[0] < 0); } }
    else if exists|p: int| 0 <= p < s.len() && #[trigger] s[p] == n - 1 {
        let p = choose|p: int| 0 <= p < s.len() && #[trigger] s[p] == n - 1;
        lemma_once_remove(s, n, p); lemma_tally_remove(ms, s, p, k); lemma_tally_prefix(ms, s.remove(p), n - 1, k);
        assert(ms.take(n - 1) =~= ms.drop_last());
        lemma_tally_total(ms.drop_last(), s.remove(p), k);
        if s.len() == n { assert forall|i: int| 0 <= i < n implies #[trigger] s.contains(i) by { if i == n - 1 { assert(s[p] == i); } else { assert(s.remove(p).contains(i)); let q = s.remove(p).index_of(i); assert(s.remove(p)[q] == i); assert(s[if q < p { q } else { q + 1 }] == i); } } }
    } else {
        assert(once(s, n - 1)) by { assert forall|i: int| 0 <= i < s.len() implies 0 <= #[trigger] s[i] < n - 1 by { } }
        lemma_tally_prefix(ms, s, n - 1, k); assert(ms.take(n - 1) =~= ms.drop_last());
        lemma_tally_total(ms.drop_last(), s, k);
    }
}
spec fn cats(v: Seq<HashMap<String, u64>>) -> Seq<Cat> { Seq::new(v.len(), |i: int| v[i]@) }
// a map that sums the reports listed in s
spec fn sums(ms: Seq<Cat>, s: Seq<int>, r: Cat) -> bool { forall|k: Seq<char>| (#[trigger] r.dom().contains(k)) == (exists|j: int| 0 <= j < s.len() && (#[trigger] ms[s[j]]).dom().contains(k)) && at(r, k) == tally(ms, s, k) }
proof fn lemma_sums_join(ms: Seq<Cat>, a: Seq<int>, b: Seq<int>, x: Cat, y: Cat, r: Cat)
    requires sums(ms, a, x), sums(ms, b, y), is_sum(x, y, r) ensures sums(ms, a + b, r)
{
    assert forall|k: Seq<char>| (#[trigger] r.dom().contains(k)) == (exists|j: int| 0 <= j < (a + b).len() && (#[trigger] ms[(a + b)[j]]).dom().contains(k)) && at(r, k) == tally(ms, a + b, k) by {
        lemma_tally_add(ms, a, b, k);
        assert(x.dom().contains(k) == (exists|j: int| 0 <= j < a.len() && (#[trigger] ms[a[j]]).dom().contains(k)));
        assert(y.dom().contains(k) == (exists|j: int| 0 <= j < b.len() && (#[trigger] ms[b[j]]).dom().contains(k)));
        if x.dom().contains(k) { let j = choose|j: int| 0 <= j < a.len() && (#[trigger] ms[a[j]]).dom().contains(k); assert(ms[(a + b)[j]].dom().contains(k)); }
        if y.dom().contains(k) { let j = choose|j: int| 0 <= j < b.len() && (#[trigger] ms[b[j]]).dom().contains(k); assert((a + b)[a.len() + j] == b[j]); assert(ms[(a + b)[a.len() + j]].dom().contains(k)); }
        if exists|j: int| 0 <= j < (a + b).len() && (#[trigger] ms[(a + b)[j]]).dom().contains(k) {
            let j = choose|j: int| 0 <= j < (a + b).len() && (#[trigger] ms[(a + b)[j]]).dom().contains(k);
            if j < a.len() { assert(ms[a[j]].dom().contains(k)); } else { assert(ms[b[j - a.len()]].dom().contains(k)); }
        }
    }
}
proof fn lemma_sums_exact(ms: Seq<Cat>, s: Seq<int>, r: Cat)
    requires sums(ms, s, r), once(s, ms.len() as int), s.len() == ms.len() ensures exact(ms, r)
{
    assert forall|k: Seq<char>| (#[trigger] r.dom().contains(k)) == reported(ms, k) && (r.dom().contains(k) ==> r[k] == total(ms, k)) by {
        lemma_tally_total(ms, s, k);
        if r.dom().contains(k) { let j = choose|j: int| 0 <= j < s.len() && (#[trigger] ms[s[j]]).dom().contains(k); assert(0 <= s[j] < ms.len()); assert(ms[s[j]].dom().contains(k)); }
        if reported(ms, k) { let i = choose|i: int| 0 <= i < ms.len() && (#[trigger] ms[i]).dom().contains(k); assert(s.contains(i)); let j = s.index_of(i); assert(s[j] == i); assert(ms[s[j]].dom().contains(k)); }
    }
}
proof fn lemma_once_parts(a: Seq<int>, b: Seq<int>, n: int)
    requires once(a + b, n) ensures once(a, n), once(b, n)
{
    let c = a + b;
    assert forall|i: int| 0 <= i < a.len() implies 0 <= #[trigger] a[i] < n by { assert(c[i] == a[i]); }
    assert forall|i: int| 0 <= i < b.len() implies 0 <= #[trigger] b[i] < n by { assert(c[a.len() + i] == b[i]); }
    assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() && i != j implies a[i] != a[j] by { assert(c[i] == a[i] && c[j] == a[j]); }
    assert forall|i: int, j: int| 0 <= i < b.len() && 0 <= j < b.len() && i != j implies b[i] != b[j] by { assert(c[a.len() + i] == b[i] && c[a.len() + j] == b[j]); }
}
// every schedule yields the exact sums
proof fn lemma_schedule<I: Fn() -> HashMap<String, u64>, F: Fn(HashMap<String, u64>, HashMap<String, u64>) -> HashMap<String, u64>>(t: Tree<HashMap<String, u64>>, items: Seq<HashMap<String, u64>>, id: I, op: F)
    requires evals(t, items, id, op), forall|x: HashMap<String, u64>| #[trigger] call_ensures(id, (), x) ==> x@ == Cat::empty(), forall|x: HashMap<String, u64>, y: HashMap<String, u64>, z: HashMap<String, u64>| #[trigger] call_ensures(op, (x, y), z) ==> is_sum(x@, y@, z@)
    ensures sums(cats(items), leaves(t), val(t, items)@)
    decreases t
{
    let r = val(t, items);
    let ms = cats(items);
    match t {
        Tree::Empty(_) => {}
        Tree::Leaf(i) => { assert(ms[i] == r@); let s = leaves(t); assert(s.drop_last() =~= Seq::<int>::empty()); assert forall|k: Seq<char>| (#[trigger] r@.dom().contains(k)) == (exists|j: int| 0 <= j < s.len() && (#[trigger] ms[s[j]]).dom().contains(k)) && at(r@, k) == tally(ms, s, k) by { assert(tally(ms, s.drop_last(), k) == 0); assert(s[0] == i); if r@.dom().contains(k) { assert(ms[s[0]].dom().contains(k)); } } }
        Tree::Node(a, b, _) => {
            let x = val(*a, items); let y = val(*b, items);
            lemma_schedule(*a, items, id, op); lemma_schedule(*b, items, id, op);
            lemma_sums_join(ms, leaves(*a), leaves(*b), x@, y@, r@);
        }
    }
}
spec fn sums_at_most(ms: Seq<Cat>) -> bool { forall|k: Seq<char>| #[trigger] total(ms, k) <= u64::MAX }
// combining catalogues that way gives the exact sums, whatever the schedule
trait VxReduce<T> { spec fn can_reduce<I: Fn() -> T, F: Fn(T, T) -> T>(&self, id: I, op: F) -> bool; spec fn reduced(&self, r: T) -> bool;
    fn vx_reduce<I: Fn() -> T, F: Fn(T, T) -> T>(self, id: I, op: F) -> (r: T) requires self.can_reduce(id, op) ensures self.reduced(r); }
impl VxReduce<HashMap<String, u64>> for VxPar<HashMap<String, u64>> {
    spec fn can_reduce<I: Fn() -> HashMap<String, u64>, F: Fn(HashMap<String, u64>, HashMap<String, u64>) -> HashMap<String, u64>>(&self, id: I, op: F) -> bool {
        sums_at_most(cats(self.items@)) && call_requires(id, ()) && (forall|x: HashMap<String, u64>| #[trigger] call_ensures(id, (), x) ==> x@ == Cat::empty())
        && (forall|x: HashMap<String, u64>, y: HashMap<String, u64>| can_add(x@, y@) ==> #[trigger] call_requires(op, (x, y)))
        && (forall|x: HashMap<String, u64>, y: HashMap<String, u64>, z: HashMap<String, u64>| #[trigger] call_ensures(op, (x, y), z) ==> is_sum(x@, y@, z@))
    }
    spec fn reduced(&self, r: HashMap<String, u64>) -> bool { exact(cats(self.items@), r@) }
    fn vx_reduce<I: Fn() -> HashMap<String, u64>, F: Fn(HashMap<String, u64>, HashMap<String, u64>) -> HashMap<String, u64>>(self, id: I, op: F) -> (r: HashMap<String, u64>) {
        proof {
            let items = self.items@; let ms = cats(items);
            assert forall|a: Tree<HashMap<String, u64>>, b: Tree<HashMap<String, u64>>| #![trigger evals(a, items, id, op), evals(b, items, id, op)] evals(a, items, id, op) && evals(b, items, id, op) && once(leaves(a) + leaves(b), items.len() as int) implies call_requires(op, (val(a, items), val(b, items))) by {
                let x = val(a, items); let y = val(b, items); lemma_schedule(a, items, id, op); lemma_schedule(b, items, id, op);
                lemma_can_add(ms, leaves(a), leaves(b), x@, y@);
            }
        }
        let ghost items = self.items@;
        let r = self.reduce(id, op);
        proof { let t = choose|t: Tree<HashMap<String, u64>>| #[trigger] evals(t, items, id, op) && val(t, items) == r && once(leaves(t), items.len() as int) && leaves(t).len() == items.len(); lemma_schedule(t, items, id, op); lemma_sums_exact(cats(items), leaves(t), r@); }
        r
    }
}
proof fn lemma_can_add(ms: Seq<Cat>, a: Seq<int>, b: Seq<int>, x: Cat, y: Cat)
    requires sums(ms, a, x), sums(ms, b, y), once(a + b, ms.len() as int), sums_at_most(ms) ensures can_add(x, y)
{
    assert forall|k: Seq<char>| at(x, k) + at(y, k) <= u64::MAX by { lemma_tally_total(ms, a + b, k); lemma_tally_add(ms, a, b, k); assert(total(ms, k) <= u64::MAX); assert(x.dom().contains(k) || !x.dom().contains(k)); assert(y.dom().contains(k) || !y.dom().contains(k)); }
}
type HM2 = (HashMap<String, u64>, HashMap<String, u64>);
spec fn firsts(v: Seq<HM2>) -> Seq<Cat> { Seq::new(v.len(), |i: int| v[i].0@) }
spec fn seconds(v: Seq<HM2>) -> Seq<Cat> { Seq::new(v.len(), |i: int| v[i].1@) }
proof fn lemma_leaf(ms: Seq<Cat>, i: int) ensures sums(ms, seq![i], ms[i])
{ let s = seq![i]; assert(s.drop_last() =~= Seq::<int>::empty()); assert forall|k: Seq<char>| (#[trigger] ms[i].dom().contains(k)) == (exists|j: int| 0 <= j < s.len() && (#[trigger] ms[s[j]]).dom().contains(k)) && at(ms[i], k) == tally(ms, s, k) by { assert(tally(ms, s.drop_last(), k) == 0); assert(s[0] == i); if ms[i].dom().contains(k) { assert(ms[s[0]].dom().contains(k)); } } }
proof fn lemma_schedule2<I: Fn() -> HM2, F: Fn(HM2, HM2) -> HM2>(t: Tree<HM2>, items: Seq<HM2>, id: I, op: F)
    requires evals(t, items, id, op), forall|x: HM2| #[trigger] call_ensures(id, (), x) ==> x.0@ == Cat::empty() && x.1@ == Cat::empty(), forall|x: HM2, y: HM2, z: HM2| #[trigger] call_ensures(op, (x, y), z) ==> is_sum(x.0@, y.0@, z.0@) && is_sum(x.1@, y.1@, z.1@)
    ensures sums(firsts(items), leaves(t), val(t, items).0@), sums(seconds(items), leaves(t), val(t, items).1@)
    decreases t
{
    let r = val(t, items);
    match t {
        Tree::Empty(_) => {}
        Tree::Leaf(i) => { lemma_leaf(firsts(items), i); lemma_leaf(seconds(items), i); }
        Tree::Node(a, b, _) => {
            let x = val(*a, items); let y = val(*b, items);
            lemma_schedule2(*a, items, id, op); lemma_schedule2(*b, items, id, op);
            lemma_sums_join(firsts(items), leaves(*a), leaves(*b), x.0@, y.0@, r.0@); lemma_sums_join(seconds(items), leaves(*a), leaves(*b), x.1@, y.1@, r.1@);
        }
    }
}
impl VxReduce<HM2> for VxPar<HM2> {
    spec fn can_reduce<I: Fn() -> HM2, F: Fn(HM2, HM2) -> HM2>(&self, id: I, op: F) -> bool {
        sums_at_most(firsts(self.items@)) && sums_at_most(seconds(self.items@)) && call_requires(id, ()) && (forall|x: HM2| #[trigger] call_ensures(id, (), x) ==> x.0@ == Cat::empty() && x.1@ == Cat::empty())
        && (forall|x: HM2, y: HM2| can_add(x.0@, y.0@) && can_add(x.1@, y.1@) ==> #[trigger] call_requires(op, (x, y)))
        && (forall|x: HM2, y: HM2, z: HM2| #[trigger] call_ensures(op, (x, y), z) ==> is_sum(x.0@, y.0@, z.0@) && is_sum(x.1@, y.1@, z.1@))
    }
    spec fn reduced(&self, r: HM2) -> bool { exact(firsts(self.items@), r.0@) && exact(seconds(self.items@), r.1@) }
    fn vx_reduce<I: Fn() -> HM2, F: Fn(HM2, HM2) -> HM2>(self, id: I, op: F) -> (r: HM2) {
        proof {
            let items = self.items@;
            assert forall|a: Tree<HM2>, b: Tree<HM2>| #![trigger evals(a, items, id, op), evals(b, items, id, op)] evals(a, items, id, op) && evals(b, items, id, op) && once(leaves(a) + leaves(b), items.len() as int) implies call_requires(op, (val(a, items), val(b, items))) by {
                let x = val(a, items); let y = val(b, items); lemma_schedule2(a, items, id, op); lemma_schedule2(b, items, id, op);
                lemma_can_add(firsts(items), leaves(a), leaves(b), x.0@, y.0@); lemma_can_add(seconds(items), leaves(a), leaves(b), x.1@, y.1@);
            }
        }
        let ghost items = self.items@;
        let r = self.reduce(id, op);
        proof { let t = choose|t: Tree<HM2>| #[trigger] evals(t, items, id, op) && val(t, items) == r && once(leaves(t), items.len() as int) && leaves(t).len() == items.len(); lemma_schedule2(t, items, id, op); lemma_sums_exact(firsts(items), leaves(t), r.0@); lemma_sums_exact(seconds(items), leaves(t), r.1@); }
        r
    }
}
// a map's entries, taken out in some order
spec fn drained(r: Seq<(String, u64)>, m: Cat) -> bool {
    r.len() == m.len() && (forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> m.dom().contains(r[i].0@) && m[r[i].0@] == r[i].1)
    && (forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i < j < r.len() ==> r[i].0@ != r[j].0@)
    && (forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0@ == k)
}
#[verifier::external_body]
fn vx_drain(m: HashMap<String, u64>) -> (r: Vec<(String, u64)>) ensures drained(r@, m@) { unimplemented!() }
spec fn part(es: Seq<(String, u64)>, n: int, k: Seq<char>) -> int decreases n { if n <= 0 { 0 } else { part(es, n - 1, k) + if es[n - 1].0@ == k { es[n - 1].1 as int } else { 0 } } }
proof fn lemma_part(es: Seq<(String, u64)>, m: Cat, n: int, k: Seq<char>)
    requires drained(es, m), 0 <= n <= es.len()
    ensures part(es, n, k) == if exists|i: int| 0 <= i < n && (#[trigger] es[i]).0@ == k { m[k] as int } else { 0 }
    decreases n
{
    if n > 0 { lemma_part(es, m, n - 1, k); if es[n - 1].0@ == k { if exists|i: int| 0 <= i < n - 1 && (#[trigger] es[i]).0@ == k { let i = choose|i: int| 0 <= i < n - 1 && (#[trigger] es[i]).0@ == k; assert(es[i].0@ != es[n - 1].0@); } } }
}
// r is a with the first n of the listed entries added
spec fn added(a: Cat, es: Seq<(String, u64)>, n: int, r: Cat) -> bool {
    forall|k: Seq<char>| (#[trigger] r.dom().contains(k)) == (a.dom().contains(k) || exists|i: int| 0 <= i < n && (#[trigger] es[i]).0@ == k) && at(r, k) == at(a, k) + part(es, n, k)
}
proof fn lemma_added_step(a: Cat, es: Seq<(String, u64)>, n: int, r: Cat, r2: Cat)
    requires 0 <= n < es.len(), added(a, es, n, r), at(r, es[n].0@) + es[n].1 <= u64::MAX, r2 == r.insert(es[n].0@, (at(r, es[n].0@) + es[n].1) as u64)
    ensures added(a, es, n + 1, r2)
{
    assert forall|k: Seq<char>| (#[trigger] r2.dom().contains(k)) == (a.dom().contains(k) || exists|i: int| 0 <= i < n + 1 && (#[trigger] es[i]).0@ == k) && at(r2, k) == at(a, k) + part(es, n + 1, k) by {
        assert(r.dom().contains(k) == (a.dom().contains(k) || exists|i: int| 0 <= i < n && (#[trigger] es[i]).0@ == k));
        assert(at(r, k) == at(a, k) + part(es, n, k));
        if k == es[n].0@ { assert(r2[k] == at(r, k) + es[n].1); } else if r2.dom().contains(k) { assert(r2[k] == r[k]); }
    }
}
// room for the next value
proof fn lemma_room(a: Cat, es: Seq<(String, u64)>, m: Cat, n: int, r: Cat)
    requires 0 <= n < es.len(), added(a, es, n, r), drained(es, m), can_add(a, m) ensures at(r, es[n].0@) + es[n].1 <= u64::MAX
{ let k = es[n].0@; lemma_part(es, m, n, k); assert(m.dom().contains(k)); assert(at(a, k) + at(m, k) <= u64::MAX); assert(r.dom().contains(k) || !r.dom().contains(k));
  if exists|i: int| 0 <= i < n && (#[trigger] es[i]).0@ == k { let i = choose|i: int| 0 <= i < n && (#[trigger] es[i]).0@ == k; assert(es[i].0@ != es[n].0@); } }
proof fn lemma_added_all(a: Cat, es: Seq<(String, u64)>, m: Cat, r: Cat)
    requires added(a, es, es.len() as int, r), drained(es, m) ensures is_sum(a, m, r)
{
    assert forall|k: Seq<char>| (#[trigger] r.dom().contains(k)) == (a.dom().contains(k) || m.dom().contains(k)) && at(r, k) == at(a, k) + at(m, k) by { lemma_part(es, m, es.len() as int, k); assert(m.dom().contains(k) == exists|i: int| 0 <= i < es.len() && (#[trigger] es[i]).0@ == k); }
}
proof fn lemma_added_none(a: Cat, es: Seq<(String, u64)>) ensures added(a, es, 0, a) { }
