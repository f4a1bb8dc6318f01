@verbatim
// ---------- shared trusted wrappers (prelude.inc) ----------
// panics: reaching one is a proof failure
#[verifier::external_body]
fn vx_panic() -> ! requires false { panic!() }
#[verifier::external_body]
fn vx_check(b: bool) requires b { assert!(b) }
#[verifier::external_body]
fn vx_opaque_string() -> String { String::new() }

// ---- iterator chains are read as eager lists (closures here are pure) ----
// keep exactly the flagged elements, in order
spec fn vx_select<T>(s: Seq<T>, f: Seq<bool>) -> Seq<T> decreases s.len() {
    if s.len() == 0 || f.len() == 0 { Seq::empty() } else if f.last() { vx_select(s.drop_last(), f.drop_last()).push(s.last()) } else { vx_select(s.drop_last(), f.drop_last()) }
}
trait VxList<T>: Sized {
    spec fn vx_seq(&self) -> Seq<T>;
    fn vx_filter<F: Fn(&T) -> bool>(self, f: F) -> (r: Vec<T>)
        requires forall|i: int| 0 <= i < self.vx_seq().len() ==> call_requires(f, (&#[trigger] self.vx_seq()[i],)),
        ensures exists|k: Seq<bool>| k.len() == self.vx_seq().len() && r@ == #[trigger] vx_select(self.vx_seq(), k) && forall|i: int| 0 <= i < k.len() ==> call_ensures(f, (&self.vx_seq()[i],), #[trigger] k[i]);
    fn vx_map<U, F: Fn(T) -> U>(self, f: F) -> (r: Vec<U>)
        requires forall|i: int| 0 <= i < self.vx_seq().len() ==> call_requires(f, (#[trigger] self.vx_seq()[i],)),
        ensures r@.len() == self.vx_seq().len(), forall|i: int| 0 <= i < r@.len() ==> call_ensures(f, (self.vx_seq()[i],), #[trigger] r@[i]);
    fn vx_collect<C: VxFrom<T>>(self) -> (r: C)
        ensures C::vx_from_seq(self.vx_seq(), r);
    fn vx_enumerate(self) -> (r: Vec<(usize, T)>)
        ensures r@ == vx_indexed(self.vx_seq()), self.vx_seq().len() <= usize::MAX;
    fn vx_rev(self) -> (r: Vec<T>)
        ensures r@ == self.vx_seq().reverse();
    fn vx_count(self) -> (r: usize)
        ensures r == self.vx_seq().len();
    fn vx_into_iter(self) -> (r: Vec<T>) ensures r@ == self.vx_seq();
    fn vx_any<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self.vx_seq().len() ==> call_requires(f, (#[trigger] self.vx_seq()[i],)),
        ensures r ==> exists|i: int| 0 <= i < self.vx_seq().len() && call_ensures(f, (#[trigger] self.vx_seq()[i],), true), !r ==> forall|i: int| 0 <= i < self.vx_seq().len() ==> call_ensures(f, (#[trigger] self.vx_seq()[i],), false);
    fn vx_all<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self.vx_seq().len() ==> call_requires(f, (#[trigger] self.vx_seq()[i],)),
        ensures !r ==> exists|i: int| 0 <= i < self.vx_seq().len() && call_ensures(f, (#[trigger] self.vx_seq()[i],), false), r ==> forall|i: int| 0 <= i < self.vx_seq().len() ==> call_ensures(f, (#[trigger] self.vx_seq()[i],), true);
    fn vx_last(self) -> (r: Option<T>) ensures self.vx_seq().len() == 0 ==> r is None, self.vx_seq().len() > 0 ==> r == Some(self.vx_seq().last());
}
impl<T> VxList<T> for Vec<T> {
    spec fn vx_seq(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_filter<F: Fn(&T) -> bool>(self, f: F) -> (r: Vec<T>) { self.into_iter().filter(|x| f(x)).collect() }
    #[verifier::external_body] fn vx_map<U, F: Fn(T) -> U>(self, f: F) -> (r: Vec<U>) { self.into_iter().map(f).collect() }
    #[verifier::external_body] fn vx_collect<C: VxFrom<T>>(self) -> (r: C) { C::vx_build(self) }
    #[verifier::external_body] fn vx_enumerate(self) -> (r: Vec<(usize, T)>) { self.into_iter().enumerate().collect() }
    #[verifier::external_body] fn vx_rev(self) -> (r: Vec<T>) { self.into_iter().rev().collect() }
    #[verifier::external_body] fn vx_count(self) -> (r: usize) { self.len() }
    #[verifier::external_body] fn vx_into_iter(self) -> (r: Vec<T>) { self }
    #[verifier::external_body] fn vx_any<F: Fn(T) -> bool>(self, f: F) -> (r: bool) { self.into_iter().any(f) }
    #[verifier::external_body] fn vx_all<F: Fn(T) -> bool>(self, f: F) -> (r: bool) { self.into_iter().all(f) }
    #[verifier::external_body] fn vx_last(self) -> (r: Option<T>) { self.into_iter().last() }
}
trait VxZip<T, U> { fn vx_zip(self, o: Vec<U>) -> Vec<(T, U)>; }
impl<T, U> VxZip<T, U> for Vec<T> { #[verifier::external_body] fn vx_zip(self, o: Vec<U>) -> (r: Vec<(T, U)>) ensures r@ == vx_zipped(self@, o@) { self.into_iter().zip(o).collect() } }
spec fn vx_zipped<T, U>(a: Seq<T>, b: Seq<U>) -> Seq<(T, U)> { Seq::new(if a.len() <= b.len() { a.len() } else { b.len() }, |i: int| (a[i], b[i])) }
spec fn vx_flat<T>(s: Seq<Seq<T>>) -> Seq<T> decreases s.len() { if s.len() == 0 { Seq::empty() } else { vx_flat(s.drop_last()) + s.last() } }
spec fn vx_views<T>(k: Seq<Vec<T>>) -> Seq<Seq<T>> { Seq::new(k.len(), |i: int| k[i]@) }
trait VxFlat<T>: Sized {
    spec fn vx_els(&self) -> Seq<T>;
    fn vx_flat_map<U, F: Fn(T) -> Vec<U>>(self, f: F) -> (r: Vec<U>)
        requires forall|i: int| 0 <= i < self.vx_els().len() ==> call_requires(f, (#[trigger] self.vx_els()[i],)),
        ensures exists|k: Seq<Vec<U>>| k.len() == self.vx_els().len() && r@ == #[trigger] vx_flat(vx_views(k)) && forall|i: int| 0 <= i < k.len() ==> call_ensures(f, (self.vx_els()[i],), #[trigger] k[i]);
}
impl<T> VxFlat<T> for Vec<T> {
    spec fn vx_els(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_flat_map<U, F: Fn(T) -> Vec<U>>(self, f: F) -> (r: Vec<U>) { self.into_iter().flat_map(f).collect() }
}
trait VxFrom<T>: Sized {
    spec fn vx_from_seq(s: Seq<T>, r: Self) -> bool;
    fn vx_build(v: Vec<T>) -> (r: Self) ensures Self::vx_from_seq(v@, r);
}
impl<T> VxFrom<T> for Vec<T> {
    spec fn vx_from_seq(s: Seq<T>, r: Self) -> bool { r@ == s }
    fn vx_build(v: Vec<T>) -> (r: Self) { v }
}
trait VxRefList<T> {
    spec fn vx_refs(&self) -> Seq<T>;
    fn vx_iter(&self) -> (r: Vec<&T>) ensures r.vx_seq() == r@, r@.len() == self.vx_refs().len(), forall|i: int| #![trigger r@[i]] #![trigger self.vx_refs()[i]] 0 <= i < r@.len() ==> r@[i] == &self.vx_refs()[i];
}
impl<T> VxRefList<T> for Vec<T> {
    spec fn vx_refs(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_iter(&self) -> (r: Vec<&T>) { self.iter().collect() }
}
trait VxExtend<T> {
    fn vx_extend(&mut self, other: Vec<T>);
}
impl<T> VxExtend<T> for Vec<T> {
    #[verifier::external_body]
    fn vx_extend(&mut self, other: Vec<T>) ensures final(self)@ == old(self)@ + other@ { self.extend(other) }
}
// `copied` on a list of references
#[verifier::external_body]
fn vx_copied_list<'a, T: Copy>(v: Vec<&'a T>) -> (r: Vec<T>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == *v@[i] { v.into_iter().copied().collect() }
trait VxCopied<T> { fn vx_copied(self) -> Vec<T>; }
impl<'a, T: Copy> VxCopied<T> for Vec<&'a T> {
    #[verifier::external_body]
    fn vx_copied(self) -> (r: Vec<T>) ensures r@ == vx_deref_seq(self@) { self.into_iter().copied().collect() }
}
spec fn vx_deref_seq<T>(s: Seq<&T>) -> Seq<T> { Seq::new(s.len(), |i: int| *s[i]) }
// the members of an integer range
trait VxStep: Sized { spec fn vx_members(a: Self, b: Self) -> Seq<Self>; fn vx_list(a: Self, b: Self) -> (r: Vec<Self>) ensures r@ == Self::vx_members(a, b); }
impl VxStep for usize { spec fn vx_members(a: usize, b: usize) -> Seq<usize> { Seq::new(if a <= b { (b - a) as nat } else { 0 }, |i: int| (a + i) as usize) } #[verifier::external_body] fn vx_list(a: usize, b: usize) -> (r: Vec<usize>) { (a..b).collect() } }
impl VxStep for i32 { spec fn vx_members(a: i32, b: i32) -> Seq<i32> { Seq::new(if a <= b { (b - a) as nat } else { 0 }, |i: int| (a + i) as i32) } #[verifier::external_body] fn vx_list(a: i32, b: i32) -> (r: Vec<i32>) { (a..b).collect() } }
fn vx_range_list<T: VxStep>(a: T, b: T) -> (r: Vec<T>) ensures r@ == T::vx_members(a, b) { T::vx_list(a, b) }
spec fn vx_indexed<T>(s: Seq<T>) -> Seq<(usize, T)> { Seq::new(s.len(), |i: int| (i as usize, s[i])) }
trait VxVecEmpty<T> { spec fn vx_items(&self) -> Seq<T>; fn vx_is_empty(&self) -> (r: bool) ensures r == (self.vx_items().len() == 0); }
impl<T> VxVecEmpty<T> for Vec<T> { spec fn vx_items(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_is_empty(&self) -> (r: bool) { self.is_empty() } }
@include std.inc
