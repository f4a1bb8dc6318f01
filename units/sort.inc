@verbatim
// ---------- sorting: a permutation in the order of the (total) comparison ----------
spec fn vx_perm(p: Seq<int>, n: int) -> bool {
    p.len() == n
    && (forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n)
    && (forall|i: int, j: int| 0 <= i < n && 0 <= j < n && i != j ==> #[trigger] p[i] != #[trigger] p[j])
    && (forall|k: int| #![trigger vx_hit(p, k)] 0 <= k < n ==> vx_hit(p, k))
}
spec fn vx_hit(p: Seq<int>, k: int) -> bool { exists|i: int| 0 <= i < p.len() && #[trigger] p[i] == k }
spec fn vx_reorders<T>(old_s: Seq<T>, new_s: Seq<T>) -> bool {
    new_s.len() == old_s.len() && exists|p: Seq<int>| #[trigger] vx_perm(p, old_s.len() as int) && forall|i: int| 0 <= i < new_s.len() ==> #[trigger] new_s[i] == old_s[p[i]]
}
trait VxSort<T> {
    spec fn vx_items(&self) -> Seq<T>;
    fn vx_sort_by<F: Fn(&T, &T) -> core::cmp::Ordering>(&mut self, f: F)
        requires
            forall|a: T, b: T| #![trigger call_requires(f, (&a, &b))] call_requires(f, (&a, &b)),
            // the comparison is a total order
            forall|a: T, b: T, o: core::cmp::Ordering, q: core::cmp::Ordering| #![trigger call_ensures(f, (&a, &b), o), call_ensures(f, (&b, &a), q)]
                call_ensures(f, (&a, &b), o) && call_ensures(f, (&b, &a), q) ==> (o is Less <==> q is Greater) && (o is Equal <==> q is Equal),
            forall|a: T, b: T, c: T, o: core::cmp::Ordering, q: core::cmp::Ordering, z: core::cmp::Ordering| #![trigger call_ensures(f, (&a, &b), o), call_ensures(f, (&b, &c), q), call_ensures(f, (&a, &c), z)]
                call_ensures(f, (&a, &b), o) && call_ensures(f, (&b, &c), q) && call_ensures(f, (&a, &c), z) && !(o is Greater) && !(q is Greater) ==> !(z is Greater),
        ensures
            vx_reorders(old(self).vx_items(), final(self).vx_items()),
            forall|i: int, j: int| #![trigger final(self).vx_items()[i], final(self).vx_items()[j]] 0 <= i < j < final(self).vx_items().len() ==> exists|o: core::cmp::Ordering| #[trigger] call_ensures(f, (&final(self).vx_items()[i], &final(self).vx_items()[j]), o) && !(o is Greater);
}
impl<T> VxSort<T> for Vec<T> {
    spec fn vx_items(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_sort_by<F: Fn(&T, &T) -> core::cmp::Ordering>(&mut self, f: F) { self.sort_by(f) }
}
