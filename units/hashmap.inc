@verbatim
// ---------- std::collections::HashMap as a finite map (keys compared by value) ----------
trait VxKey { type KV; spec fn kv(&self) -> Self::KV; }
impl VxKey for String { type KV = Seq<char>; spec fn kv(&self) -> Seq<char> { self@ } }
impl VxKey for str { type KV = Seq<char>; spec fn kv(&self) -> Seq<char> { self@ } }
impl VxKey for usize { type KV = usize; spec fn kv(&self) -> usize { *self } }
impl<'a, T: VxKey + ?Sized> VxKey for &'a T { type KV = T::KV; spec fn kv(&self) -> T::KV { (**self).kv() } }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
struct HashMap<K, V> { _k: Vec<K>, _v: Vec<V> }
impl<K: VxKey, V> View for HashMap<K, V> { type V = Map<K::KV, V>; uninterp spec fn view(&self) -> Map<K::KV, V>; }
#[verifier::reject_recursive_types(K)]
struct VxEntry<'a, K: VxKey, V> { map: &'a mut HashMap<K, V>, key: K }
// the entries of a map in some order: each exactly once
spec fn vx_lists_map<K: VxKey, V>(r: Seq<(&K, &V)>, m: Map<K::KV, V>) -> bool {
    r.len() == m.len()
    && (forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> m.dom().contains(r[i].0.kv()) && m[r[i].0.kv()] == *r[i].1)
    && (forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i < j < r.len() ==> r[i].0.kv() != r[j].0.kv())
    && (forall|k: K::KV| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0.kv() == k)
}
spec fn vx_lists_keys<K: VxKey, V>(r: Seq<&K>, m: Map<K::KV, V>) -> bool {
    r.len() == m.len()
    && (forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> m.dom().contains(r[i].kv()))
    && (forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i < j < r.len() ==> r[i].kv() != r[j].kv())
    && (forall|k: K::KV| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).kv() == k)
}
impl<K: VxKey, V> HashMap<K, V> {
    #[verifier::external_body]
    fn new() -> (r: Self) ensures r@ == Map::<K::KV, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn default() -> (r: Self) ensures r@ == Map::<K::KV, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    fn contains_key<Q: VxKey<KV = K::KV> + ?Sized>(&self, q: &Q) -> (r: bool) ensures r == self@.dom().contains(q.kv()) { unimplemented!() }
    #[verifier::external_body]
    fn get<Q: VxKey<KV = K::KV> + ?Sized>(&self, q: &Q) -> (r: Option<&V>)
      ensures r == if self@.dom().contains(q.kv()) { Some(&self@[q.kv()]) } else { None } { unimplemented!() }
    #[verifier::external_body]
    fn get_mut<'a, Q: VxKey<KV = K::KV> + ?Sized>(&'a mut self, q: &Q) -> (r: Option<&'a mut V>)
      ensures old(self)@.dom().contains(q.kv()) ==> r is Some && *r->0 == old(self)@[q.kv()] && final(self)@ == old(self)@.insert(q.kv(), *final(r->0)),
         !old(self)@.dom().contains(q.kv()) ==> r is None && final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
      ensures final(self)@ == old(self)@.insert(k.kv(), v), r == if old(self)@.dom().contains(k.kv()) { Some(old(self)@[k.kv()]) } else { None } { unimplemented!() }
    #[verifier::external_body]
    fn remove<Q: VxKey<KV = K::KV> + ?Sized>(&mut self, q: &Q) -> (r: Option<V>)
      ensures final(self)@ == old(self)@.remove(q.kv()), r == if old(self)@.dom().contains(q.kv()) { Some(old(self)@[q.kv()]) } else { None } { unimplemented!() }
    fn entry<'a>(&'a mut self, key: K) -> (r: VxEntry<'a, K, V>) ensures r.map@ == old(self)@, r.key == key, final(self)@ == final(r.map)@ { VxEntry { map: self, key } }
    #[verifier::external_body]
    fn vx_iter<'a>(&'a self) -> (r: Vec<(&'a K, &'a V)>) ensures vx_lists_map(r@, self@) { unimplemented!() }
    #[verifier::external_body]
    fn keys<'a>(&'a self) -> (r: Vec<&'a K>) ensures vx_lists_keys(r@, self@) { unimplemented!() }
}
impl<'a, K: VxKey, V> VxEntry<'a, K, V> {
    #[verifier::external_body]
    fn or_insert(self, d: V) -> (r: &'a mut V)
      ensures *r == (if old(self.map)@.dom().contains(self.key.kv()) { old(self.map)@[self.key.kv()] } else { d }),
        final(self.map)@ == old(self.map)@.insert(self.key.kv(), *final(r)) { unimplemented!() }
}
