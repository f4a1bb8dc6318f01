@rem std.inc: what the Rust standard library documents about functions the code may call
@verbatim
// ================= the standard library, as documented (assumed) =================
pub uninterp spec fn is_ws(c: char) -> bool;
pub uninterp spec fn alnum(c: char) -> bool;
pub uninterp spec fn alpha(c: char) -> bool;
pub uninterp spec fn numer(c: char) -> bool;
pub uninterp spec fn upperc(c: char) -> bool;
pub uninterp spec fn lowerc(c: char) -> bool;
pub uninterp spec fn ctrlc(c: char) -> bool;
pub open spec fn a_upper(c: char) -> bool { 'A' <= c && c <= 'Z' }
pub open spec fn a_lower(c: char) -> bool { 'a' <= c && c <= 'z' }
pub open spec fn a_digit(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn a_ws(c: char) -> bool { c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\x0C' }
pub open spec fn a_low(c: char) -> char { if a_upper(c) { ((c as u32) + 32) as char } else { c } }
pub open spec fn a_up(c: char) -> char { if a_lower(c) { ((c as u32) - 32) as char } else { c } }
pub assume_specification[char::is_alphabetic](c: char) -> (r: bool) ensures r == alpha(c), r ==> alnum(c);
pub assume_specification[char::is_alphanumeric](c: char) -> (r: bool) ensures r == alnum(c);
pub assume_specification[char::is_numeric](c: char) -> (r: bool) ensures r == numer(c), r ==> alnum(c);
pub assume_specification[char::is_uppercase](c: char) -> (r: bool) ensures r == upperc(c);
pub assume_specification[char::is_lowercase](c: char) -> (r: bool) ensures r == lowerc(c);
pub assume_specification[char::is_control](c: char) -> (r: bool) ensures r == ctrlc(c);
pub assume_specification[char::is_ascii](c: &char) -> (r: bool) ensures r == ((*c as u32) < 128);
pub assume_specification[char::is_ascii_whitespace](c: &char) -> (r: bool) ensures r == a_ws(*c), r ==> is_ws(*c);
pub assume_specification[char::is_ascii_digit](c: &char) -> (r: bool) ensures r == a_digit(*c), r ==> alnum(*c) && numer(*c);
pub assume_specification[char::is_ascii_uppercase](c: &char) -> (r: bool) ensures r == a_upper(*c), r ==> alnum(*c) && upperc(*c);
pub assume_specification[char::is_ascii_lowercase](c: &char) -> (r: bool) ensures r == a_lower(*c), r ==> alnum(*c);
pub assume_specification[char::is_ascii_alphabetic](c: &char) -> (r: bool) ensures r == (a_upper(*c) || a_lower(*c)), r ==> alnum(*c) && alpha(*c);
pub assume_specification[char::is_ascii_alphanumeric](c: &char) -> (r: bool) ensures r == (a_upper(*c) || a_lower(*c) || a_digit(*c)), r ==> alnum(*c);
pub assume_specification[char::is_ascii_punctuation](c: &char) -> (r: bool) ensures r ==> !alnum(*c) && !is_ws(*c) && (*c as u32) < 128;
pub assume_specification[char::eq_ignore_ascii_case](c: &char, d: &char) -> (r: bool) ensures r == (a_low(*c) == a_low(*d));
pub assume_specification[char::to_ascii_lowercase](c: &char) -> (r: char) ensures r == a_low(*c);
pub assume_specification[char::to_ascii_uppercase](c: &char) -> (r: char) ensures r == a_up(*c);
pub assume_specification[str::eq_ignore_ascii_case](c: &str, d: &str) -> (r: bool) ensures r == (c@.len() == d@.len() && forall|i: int| 0 <= i < c@.len() ==> a_low(#[trigger] c@[i]) == a_low(d@[i]));
pub assume_specification<T, U, F: FnOnce(T) -> U>[Option::<T>::map_or](o: Option<T>, d: U, f: F) -> (r: U) requires o is Some ==> f.requires((o->0,)), ensures o is None ==> r == d, o is Some ==> f.ensures((o->0,), r);
pub assume_specification<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>[Option::<T>::map_or_else](o: Option<T>, d: D, f: F) -> (r: U) requires o is Some ==> f.requires((o->0,)), o is None ==> d.requires(()), ensures o is None ==> d.ensures((), r), o is Some ==> f.ensures((o->0,), r);
pub assume_specification<T, F: FnOnce(T) -> bool>[Option::<T>::is_some_and](o: Option<T>, f: F) -> (r: bool) requires o is Some ==> f.requires((o->0,)), ensures o is None ==> !r, o is Some ==> f.ensures((o->0,), r);
pub assume_specification<T, F: FnOnce(T) -> bool>[Option::<T>::is_none_or](o: Option<T>, f: F) -> (r: bool) requires o is Some ==> f.requires((o->0,)), ensures o is None ==> r, o is Some ==> f.ensures((o->0,), r);
pub assume_specification<T>[Option::<T>::or](o: Option<T>, p: Option<T>) -> (r: Option<T>) ensures r == if o is Some { o } else { p };
pub assume_specification<T, F: FnOnce() -> Option<T>>[Option::<T>::or_else](o: Option<T>, f: F) -> (r: Option<T>) requires o is None ==> f.requires(()), ensures o is Some ==> r == o, o is None ==> f.ensures((), r);
pub assume_specification<T, U>[Option::<T>::and](o: Option<T>, p: Option<U>) -> (r: Option<U>) ensures r == if o is Some { p } else { None };
pub assume_specification<T, F: FnOnce(&T) -> bool>[Option::<T>::filter](o: Option<T>, f: F) -> (r: Option<T>) requires o is Some ==> f.requires((&o->0,)), ensures o is None ==> r is None, o is Some ==> (r == o && f.ensures((&o->0,), true) || r is None && f.ensures((&o->0,), false));
pub assume_specification<T, E, U, F: FnOnce(T) -> U>[Result::<T, E>::map_or](o: Result<T, E>, d: U, f: F) -> (r: U) requires o is Ok ==> f.requires((o->Ok_0,)), ensures o is Err ==> r == d, o is Ok ==> f.ensures((o->Ok_0,), r);
pub assume_specification<T, E>[Result::<T, E>::unwrap_or](o: Result<T, E>, d: T) -> (r: T) ensures o is Err ==> r == d, o is Ok ==> r == o->Ok_0;
pub assume_specification<T, E, F: FnOnce(E) -> T>[Result::<T, E>::unwrap_or_else](o: Result<T, E>, f: F) -> (r: T) requires o is Err ==> f.requires((o->Err_0,)), ensures o is Err ==> f.ensures((o->Err_0,), r), o is Ok ==> r == o->Ok_0;
pub assume_specification<T, E, U, F: FnOnce(T) -> Result<U, E>>[Result::<T, E>::and_then](o: Result<T, E>, f: F) -> (r: Result<U, E>) requires o is Ok ==> f.requires((o->Ok_0,)), ensures o is Err ==> r is Err && r->Err_0 == o->Err_0, o is Ok ==> f.ensures((o->Ok_0,), r);
pub assume_specification[usize::is_power_of_two](a: usize) -> (r: bool);
pub assume_specification[i32::saturating_sub](a: i32, b: i32) -> (r: i32) ensures r == if a - b < i32::MIN { i32::MIN } else if a - b > i32::MAX { i32::MAX } else { (a - b) as i32 };
pub assume_specification[i32::saturating_add](a: i32, b: i32) -> (r: i32) ensures r == if a + b < i32::MIN { i32::MIN } else if a + b > i32::MAX { i32::MAX } else { (a + b) as i32 };
pub assume_specification<T>[<[T]>::swap](v: &mut [T], i: usize, j: usize) requires i < old(v)@.len(), j < old(v)@.len(), ensures final(v)@ == old(v)@.update(i as int, old(v)@[j as int]).update(j as int, old(v)@[i as int]);
pub assume_specification<T>[<[T]>::reverse](v: &mut [T]) ensures final(v)@ == old(v)@.reverse();
pub assume_specification[String::with_capacity](n: usize) -> (r: String) ensures r@ == Seq::<char>::empty();
trait VxRetain<T>: Sized {
    spec fn vr(&self) -> Seq<T>;
    fn vx_retain<F: Fn(&T) -> bool>(&mut self, f: F)
        requires forall|i: int| 0 <= i < old(self).vr().len() ==> call_requires(f, (&#[trigger] old(self).vr()[i],)),
        ensures exists|k: Seq<bool>| k.len() == old(self).vr().len() && final(self).vr() == #[trigger] vx_select(old(self).vr(), k) && forall|i: int| 0 <= i < k.len() ==> call_ensures(f, (&old(self).vr()[i],), #[trigger] k[i]);
}
impl<T> VxRetain<T> for Vec<T> { spec fn vr(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_retain<F: Fn(&T) -> bool>(&mut self, f: F) { self.retain(f) } }
trait VxOptCopied<T> { fn vx_copied(self) -> Option<T>; }
impl<'a, T: Copy> VxOptCopied<T> for Option<&'a T> { #[verifier::external_body] fn vx_copied(self) -> (r: Option<T>) ensures self is None ==> r is None, self is Some ==> r == Some(*(self->0)) { self.copied() } }
trait VxChar {
    fn vx_is_whitespace(self) -> bool;
    fn vx_is_alphanumeric(self) -> bool;
}
impl VxChar for char {
    #[verifier::external_body] fn vx_is_whitespace(self) -> (r: bool) ensures r == is_ws(self) { self.is_whitespace() }
    #[verifier::external_body] fn vx_is_alphanumeric(self) -> (r: bool) ensures r == alnum(self) { self.is_alphanumeric() }
}
// ---- patterns of str methods: a character, a string, a predicate ----
trait VpPat: Sized {
    spec fn hit(&self, w: Seq<char>) -> bool;      // w certainly matches
    spec fn miss(&self, w: Seq<char>) -> bool;     // w certainly does not
    spec fn can(&self) -> bool;
    spec fn single(&self) -> bool;                 // matches one character at a time
    spec fn txt(&self) -> Option<Seq<char>>;       // the one text it matches
}
impl VpPat for char { spec fn hit(&self, w: Seq<char>) -> bool { w.len() == 1 && w[0] == *self } spec fn miss(&self, w: Seq<char>) -> bool { !self.hit(w) } spec fn can(&self) -> bool { true }  spec fn single(&self) -> bool { true }  spec fn txt(&self) -> Option<Seq<char>> { Some(seq![*self]) } }
impl<'a> VpPat for &'a str { spec fn hit(&self, w: Seq<char>) -> bool { w == (*self)@ } spec fn miss(&self, w: Seq<char>) -> bool { w != (*self)@ } spec fn can(&self) -> bool { true }  spec fn single(&self) -> bool { false }  spec fn txt(&self) -> Option<Seq<char>> { Some((*self)@) } }
impl<'a> VpPat for &'a String { spec fn hit(&self, w: Seq<char>) -> bool { w == (*self)@ } spec fn miss(&self, w: Seq<char>) -> bool { w != (*self)@ } spec fn can(&self) -> bool { true }  spec fn single(&self) -> bool { false }  spec fn txt(&self) -> Option<Seq<char>> { Some((*self)@) } }
impl<F: Fn(char) -> bool> VpPat for F { spec fn hit(&self, w: Seq<char>) -> bool { w.len() == 1 && call_ensures(*self, (w[0],), true) } spec fn miss(&self, w: Seq<char>) -> bool { w.len() == 1 ==> call_ensures(*self, (w[0],), false) } spec fn can(&self) -> bool { forall|c: char| #[trigger] call_requires(*self, (c,)) }  spec fn single(&self) -> bool { true }  spec fn txt(&self) -> Option<Seq<char>> { None } }
impl<const N: usize> VpPat for [char; N] { spec fn hit(&self, w: Seq<char>) -> bool { w.len() == 1 && self@.contains(w[0]) } spec fn miss(&self, w: Seq<char>) -> bool { !self.hit(w) } spec fn can(&self) -> bool { true }  spec fn single(&self) -> bool { true }  spec fn txt(&self) -> Option<Seq<char>> { None } }
impl<'a, const N: usize> VpPat for &'a [char; N] { spec fn hit(&self, w: Seq<char>) -> bool { w.len() == 1 && self@.contains(w[0]) } spec fn miss(&self, w: Seq<char>) -> bool { !self.hit(w) } spec fn can(&self) -> bool { true }  spec fn single(&self) -> bool { true }  spec fn txt(&self) -> Option<Seq<char>> { None } }
spec fn vx_prefix(p: Seq<char>, s: Seq<char>) -> bool { p.len() <= s.len() && s.take(p.len() as int) == p }
spec fn vx_suffix(p: Seq<char>, s: Seq<char>) -> bool { p.len() <= s.len() && s.skip(s.len() - p.len()) == p }
trait VpStr {
    spec fn vp(&self) -> Seq<char>;
    fn vp_ends_with<P: VpPat>(&self, p: P) -> (r: bool) requires p.can() ensures r ==> exists|i: int| 0 <= i <= self.vp().len() && #[trigger] p.hit(self.vp().skip(i)), !r ==> forall|i: int| 0 <= i <= self.vp().len() ==> #[trigger] p.miss(self.vp().skip(i)), p.txt() is Some ==> r == vx_suffix(p.txt()->0, self.vp());
    fn vp_starts_with<P: VpPat>(&self, p: P) -> (r: bool) requires p.can() ensures r ==> exists|i: int| 0 <= i <= self.vp().len() && #[trigger] p.hit(self.vp().take(i)), !r ==> forall|i: int| 0 <= i <= self.vp().len() ==> #[trigger] p.miss(self.vp().take(i)), p.txt() is Some ==> r == vx_prefix(p.txt()->0, self.vp());
    fn vp_trim_end_matches<'a, P: VpPat>(&'a self, p: P) -> (r: &'a str) requires p.can() ensures p.single() ==> exists|k: int| 0 <= k <= self.vp().len() && r@ == #[trigger] self.vp().take(k) && (forall|i: int| k <= i < self.vp().len() ==> p.hit(seq![#[trigger] self.vp()[i]])) && (k > 0 ==> p.miss(seq![self.vp()[k - 1]]));
    fn vp_trim_start_matches<'a, P: VpPat>(&'a self, p: P) -> (r: &'a str) requires p.can() ensures p.single() ==> exists|k: int| 0 <= k <= self.vp().len() && r@ == #[trigger] self.vp().skip(k) && (forall|i: int| 0 <= i < k ==> p.hit(seq![#[trigger] self.vp()[i]])) && (k < self.vp().len() ==> p.miss(seq![self.vp()[k]]));
    fn vp_trim_matches<'a, P: VpPat>(&'a self, p: P) -> (r: &'a str) requires p.can();
    fn vp_strip_prefix<'a, P: VpPat>(&'a self, p: P) -> (r: Option<&'a str>) requires p.can() ensures r is Some ==> exists|i: int| 0 <= i <= self.vp().len() && #[trigger] p.hit(self.vp().take(i)) && (r->0)@ == self.vp().skip(i), r is None ==> forall|i: int| 0 <= i <= self.vp().len() ==> #[trigger] p.miss(self.vp().take(i)), p.txt() is Some ==> (r is Some == vx_prefix(p.txt()->0, self.vp())) && (r is Some ==> (r->0)@ == self.vp().skip(p.txt()->0.len() as int));
    fn vp_strip_suffix<'a, P: VpPat>(&'a self, p: P) -> (r: Option<&'a str>) requires p.can() ensures r is Some ==> exists|i: int| 0 <= i <= self.vp().len() && #[trigger] p.hit(self.vp().skip(i)) && (r->0)@ == self.vp().take(i), r is None ==> forall|i: int| 0 <= i <= self.vp().len() ==> #[trigger] p.miss(self.vp().skip(i)), p.txt() is Some ==> (r is Some == vx_suffix(p.txt()->0, self.vp())) && (r is Some ==> (r->0)@ == self.vp().take(self.vp().len() - p.txt()->0.len()));
    fn vp_replace<P: VpPat>(&self, p: P, to: &str) -> (r: String) requires p.can();
    fn vp_replacen<P: VpPat>(&self, p: P, to: &str, n: usize) -> (r: String) requires p.can();
    fn vp_rsplit<'a, P: VpPat>(&'a self, p: P) -> (r: Vec<&'a str>) requires p.can() ensures r@.len() > 0;
    fn vp_splitn<'a, P: VpPat>(&'a self, n: usize, p: P) -> (r: Vec<&'a str>) requires p.can() ensures r@.len() <= n, n > 0 ==> r@.len() > 0, n == 1 ==> r@[0]@ == self.vp();
    fn vp_rsplitn<'a, P: VpPat>(&'a self, n: usize, p: P) -> (r: Vec<&'a str>) requires p.can() ensures r@.len() <= n, n > 0 ==> r@.len() > 0, n == 1 ==> r@[0]@ == self.vp();
    fn vp_split_once<'a, P: VpPat>(&'a self, p: P) -> (r: Option<(&'a str, &'a str)>) requires p.can();
    fn vp_rsplit_once<'a, P: VpPat>(&'a self, p: P) -> (r: Option<(&'a str, &'a str)>) requires p.can();
}
impl VpStr for str {
    spec fn vp(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vp_ends_with<P: VpPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vp_starts_with<P: VpPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vp_trim_end_matches<'a, P: VpPat>(&'a self, p: P) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body] fn vp_trim_start_matches<'a, P: VpPat>(&'a self, p: P) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body] fn vp_trim_matches<'a, P: VpPat>(&'a self, p: P) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body] fn vp_strip_prefix<'a, P: VpPat>(&'a self, p: P) -> (r: Option<&'a str>) { unimplemented!() }
    #[verifier::external_body] fn vp_strip_suffix<'a, P: VpPat>(&'a self, p: P) -> (r: Option<&'a str>) { unimplemented!() }
    #[verifier::external_body] fn vp_replace<P: VpPat>(&self, p: P, to: &str) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vp_replacen<P: VpPat>(&self, p: P, to: &str, n: usize) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vp_rsplit<'a, P: VpPat>(&'a self, p: P) -> (r: Vec<&'a str>) { unimplemented!() }
    #[verifier::external_body] fn vp_splitn<'a, P: VpPat>(&'a self, n: usize, p: P) -> (r: Vec<&'a str>) { unimplemented!() }
    #[verifier::external_body] fn vp_rsplitn<'a, P: VpPat>(&'a self, n: usize, p: P) -> (r: Vec<&'a str>) { unimplemented!() }
    #[verifier::external_body] fn vp_split_once<'a, P: VpPat>(&'a self, p: P) -> (r: Option<(&'a str, &'a str)>) { unimplemented!() }
    #[verifier::external_body] fn vp_rsplit_once<'a, P: VpPat>(&'a self, p: P) -> (r: Option<(&'a str, &'a str)>) { unimplemented!() }
}
// ---- further list adaptors (lists stand for iterators) ----
spec fn vx_all_before<T>(s: Seq<T>, k: int, f: spec_fn(T) -> bool) -> bool { forall|i: int| 0 <= i < k ==> f(#[trigger] s[i]) }
trait VxMore<T>: Sized {
    spec fn vm(&self) -> Seq<T>;
    fn take(self, n: usize) -> (r: Vec<T>) ensures r@ == if n < self.vm().len() { self.vm().take(n as int) } else { self.vm() };
    fn skip(self, n: usize) -> (r: Vec<T>) ensures r@ == if n < self.vm().len() { self.vm().skip(n as int) } else { Seq::<T>::empty() };
    fn take_while<F: Fn(&T) -> bool>(self, f: F) -> (r: Vec<T>)
        requires forall|i: int| 0 <= i < self.vm().len() ==> call_requires(f, (&#[trigger] self.vm()[i],)),
        ensures r@.len() <= self.vm().len(), r@ == self.vm().take(r@.len() as int), forall|i: int| 0 <= i < r@.len() ==> call_ensures(f, (&#[trigger] self.vm()[i],), true), r@.len() < self.vm().len() ==> call_ensures(f, (&self.vm()[r@.len() as int],), false);
    fn skip_while<F: Fn(&T) -> bool>(self, f: F) -> (r: Vec<T>)
        requires forall|i: int| 0 <= i < self.vm().len() ==> call_requires(f, (&#[trigger] self.vm()[i],)),
        ensures r@.len() <= self.vm().len(), r@ == self.vm().skip(self.vm().len() - r@.len()), forall|i: int| 0 <= i < self.vm().len() - r@.len() ==> call_ensures(f, (&#[trigger] self.vm()[i],), true), 0 < r@.len() ==> call_ensures(f, (&r@[0],), false);
    fn position<F: Fn(T) -> bool>(self, f: F) -> (r: Option<usize>)
        requires forall|i: int| 0 <= i < self.vm().len() ==> call_requires(f, (#[trigger] self.vm()[i],)),
        ensures r is Some ==> (r->0) < self.vm().len() && call_ensures(f, (self.vm()[(r->0) as int],), true) && forall|i: int| 0 <= i < (r->0) ==> call_ensures(f, (#[trigger] self.vm()[i],), false),
            r is None ==> forall|i: int| 0 <= i < self.vm().len() ==> call_ensures(f, (#[trigger] self.vm()[i],), false);
    fn find<F: Fn(&T) -> bool>(self, f: F) -> (r: Option<T>)
        requires forall|i: int| 0 <= i < self.vm().len() ==> call_requires(f, (&#[trigger] self.vm()[i],)),
        ensures r is Some ==> exists|k: int| 0 <= k < self.vm().len() && r->0 == #[trigger] self.vm()[k] && call_ensures(f, (&self.vm()[k],), true) && forall|i: int| 0 <= i < k ==> call_ensures(f, (&#[trigger] self.vm()[i],), false),
            r is None ==> forall|i: int| 0 <= i < self.vm().len() ==> call_ensures(f, (&#[trigger] self.vm()[i],), false);
    fn nth(self, n: usize) -> (r: Option<T>) ensures n < self.vm().len() ==> r == Some(self.vm()[n as int]), n >= self.vm().len() ==> r is None;
    fn next(&mut self) -> (r: Option<T>) ensures old(self).vm().len() == 0 ==> r is None && final(self).vm() == old(self).vm(), old(self).vm().len() > 0 ==> r == Some(old(self).vm()[0]) && final(self).vm() == old(self).vm().skip(1);
    fn chain(self, o: Vec<T>) -> (r: Vec<T>) ensures r@ == self.vm() + o@;
    fn enumerate(self) -> (r: Vec<(usize, T)>) ensures r@ == vx_indexed(self.vm()), self.vm().len() <= usize::MAX;
    fn rev(self) -> (r: Vec<T>) ensures r@ == self.vm().reverse();
    fn count(self) -> (r: usize) ensures r == self.vm().len();
}
impl<T> VxMore<T> for Vec<T> {
    spec fn vm(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn take(self, n: usize) -> (r: Vec<T>) { self.into_iter().take(n).collect() }
    #[verifier::external_body] fn skip(self, n: usize) -> (r: Vec<T>) { self.into_iter().skip(n).collect() }
    #[verifier::external_body] fn take_while<F: Fn(&T) -> bool>(self, f: F) -> (r: Vec<T>) { self.into_iter().take_while(|x| f(x)).collect() }
    #[verifier::external_body] fn skip_while<F: Fn(&T) -> bool>(self, f: F) -> (r: Vec<T>) { self.into_iter().skip_while(|x| f(x)).collect() }
    #[verifier::external_body] fn position<F: Fn(T) -> bool>(self, f: F) -> (r: Option<usize>) { self.into_iter().position(f) }
    #[verifier::external_body] fn find<F: Fn(&T) -> bool>(self, f: F) -> (r: Option<T>) { self.into_iter().find(|x| f(x)) }
    #[verifier::external_body] fn nth(self, n: usize) -> (r: Option<T>) { self.into_iter().nth(n) }
    #[verifier::external_body] fn next(&mut self) -> (r: Option<T>) { if self.len() == 0 { None } else { Some(self.remove(0)) } }
    #[verifier::external_body] fn chain(self, o: Vec<T>) -> (r: Vec<T>) { self.into_iter().chain(o).collect() }
    #[verifier::external_body] fn enumerate(self) -> (r: Vec<(usize, T)>) { self.into_iter().enumerate().collect() }
    #[verifier::external_body] fn rev(self) -> (r: Vec<T>) { self.into_iter().rev().collect() }
    #[verifier::external_body] fn count(self) -> (r: usize) { self.len() }
}
@default ends_with => vp_ends_with
@default starts_with => vp_starts_with
@default trim_end_matches => vp_trim_end_matches
@default trim_start_matches => vp_trim_start_matches
@default trim_matches => vp_trim_matches
@default strip_prefix => vp_strip_prefix
@default strip_suffix => vp_strip_suffix
@default replace => vp_replace
@default replacen => vp_replacen
@default is_whitespace => vx_is_whitespace
@default is_alphanumeric => vx_is_alphanumeric
@default rsplit => vp_rsplit
@default splitn => vp_splitn
@default rsplitn => vp_rsplitn
@default split_once => vp_split_once
@default rsplit_once => vp_rsplit_once
@default retain => vx_retain
@default any => vx_any
@default all => vx_all
@default zip => vx_zip
@default flat_map => vx_flat_map
@verbatim
pub assume_specification<T>[core::mem::drop::<T>](x: T);
pub assume_specification<T>[core::mem::replace::<T>](a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b;
pub assume_specification<T: Default>[core::mem::take::<T>](a: &mut T) -> (r: T) ensures r == *old(a), call_ensures(T::default, (), *final(a));
pub assume_specification<'a, T: Copy>[Option::<&'a T>::copied](o: Option<&'a T>) -> (r: Option<T>) ensures r is Some == o is Some, o is Some ==> r == Some(*o->0);
pub assume_specification<T, U>[Option::<T>::zip](o: Option<T>, p: Option<U>) -> (r: Option<(T, U)>) ensures r == if o is Some && p is Some { Some((o->0, p->0)) } else { None };
pub assume_specification<T>[Option::<T>::xor](o: Option<T>, p: Option<T>) -> (r: Option<T>) ensures r == if o is Some && p is None { o } else if o is None && p is Some { p } else { None };
pub assume_specification<T>[Option::<T>::replace](o: &mut Option<T>, x: T) -> (r: Option<T>) ensures r == *old(o), *final(o) == Some(x);
pub assume_specification<T>[bool::then_some](b: bool, x: T) -> (r: Option<T>) ensures r == if b { Some(x) } else { None };
pub assume_specification[usize::abs_diff](a: usize, b: usize) -> (r: usize) ensures r == if a < b { b - a } else { a - b };
#[verifier::external_body]
fn vx_concat(a: String, b: &str) -> (r: String) ensures r@ == a@ + b@ { a + b }
@default extend => vx_extend
@default as_deref => vx_as_deref
@verbatim
trait VxAsDeref { fn vx_as_deref(&self) -> Option<&str>; }
impl VxAsDeref for Option<String> { #[verifier::external_body] fn vx_as_deref(&self) -> (r: Option<&str>) ensures r is Some == self is Some, r is Some ==> r->0@ == self->0@ { self.as_deref() } }
