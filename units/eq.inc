@verbatim
// ---------- PartialEq on strings, compared by content ----------
trait VxEq<R: ?Sized> { spec fn veq(&self, o: &R) -> bool; fn vx_eq_to(&self, o: &R) -> (r: bool) ensures r == self.veq(o); }
impl<'a, 'b, A: ?Sized + VxEq<B>, B: ?Sized> VxEq<&'b B> for &'a A { spec fn veq(&self, o: &&'b B) -> bool { (**self).veq(&**o) } fn vx_eq_to(&self, o: &&'b B) -> (r: bool) { (**self).vx_eq_to(&**o) } }
impl VxEq<String> for str { spec fn veq(&self, o: &String) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq_to(&self, o: &String) -> (r: bool) { self == o } }
impl VxEq<str> for str { spec fn veq(&self, o: &str) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq_to(&self, o: &str) -> (r: bool) { self == o } }
impl VxEq<str> for String { spec fn veq(&self, o: &str) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq_to(&self, o: &str) -> (r: bool) { self == o } }
impl<'a> VxEq<&'a str> for String { spec fn veq(&self, o: &&'a str) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq_to(&self, o: &&'a str) -> (r: bool) { self == o } }
impl<'a> VxEq<String> for &'a str { spec fn veq(&self, o: &String) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq_to(&self, o: &String) -> (r: bool) { self == o } }
impl VxEq<String> for String { spec fn veq(&self, o: &String) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq_to(&self, o: &String) -> (r: bool) { self == o } }
impl VxEq<char> for char { spec fn veq(&self, o: &char) -> bool { *self == *o } fn vx_eq_to(&self, o: &char) -> (r: bool) { *self == *o } }
impl VxEq<usize> for usize { spec fn veq(&self, o: &usize) -> bool { *self == *o } fn vx_eq_to(&self, o: &usize) -> (r: bool) { *self == *o } }
impl VxEq<u16> for u16 { spec fn veq(&self, o: &u16) -> bool { *self == *o } fn vx_eq_to(&self, o: &u16) -> (r: bool) { *self == *o } }
impl VxEq<i32> for i32 { spec fn veq(&self, o: &i32) -> bool { *self == *o } fn vx_eq_to(&self, o: &i32) -> (r: bool) { *self == *o } }
impl VxEq<bool> for bool { spec fn veq(&self, o: &bool) -> bool { *self == *o } fn vx_eq_to(&self, o: &bool) -> (r: bool) { *self == *o } }
impl<T, U> VxEq<Option<U>> for Option<T> where T: VxEq<U> { spec fn veq(&self, o: &Option<U>) -> bool { match (self, o) { (Some(a), Some(b)) => a.veq(b), (None, None) => true, _ => false } }
    fn vx_eq_to(&self, o: &Option<U>) -> (r: bool) { match (self, o) { (Some(a), Some(b)) => a.vx_eq_to(b), (None, None) => true, _ => false } } }
fn vx_eq<A: ?Sized + VxEq<B>, B: ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == a.veq(b) { a.vx_eq_to(b) }
// boxed errors: only the fact of an error is kept
struct VxErr { }
trait VxIntoErr { fn vx_into(&self) -> VxErr; }
impl VxIntoErr for str { #[verifier::external_body] fn vx_into(&self) -> VxErr { VxErr { } } }
#[verifier::external_body]
fn vx_is_str(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
