@verbatim
// ---------- Peekable<Chars>: the characters and how many have been taken ----------
struct VxPeek { s: Vec<char>, i: usize }
impl VxPeek {
    #[verifier::external_body]
    fn vx_next(&mut self) -> (r: Option<char>)
        ensures final(self).s == old(self).s, old(self).i < old(self).s@.len() ==> r == Some(old(self).s@[old(self).i as int]) && final(self).i == old(self).i + 1, old(self).i >= old(self).s@.len() ==> r is None && final(self).i == old(self).i
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_peek<'x>(&'x self) -> (r: Option<&'x char>)
        ensures self.i < self.s@.len() ==> r == Some(&self.s@[self.i as int]), self.i >= self.s@.len() ==> r is None
    { unimplemented!() }
    #[verifier::external_body]
    fn rest(self) -> (r: Vec<char>) ensures r@ == self.s@.skip(self.i as int) { unimplemented!() }
}
impl Clone for VxPeek { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
trait VxPeekable { fn vx_peekable(self) -> VxPeek; }
impl VxPeekable for Vec<char> { #[verifier::external_body] fn vx_peekable(self) -> (r: VxPeek) ensures r.s@ == self@, r.i == 0 { unimplemented!() } }
impl VxFrom<char> for String { spec fn vx_from_seq(s: Seq<char>, r: Self) -> bool { r@ == s } #[verifier::external_body] fn vx_build(v: Vec<char>) -> (r: Self) { v.into_iter().collect() } }
fn vx_min(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
// ---------- character classes ----------
#[verifier::external_body]
proof fn axiom_dot() ensures !alpha('.'), !is_ws('.') {}
// ---------- where splitting decides: nothing is assumed about the outcome ----------
#[verifier::external_body]
struct VxWordSet { _p: usize }
impl VxWordSet { #[verifier::external_body] fn contains(&self, w: &str) -> bool { unimplemented!() } }
#[verifier::external_body]
struct VxRegex { _p: usize }
impl VxRegex { #[verifier::external_body] fn is_match(&self, w: &str) -> bool { unimplemented!() } }
#[verifier::external_body]
struct VxWindow { _p: usize }
impl VxWindow {
    #[verifier::external_body] fn with_capacity(n: usize) -> Self { unimplemented!() }
    #[verifier::external_body] fn push_back(&mut self, c: char) { unimplemented!() }
    #[verifier::external_body] fn pop_front(&mut self) -> Option<char> { unimplemented!() }
    #[verifier::external_body] fn clear(&mut self) { unimplemented!() }
    #[verifier::external_body] fn len(&self) -> usize { unimplemented!() }
    #[verifier::external_body] fn back(&self) -> Option<&char> { unimplemented!() }
    #[verifier::external_body] fn vx_into_iter(self) -> Vec<char> { unimplemented!() }
    #[verifier::external_body] fn vx_iter(&self) -> Vec<char> { unimplemented!() }
}
impl Clone for VxWindow { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
trait VxLoose { spec fn ls(&self) -> Seq<char>;
    fn vx_to_lowercase(&self) -> String; fn vx_starts_with(&self, p: &str) -> bool; fn vx_find_alphabetic(&self) -> Option<usize>; fn vx_first(&self) -> (r: Option<char>) ensures self.ls().len() > 0 ==> r == Some(self.ls()[0]), self.ls().len() == 0 ==> r is None;
    fn vx_split<'a, F: Fn(char) -> bool>(&'a self, f: F) -> Vec<&'a str>; }
impl VxLoose for str { spec fn ls(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_to_lowercase(&self) -> String { unimplemented!() } #[verifier::external_body] fn vx_starts_with(&self, p: &str) -> bool { unimplemented!() } #[verifier::external_body] fn vx_find_alphabetic(&self) -> Option<usize> { unimplemented!() } #[verifier::external_body] fn vx_first(&self) -> Option<char> { unimplemented!() }
    #[verifier::external_body] fn vx_split<'a, F: Fn(char) -> bool>(&'a self, f: F) -> Vec<&'a str> { unimplemented!() } }
impl VxLoose for String { spec fn ls(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_to_lowercase(&self) -> String { unimplemented!() } #[verifier::external_body] fn vx_starts_with(&self, p: &str) -> bool { unimplemented!() } #[verifier::external_body] fn vx_find_alphabetic(&self) -> Option<usize> { unimplemented!() } #[verifier::external_body] fn vx_first(&self) -> Option<char> { unimplemented!() }
    #[verifier::external_body] fn vx_split<'a, F: Fn(char) -> bool>(&'a self, f: F) -> Vec<&'a str> { unimplemented!() } }
@include tokenspec.inc
