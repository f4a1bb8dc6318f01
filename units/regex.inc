@verbatim
// ---------- regex::Regex: determined by the pattern text ----------
#[verifier::external_body]
struct Regex { _p: usize }
uninterp spec fn re_match(pat: Seq<char>, s: Seq<char>) -> bool;
uninterp spec fn re_replaced(pat: Seq<char>, s: Seq<char>, by: Seq<char>) -> Seq<char>;
impl Regex {
    uninterp spec fn pat(&self) -> Seq<char>;
    #[verifier::external_body] fn new(p: &str) -> (r: Result<Regex, ()>) ensures r is Ok, (r->Ok_0).pat() == p@ { unimplemented!() }
    #[verifier::external_body] fn is_match(&self, s: &str) -> (r: bool) ensures r == re_match(self.pat(), s@) { unimplemented!() }
    #[verifier::external_body] fn replace_all(&self, s: &str, by: &str) -> (r: String) ensures r@ == re_replaced(self.pat(), s@, by@) { unimplemented!() }
}
