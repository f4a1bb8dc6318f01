@include context.inc
@verbatim
// ---------- libxml documents ----------
#[verifier::external_body]
struct XmlDoc { _p: usize }
impl XmlDoc {
    // the nodes an XPath expression selects, in document order (none if the expression is invalid)
    uninterp spec fn select(&self, expr: Seq<char>) -> Seq<RoNode>;
    uninterp spec fn root(&self) -> Option<RoNode>;
    #[verifier::external_body] fn get_root_readonly(&self) -> (r: Option<RoNode>) ensures r == self.root() { unimplemented!() }
}
impl Context {
    uninterp spec fn doc(&self) -> XmlDoc;
    #[verifier::external_body] fn new(d: &XmlDoc) -> (r: Result<Context, ()>) ensures r is Ok, (r->Ok_0).doc() == d { unimplemented!() }
    #[verifier::external_body] fn evaluate(&self, expr: &str) -> (r: Result<VxObject, ()>) ensures match r { Ok(o) => o.nodes() == self.doc().select(expr@), Err(_) => self.doc().select(expr@).len() == 0 } { unimplemented!() }
}
#[verifier::external_body]
struct Parser { _p: usize }
#[verifier::external_body]
struct XmlParseError { _p: usize }
#[verifier::external]
impl core::fmt::Debug for XmlParseError { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
uninterp spec fn file_text(path: Seq<char>, html: bool) -> Option<XmlDoc>;   // what a file parses to
impl Parser {
    uninterp spec fn html(&self) -> bool;
    #[verifier::external_body] fn parse_file(&self, p: &String) -> (r: Result<XmlDoc, XmlParseError>) ensures r is Ok == file_text(p@, self.html()) is Some, r is Ok ==> Some(r->Ok_0) == file_text(p@, self.html()) { unimplemented!() }
    #[verifier::external_body] fn default() -> (r: Parser) ensures !r.html() { unimplemented!() }
    #[verifier::external_body] fn default_html() -> (r: Parser) ensures r.html() { unimplemented!() }
}
spec fn ends_with(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.skip(s.len() - p.len()) == p }
trait VxEndsWith { spec fn es(&self) -> Seq<char>; fn vx_ends_with<S: VxStr + ?Sized>(&self, p: &S) -> (r: bool) ensures r == ends_with(self.es(), p.st_()); }
trait VxStr { spec fn st_(&self) -> Seq<char>; }
impl VxStr for str { spec fn st_(&self) -> Seq<char> { self@ } }
impl VxStr for String { spec fn st_(&self) -> Seq<char> { self@ } }
impl VxEndsWith for str { spec fn es(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_ends_with<S: VxStr + ?Sized>(&self, p: &S) -> (r: bool) { unimplemented!() } }
impl VxEndsWith for String { spec fn es(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_ends_with<S: VxStr + ?Sized>(&self, p: &S) -> (r: bool) { unimplemented!() } }
// what a file parses to: xhtml by its extension, html otherwise
spec fn parsed_file(path: Seq<char>) -> Option<XmlDoc> { file_text(path, !ends_with(path, ".xhtml"@)) }
#[verifier::external_body]
struct Tokenizer { _p: usize }
