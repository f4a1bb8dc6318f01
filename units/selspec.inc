@verbatim
// ---------- file names ----------
#[verifier::external_body]
struct VxOs { _p: usize }
impl VxOs { uninterp spec fn text(&self) -> Option<Seq<char>>; #[verifier::external_body] fn to_str(&self) -> (r: Option<&str>) ensures r is Some == self.text() is Some, r is Some ==> (r->0)@ == self.text()->0 { unimplemented!() } }
// ---------- C25: which files are selected ----------
spec fn text_or_empty(o: VxOs) -> Seq<char> { match o.text() { Some(s) => s, None => ""@ } }
spec fn selected(name: Seq<char>, ext: Option<String>) -> bool { match ext { Some(x) => ends_with(name, x@), None => ends_with(name, ".html"@) || ends_with(name, ".xhtml"@) } }
