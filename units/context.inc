@verbatim
// ---------- libxml::xpath::Context ----------
#[verifier::external_body]
struct Context { _p: usize }
#[verifier::external_body]
struct VxObject { _p: usize }
uninterp spec fn xpath(expr: Seq<char>, n: RoNode) -> Seq<RoNode>;
impl Context { #[verifier::external_body] fn node_evaluate_readonly(&mut self, expr: &str, n: RoNode) -> (r: Result<VxObject, ()>) ensures r is Ok, (r->Ok_0).nodes() == xpath(expr@, n) { unimplemented!() } }
impl VxObject {
    uninterp spec fn nodes(&self) -> Seq<RoNode>;
    #[verifier::external_body] fn get_readonly_nodes_as_vec(&self) -> (r: Vec<RoNode>) ensures r@ == self.nodes() { unimplemented!() }
}
