@include selspec.inc
@verbatim
// ---------- walkdir ----------
#[verifier::external_body]
struct VxWkEnt { _p: usize }
impl VxWkEnt {
    uninterp spec fn name(&self) -> VxOs;
    uninterp spec fn full(&self) -> VxOs;
    #[verifier::external_body] fn file_name(&self) -> (r: VxOs) ensures r == self.name() { unimplemented!() }
    #[verifier::external_body] fn path(&self) -> (r: VxOs) ensures r == self.full() { unimplemented!() }
}
#[verifier::external_body]
struct VxWkErr { _p: usize }
type VxWk = Result<VxWkEnt, VxWkErr>;
#[verifier::external_body]
struct WalkDirIterator { _p: usize }
impl WalkDirIterator {
    uninterp spec fn rest(&self) -> Seq<VxWk>;
    #[verifier::external_body] fn next(&mut self) -> (r: Option<VxWk>) ensures old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1), old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest() { unimplemented!() }
}
// v lists what is found below root, in some order
uninterp spec fn seq_listing(root: Seq<char>, v: Seq<VxWk>) -> bool;
struct WalkDir { root: String }
impl WalkDir {
    #[verifier::external_body] fn new(root: String) -> (r: Self) ensures r.root@ == root@ { unimplemented!() }
    #[verifier::external_body] fn vx_walk(self) -> (r: WalkDirIterator) ensures seq_listing(self.root@, r.rest()) { unimplemented!() }
}
spec fn seq_picked(e: VxWk, ext: Option<String>) -> Option<Seq<char>> { match e { Ok(x) => if selected(text_or_empty(x.name()), ext) { Some(text_or_empty(x.full())) } else { None }, Err(_) => None } }
// the selected files still to come, in order
spec fn picks(v: Seq<VxWk>, ext: Option<String>) -> Seq<Seq<char>> decreases v.len() {
    if v.len() == 0 { Seq::empty() } else { match seq_picked(v[0], ext) { Some(p) => seq![p] + picks(v.skip(1), ext), None => picks(v.skip(1), ext) } }
}
proof fn lemma_picks(ext: Option<String>)
    ensures forall|v: Seq<VxWk>| v.len() > 0 && seq_picked(v[0], ext) is Some ==> (#[trigger] picks(v, ext)).skip(1) == picks(v.skip(1), ext) && picks(v, ext)[0] == seq_picked(v[0], ext)->0 && picks(v, ext).len() > 0
{ assert forall|v: Seq<VxWk>| v.len() > 0 && seq_picked(v[0], ext) is Some implies (#[trigger] picks(v, ext)).skip(1) == picks(v.skip(1), ext) && picks(v, ext)[0] == seq_picked(v[0], ext)->0 && picks(v, ext).len() > 0 by { assert(picks(v, ext).skip(1) =~= picks(v.skip(1), ext)); } }
// ---------- senna ----------
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
struct RefCell<T> { _t: T }
impl<T> RefCell<T> { #[verifier::external_body] fn new(t: T) -> (r: Self) { unimplemented!() } }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
struct Cell<T> { _t: T }
impl<T> Cell<T> { #[verifier::external_body] fn new(t: T) -> (r: Self) { unimplemented!() } }
#[verifier::external_body]
struct Senna { _p: usize }
impl Senna { #[verifier::external_body] fn new(p: String) -> (r: Self) { unimplemented!() } }
#[verifier::external_body]
struct SennaParseOptions { _p: usize }
impl SennaParseOptions { #[verifier::external_body] fn default() -> (r: Self) { unimplemented!() } }
#[verifier::external_body]
const SENNA_PATH: &'static str = "";
#[verifier::external_body]
struct POS { _p: usize }
uninterp spec fn pos_not_set() -> POS;
#[verifier::external_body]
fn vx_pos_not_set() -> (r: POS) ensures r == pos_not_set() { unimplemented!() }
#[verifier::external_body]
struct VxSennaWord { _p: usize }
impl VxSennaWord {
    uninterp spec fn from(&self) -> usize;
    uninterp spec fn to(&self) -> usize;
    uninterp spec fn tag(&self) -> POS;
    #[verifier::external_body] fn get_offset_start(&self) -> (r: usize) ensures r == self.from() { unimplemented!() }
    #[verifier::external_body] fn get_offset_end(&self) -> (r: usize) ensures r == self.to() { unimplemented!() }
    #[verifier::external_body] fn get_pos(&self) -> (r: POS) ensures r == self.tag() { unimplemented!() }
}
#[verifier::external_body]
struct VxSennaSentence { _p: usize }
impl VxSennaSentence {
    uninterp spec fn words(&self) -> Seq<VxSennaWord>;
    #[verifier::external_body] fn get_words(&self) -> (r: &Vec<VxSennaWord>) ensures r@ == self.words() { unimplemented!() }
}
