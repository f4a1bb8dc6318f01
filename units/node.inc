@verbatim
#[verifier::external_body]
struct Namespace { _p: usize }
impl Namespace { uninterp spec fn prefix(&self) -> Seq<char>; #[verifier::external_body] fn get_prefix(&self) -> (r: String) ensures r@ == self.prefix() { unimplemented!() } }
// ---------- libxml::readonly::RoNode: a node of a fixed document tree ----------
#[verifier::external_body]
struct RoNode { _p: usize }
impl Clone for RoNode { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { RoNode { _p: self._p } } }
impl Copy for RoNode {}
#[derive(Clone, Copy)]
enum NodeType { ElementNode, AttributeNode, TextNode, CDataSectionNode, EntityRefNode, EntityNode, PiNode, CommentNode, DocumentNode, DocumentTypeNode, DocumentFragNode, NotationNode, HtmlDocumentNode, DTDNode, ElementDecl, AttributeDecl, EntityDecl, NamespaceDecl, XIncludeStart, XIncludeEnd, DOCBDocumentNode }
impl RoNode {
    uninterp spec fn hash(&self) -> usize;                 // the node's address
    uninterp spec fn kids(&self) -> Seq<RoNode>;           // its children in document order
    uninterp spec fn sibs(&self) -> Seq<RoNode>;           // the children of its parent
    uninterp spec fn pos(&self) -> int;                    // its place among them
    uninterp spec fn up(&self) -> Option<RoNode>;          // its parent
    uninterp spec fn height(&self) -> nat;                 // of the subtree below it
    uninterp spec fn depth(&self) -> nat;                  // number of ancestors
    uninterp spec fn ty(&self) -> Option<NodeType>;
    uninterp spec fn name(&self) -> Seq<char>;
    uninterp spec fn content(&self) -> Seq<char>;
    uninterp spec fn prop(&self, k: Seq<char>) -> Option<Seq<char>>;
    uninterp spec fn ns(&self) -> Option<Seq<char>>;       // prefix of its namespace
    spec fn is_cdata(&self) -> bool { self.ty() == Some(NodeType::CDataSectionNode) }
    spec fn is_text(&self) -> bool { self.ty() == Some(NodeType::TextNode) }
    spec fn is_comment(&self) -> bool { self.ty() == Some(NodeType::CommentNode) }
    spec fn is_element(&self) -> bool { self.ty() == Some(NodeType::ElementNode) }
    // the document is a finite tree
    #[verifier::external_body]
    proof fn axiom_tree(&self)
        ensures
            forall|i: int| #![trigger self.kids()[i]] 0 <= i < self.kids().len() ==> self.kids()[i].height() < self.height() && self.kids()[i].sibs() == self.kids() && self.kids()[i].pos() == i && self.kids()[i].up() == Some(*self) && self.kids()[i].depth() == self.depth() + 1,
            self.up() is Some ==> self.up()->0.kids() == self.sibs() && 0 <= self.pos() < self.sibs().len() && self.sibs()[self.pos()] == *self && self.up()->0.depth() < self.depth(),
            self.up() is None ==> self.sibs() == seq![*self] && self.pos() == 0,
            self.is_text() ==> self.kids().len() == 0,
    {}
    // fewer than 2^31 siblings (libxml counts children with int)
    #[verifier::external_body]
    proof fn axiom_kids_size(&self) ensures self.kids().len() < i32::MAX {}
    // nodes are compared by address
    #[verifier::external_body]
    proof fn axiom_hash(a: RoNode, b: RoNode) ensures (a == b) == (a.hash() == b.hash()) {}
    #[verifier::external_body] fn to_hashable(&self) -> (r: usize) ensures r == self.hash() { unimplemented!() }
    #[verifier::external_body] fn is_text_node(&self) -> (r: bool) ensures r == self.is_text() { unimplemented!() }
    #[verifier::external_body] fn is_element_node(&self) -> (r: bool) ensures r == self.is_element() { unimplemented!() }
    #[verifier::external_body] fn get_type(&self) -> (r: Option<NodeType>) ensures r == self.ty(), r is Some { unimplemented!() }
    #[verifier::external_body] fn get_name(&self) -> (r: String) ensures r@ == self.name() { unimplemented!() }
    #[verifier::external_body] fn get_content(&self) -> (r: String) ensures r@ == self.content() { unimplemented!() }
    #[verifier::external_body] fn get_property(&self, k: &str) -> (r: Option<String>) ensures r is Some == self.prop(k@) is Some, r is Some ==> r->0@ == self.prop(k@)->0 { unimplemented!() }
    #[verifier::external_body] fn get_namespace(&self) -> (r: Option<Namespace>) ensures r is Some == self.ns() is Some, r is Some ==> r->0.prefix() == self.ns()->0 { unimplemented!() }
    #[verifier::external_body] fn get_parent(&self) -> (r: Option<RoNode>) ensures r == self.up() { unimplemented!() }
    #[verifier::external_body] fn get_first_child(&self) -> (r: Option<RoNode>) ensures r == if self.kids().len() > 0 { Some(self.kids()[0]) } else { None } { unimplemented!() }
    #[verifier::external_body] fn get_last_child(&self) -> (r: Option<RoNode>) ensures r == if self.kids().len() > 0 { Some(self.kids().last()) } else { None } { unimplemented!() }
    #[verifier::external_body] fn get_next_sibling(&self) -> (r: Option<RoNode>) ensures r == if 0 <= self.pos() && self.pos() + 1 < self.sibs().len() { Some(self.sibs()[self.pos() + 1]) } else { None } { unimplemented!() }
    #[verifier::external_body] fn get_prev_sibling(&self) -> (r: Option<RoNode>) ensures r == if 0 < self.pos() <= self.sibs().len() { Some(self.sibs()[self.pos() - 1]) } else { None } { unimplemented!() }
    #[verifier::external_body] fn get_child_nodes(&self) -> (r: Vec<RoNode>) ensures r@ == self.kids() { unimplemented!() }
    #[verifier::external_body] fn get_child_elements(&self) -> (r: Vec<RoNode>) ensures r@ == elements(self.kids()) { unimplemented!() }
    #[verifier::external_body] fn get_first_element_child(&self) -> (r: Option<RoNode>) ensures r == if elements(self.kids()).len() > 0 { Some(elements(self.kids())[0]) } else { None } { unimplemented!() }
    #[verifier::external_body] fn get_last_element_child(&self) -> (r: Option<RoNode>) ensures r == if elements(self.kids()).len() > 0 { Some(elements(self.kids()).last()) } else { None } { unimplemented!() }
    #[verifier::external_body] fn get_next_element_sibling(&self) -> (r: Option<RoNode>) ensures 0 <= self.pos() < self.sibs().len() ==> r == (if elements(self.sibs().skip(self.pos() + 1)).len() > 0 { Some(elements(self.sibs().skip(self.pos() + 1))[0]) } else { None }) { unimplemented!() }
    #[verifier::external_body] fn get_prev_element_sibling(&self) -> (r: Option<RoNode>) ensures 0 <= self.pos() < self.sibs().len() ==> r == (if elements(self.sibs().take(self.pos())).len() > 0 { Some(elements(self.sibs().take(self.pos())).last()) } else { None }) { unimplemented!() }
    #[verifier::external_body] fn get_attribute(&self, k: &str) -> (r: Option<String>) ensures r is Some == self.prop(k@) is Some, r is Some ==> r->0@ == self.prop(k@)->0 { unimplemented!() }
    #[verifier::external_body] fn has_property(&self, k: &str) -> (r: bool) ensures r == self.prop(k@) is Some { unimplemented!() }
    #[verifier::external_body] fn has_attribute(&self, k: &str) -> (r: bool) ensures r == self.prop(k@) is Some { unimplemented!() }
    #[verifier::external_body] fn is_null(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn null() -> RoNode { unimplemented!() }
}
spec fn elements(s: Seq<RoNode>) -> Seq<RoNode> decreases s.len() {
    if s.len() == 0 { s } else if s.last().is_element() { elements(s.drop_last()).push(s.last()) } else { elements(s.drop_last()) }
}
impl VxEq<RoNode> for RoNode { spec fn veq(&self, o: &RoNode) -> bool { *self == *o } #[verifier::external_body] fn vx_eq_to(&self, o: &RoNode) -> (r: bool) { self._p == o._p } }
impl VxEq<NodeType> for NodeType { spec fn veq(&self, o: &NodeType) -> bool { *self == *o } #[verifier::external_body] fn vx_eq_to(&self, o: &NodeType) -> (r: bool) { unimplemented!() } }
