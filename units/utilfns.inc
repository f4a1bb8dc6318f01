@src src/patterns/utils.rs
@verbatim
spec fn kept(n: RoNode) -> bool { !n.is_text() && !n.is_comment() }
// the children that are neither text nor comment, in document order
spec fn keep(s: Seq<RoNode>) -> Seq<RoNode> decreases s.len() { if s.len() == 0 { s } else if kept(s.last()) { keep(s.drop_last()).push(s.last()) } else { keep(s.drop_last()) } }
spec fn blank(s: Seq<char>) -> bool { trimmed_start(trimmed_end(s)).len() == 0 }
spec fn blank_texts(s: Seq<RoNode>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).is_text() ==> blank(s[i].content()) }
// at most a single text child
spec fn simple(s: Seq<RoNode>) -> bool { s.len() == 0 || s.len() == 1 && s[0].is_text() }
spec fn simple_text(s: Seq<RoNode>, trim: bool) -> Seq<char> { if s.len() == 0 { Seq::empty() } else if trim { trimmed_start(trimmed_end(s[0].content())) } else { s[0].content() } }
proof fn lemma_keep_step(s: Seq<RoNode>, k: int) requires 0 <= k < s.len() ensures keep(s.take(k + 1)) == if kept(s[k]) { keep(s.take(k)).push(s[k]) } else { keep(s.take(k)) } { assert(s.take(k + 1).drop_last() =~= s.take(k)); }
@fn is_comment_node
@props C17
@opt eq-call
@ret r
@contract
    ensures r == node.is_comment()
@fn get_simple_node_content
@props C17
@opt opaque-format
@subst .trim() => .vx_trim()
@ret r
@contract
    ensures r is Ok == simple(node.kids()), r is Ok ==> r->Ok_0@ == simple_text(node.kids(), trim)
@at entry
    proof { node.axiom_tree(); reveal_strlit(""); }
@fn get_non_text_children
@props C17
@opt opaque-format
@subst .trim() => .vx_trim()
@ret r
@contract
    ensures r is Ok == blank_texts(node.kids()), r is Ok ==> r->Ok_0@ == keep(node.kids())
@at entry
    proof { node.axiom_tree(); assert(node.kids().take(node.kids().len() as int) =~= node.kids()); assert(node.kids().take(0) =~= Seq::<RoNode>::empty()); }
    let ghost mut vx_k: int = 0;
@at loop 0 inv
    invariant
        0 <= vx_k <= node.kids().len(), cur == (if vx_k < node.kids().len() { Some(node.kids()[vx_k]) } else { None::<RoNode> }),
        children@ == keep(node.kids().take(vx_k)), blank_texts(node.kids().take(vx_k)), node.kids().take(node.kids().len() as int) == node.kids(),
        forall|i: int| #![trigger node.kids()[i]] 0 <= i < node.kids().len() ==> node.kids()[i].sibs() == node.kids() && node.kids()[i].pos() == i,
    decreases node.kids().len() - vx_k
@at loop 0 start
    proof { if vx_k < node.kids().len() { lemma_keep_step(node.kids(), vx_k); assert(node.kids().take(vx_k + 1)[vx_k] == node.kids()[vx_k]); assert(forall|i: int| 0 <= i < vx_k ==> node.kids().take(vx_k + 1)[i] == #[trigger] node.kids().take(vx_k)[i]); } vx_k = vx_k + 1; }
@fn fast_get_non_text_children
@props C17
@ret r
@contract
    ensures r@ == keep(node.kids())
@at entry
    proof { node.axiom_tree(); assert(node.kids().take(node.kids().len() as int) =~= node.kids()); assert(node.kids().take(0) =~= Seq::<RoNode>::empty()); }
    let ghost mut vx_k: int = 0;
@at loop 0 inv
    invariant
        0 <= vx_k <= node.kids().len(), cur == (if vx_k < node.kids().len() { Some(node.kids()[vx_k]) } else { None::<RoNode> }),
        children@ == keep(node.kids().take(vx_k)), node.kids().take(node.kids().len() as int) == node.kids(),
        forall|i: int| #![trigger node.kids()[i]] 0 <= i < node.kids().len() ==> node.kids()[i].sibs() == node.kids() && node.kids()[i].pos() == i,
    decreases node.kids().len() - vx_k
@at loop 0 start
    proof { if vx_k < node.kids().len() { lemma_keep_step(node.kids(), vx_k); } vx_k = vx_k + 1; }
@fn get_only_child
@props C17
@opt opaque-format
@ret r
@contract
    ensures r is Ok == (blank_texts(node.kids()) && keep(node.kids()).len() == 1), r is Ok ==> r->Ok_0 == keep(node.kids())[0]
@fn assert_no_child
@props C17
@opt opaque-format
@ret r
@contract
    ensures r is Ok == (blank_texts(node.kids()) && keep(node.kids()).len() == 0)
@fn require_node_property
@props C17
@opt opaque-format
@ret r
@contract
    ensures r is Ok == node.prop(property@) is Some, r is Ok ==> r->Ok_0@ == node.prop(property@)->0
@fn check_found_property_already
@props C17
@opt opaque-format
@ret r
@contract
    ensures r is Ok == *property is None
