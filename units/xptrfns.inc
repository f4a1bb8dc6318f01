@src src/dnm/range.rs
@fn get_node_number
@props C23
@opt eq-call
@ret r
@contract
    requires target.up() == Some(parent), forall|n: RoNode| call_requires(rule, (n,)),
    ensures r is Ok, forall|f: spec_fn(RoNode) -> bool| #![trigger rank(f, parent.kids(), target.pos())] decides(rule, f) ==> r == Ok::<i32, ()>(rank(f, parent.kids(), target.pos()) as i32),
@attr #[verifier::loop_isolation(false)]
@at entry
    proof { parent.axiom_tree(); parent.axiom_kids_size(); target.axiom_tree(); }
@at loop 0 inv
    invariant
        0 <= cur.pos() <= target.pos(), cur == parent.kids()[cur.pos()], cur.sibs() == parent.kids(), 1 <= count <= cur.pos() + 1,
        forall|f: spec_fn(RoNode) -> bool| #[trigger] decides(rule, f) ==> count == rank(f, parent.kids(), cur.pos()),
    decreases target.pos() - cur.pos()
@fn get_next_sibling
@props C23
@opt eq-call
@ret r
@contract
    requires under(root_node, node), last_sibling(root_node)
    ensures r == next_after(root_node, node)
    decreases node.depth()
@at entry
    proof { node.axiom_tree(); }
@fn is_like
@props C23
@opt eq-call
@ret r
@contract
    ensures r == like(node, target)
@fn DNMRange::serialize_node
@props C23
@opt eq-call
@ret r
@contract
    requires under(root_node, node), is_end ==> last_sibling(root_node)
    ensures r@ == node_pointer(root_node, node, is_end)
    decreases node.depth()
@closure 0 |vx_p0: RoNode| -> (vx_r: bool) ensures vx_r == like(vx_p0, node)
@closure 1 |vx_p0: RoNode| -> (vx_r: bool) ensures vx_r == like(vx_p0, act)
@at entry
    proof { node.axiom_tree(); lemma_text_step(); if is_end { lemma_next_after(root_node, node); if next_after(root_node, node) is Some { next_after(root_node, node)->0.axiom_tree(); } } let n0 = number(node); let n1 = number(next_after(root_node, node)->0); }
@fn DNMRange::serialize_offset
@props C23
@ret r
@contract
    requires under(root_node, node), is_end ==> last_sibling(root_node), offset < i32::MAX
    ensures r@ == pointer(root_node, node, offset, is_end)
@fn DNMRange::create_arange
@props C23
@ret r
@contract
    ensures r@ == arange(from@, to@)
@fn DNMRange::serialize
@props C23
@ret r
@contract
    requires
        self.dnm.parameters.support_back_mapping, self.start < self.end <= self.dnm.back_map@.len(), last_sibling(self.dnm.root_node),
        forall|i: int| 0 <= i < self.dnm.back_map@.len() ==> under(self.dnm.root_node, (#[trigger] self.dnm.back_map@[i]).0) && self.dnm.back_map@[i].1 < i32::MAX - 1,
    ensures ({ let d = *self.dnm; let a = position(d, self.start as int); let b = position(d, self.end as int);
        r@ == arange(pointer(d.root_node, a.0, a.1, false), pointer(d.root_node, b.0, b.1, true)) })
@fn get_position_of_lowest_parent
@props C23
@ret r
@contract
    requires recorded_above(dnm.node_map@, node)
    ensures r == lowest(dnm.node_map@, node)
    decreases node.depth()
@at entry
    proof { node.axiom_tree(); }
