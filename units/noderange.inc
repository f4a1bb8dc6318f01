@src src/dnm/mod.rs
@fn DNM::get_range_of_node
@props C02
@subst Box<dyn Error> => VxErr
@ret r
@contract
    ensures
        r is Ok == self.node_map@.dom().contains(node.hash()),
        r is Ok ==> (r->Ok_0).dnm == self && ((r->Ok_0).start, (r->Ok_0).end) == self.node_map@[node.hash()],
@fn DNM::get_range
@props C02
@subst Box<dyn Error> => VxErr
@ret r
@contract
    ensures
        r is Ok == self.node_map@.dom().contains(self.root_node.hash()),
        r is Ok ==> (r->Ok_0).dnm == self && ((r->Ok_0).start, (r->Ok_0).end) == self.node_map@[self.root_node.hash()],
@fn DNM::back_map_position
@props C23
@ret r
@contract
    requires offset <= self.back_map@.len(), self.back_map@.len() > 0, forall|i: int| 0 <= i < self.back_map@.len() ==> (#[trigger] self.back_map@[i]).1 < i32::MAX,
    ensures
        offset < self.back_map@.len() ==> r == self.back_map@[offset as int],
        offset == self.back_map@.len() ==> r.0 == self.back_map@.last().0 && r.1 == (if self.back_map@.last().1 < 0 { self.back_map@.last().1 } else { (self.back_map@.last().1 + 1) as i32 }),
@fn DNM::get_plaintext
@props C06
@ret r
@contract
    ensures r@ == self.plaintext@
