@src src/dnm/mod.rs
@fn DNM::new
@props C01 C02 C03 C04 C05
@ret r
@contract
    requires consistent(parameters)
    ensures
        r.parameters == parameters, r.root_node == root_node, r.wf(), ranges_ok(r), r.plaintext@ == r.runtime.chars@,
        r.st() == visit(parameters, root_node, St { chars: Seq::empty(), back: Seq::empty(), ws: parameters.normalize_white_spaces, map: Map::empty() }),
        // C01
        if parameters.support_back_mapping { r.back_map@.len() == r.plaintext@.len() } else { r.back_map@.len() == 0 },
        // C02
        recorded(parameters, root_node, St { chars: Seq::empty(), back: Seq::empty(), ws: parameters.normalize_white_spaces, map: Map::empty() }, r.st()),
        r.node_map@.dom().contains(root_node.hash()), r.node_map@[root_node.hash()] == (0usize, r.n() as usize),
@at loop 0 iter it
@at loop 0 inv
    invariant
        it.seq().len() == dnm.runtime.chars@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == dnm.runtime.chars@[i],
        dnm.parameters == parameters, dnm.root_node == root_node, dnm.st() == st1, dnm.plaintext@ == dnm.runtime.chars@.take(it.index()),
        dnm.byte_offsets@.len() == it.index(), forall|i: int| 0 <= i < it.index() ==> #[trigger] dnm.byte_offsets@[i] == blen(dnm.runtime.chars@.take(i)),
@at loop 0 before
    let ghost st1 = dnm.st();
@at loop 0 end
    proof { let s = dnm.runtime.chars@; let k = it.index(); assert(s.take(k + 1) =~= s.take(k).push(s[k])); assert(s.take(k + 1).take(k + 1) =~= s.take(k + 1)); }
@at loop 0 after
    proof { let s = dnm.runtime.chars@; assert(s.take(s.len() as int) =~= s); }
@at entry
    let ghost st0 = St { chars: Seq::empty(), back: Seq::empty(), ws: parameters.normalize_white_spaces, map: Map::empty() };
@at before-call recurse_node_create 0
    proof { lemma_st(dnm.st(), st0); }
@at after-call recurse_node_create 0
    proof { let n = dnm.runtime.chars.len(); lemma_aligned(parameters, root_node, st0); lemma_recorded(parameters, root_node, st0); lemma_bounded(parameters, root_node, st0); }
