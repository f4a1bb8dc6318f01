@include prelude.inc
@include hashmap.inc
@include eq.inc
@include text.inc
@include node.inc
@include dnmtypes.inc
@include visit.inc
@method chars => vx_chars
@method collect => vx_collect
@method enumerate => vx_enumerate
@method count => vx_count
@method zip => vx_zip
@method flat_map => vx_flat_map
@method map => vx_map
@method extend => vx_extend
@method len => vx_len
@method is_whitespace => vx_is_whitespace
@method to_lowercase => vx_to_lowercase
@method split_whitespace => vx_split_whitespace
@method unwrap_or_default => vx_unwrap_or_default
@method into => vx_into
@path rustmorpha::full_stem => vx_full_stem
@path rustmorpha::stem => vx_stem
@macros src/dnm/mod.rs
@verbatim
proof fn lemma_spread_len(s: Seq<char>, o: Seq<i32>, f: spec_fn(char) -> Seq<char>)
    requires s.len() == o.len() ensures spread_offs(s, o, f).len() == spread_chars(s, f).len() decreases s.len()
{ if s.len() > 0 { lemma_spread_len(s.drop_last(), o.drop_last(), f); } }
proof fn lemma_flat_low(s: Seq<char>, o: Seq<i32>, r: Seq<i32>)
    requires s.len() == o.len(), exists|k: Seq<Vec<i32>>| k.len() == s.len() && r == #[trigger] vx_flat(vx_views(k)) && forall|i: int| 0 <= i < k.len() ==> (#[trigger] k[i])@ =~= Seq::new(low(s[i]).len(), |j: int| o[i])
    ensures r == spread_offs(s, o, f_low())
    decreases s.len()
{
    let k = choose|k: Seq<Vec<i32>>| k.len() == s.len() && r == #[trigger] vx_flat(vx_views(k)) && forall|i: int| 0 <= i < k.len() ==> (#[trigger] k[i])@ =~= Seq::new(low(s[i]).len(), |j: int| o[i]);
    if s.len() > 0 {
        let k1 = k.drop_last(); assert(vx_views(k).drop_last() =~= vx_views(k1));
        lemma_flat_low(s.drop_last(), o.drop_last(), vx_flat(vx_views(k1)));
        assert(vx_views(k).last() =~= Seq::new(low(s.last()).len(), |j: int| o.last()));
    }
}
proof fn lemma_norm_len(s: Seq<char>, o: Seq<i32>, ws: bool, k: int)
    requires s.len() == o.len(), 0 <= k <= s.len() ensures norm_offs(s, o, ws, k).len() == norm_chars(s, ws, k).len() decreases k
{ if k > 0 { lemma_norm_len(s, o, ws, k - 1); } }
proof fn lemma_text_len(p: DNMParameters, n: RoNode, ws: bool)
    requires consistent(p), p.support_back_mapping
    ensures uni_offs(p, n.content()).len() == uni_chars(p, n.content()).len(), prep_offs(p, n.content()).len() == prep_chars(p, n.content()).len(), text_offs(p, n, ws).len() == text_chars(p, n, ws).len()
{
    let s = n.content(); let u = uni_chars(p, s);
    if p.normalize_unicode { lemma_spread_len(s, iota(s.len()), f_unidec()); }
    assert(stem_chars(p, u) == u);
    if p.convert_to_lowercase { lemma_spread_len(u, uni_offs(p, s), f_low()); axiom_low(u); }
    let t = prep_chars(p, s);
    if p.normalize_white_spaces { lemma_norm_len(t, prep_offs(p, s), ws, t.len() as int); }
}
proof fn lemma_st(a: St, b: St)
    requires a.chars =~= b.chars, a.back =~= b.back, a.ws == b.ws, a.map =~= b.map ensures a == b {}
spec fn deref_opt<T>(o: Option<&T>) -> Option<T> { match o { Some(x) => Some(*x), None => None } }
@include visitspec.inc
@include visit_lemmas.inc
@include sourcelemmas.inc
@src src/dnm/parameters.rs
@fn Default for RuntimeParseData::default
@inherent impl RuntimeParseData
@props C03
@ret r
@contract
    ensures r.had_whitespace, r.chars@.len() == 0
@fn DNMParameters::check
@props C29
@src src/dnm/mod.rs
@fn DNM::normalize_whitespace
@props C01 C03 C04
@contract
    requires old(self).parameters.support_back_mapping ==> old(offsets)@.len() == old(string)@.len()
    ensures
        final(self).frame(*old(self)),
        final(self).st() == (St { ws: old(self).parameters.normalize_white_spaces && ws_before(old(string)@, old(self).st().ws, old(string)@.len() as int), ..old(self).st() }),
        old(self).parameters.normalize_white_spaces ==> final(string)@ == norm_chars(old(string)@, old(self).st().ws, old(string)@.len() as int),
        old(self).parameters.normalize_white_spaces && old(self).parameters.support_back_mapping ==> final(offsets)@ == norm_offs(old(string)@, old(offsets)@, old(self).st().ws, old(string)@.len() as int),
        !old(self).parameters.normalize_white_spaces ==> final(string)@ == old(string)@ && final(offsets)@ == old(offsets)@,
@at loop 0 iter it
@at loop 0 inv
    invariant
        self.frame(*old(self)), self.st() == (St { ws: ws_before(s0, ws0, it.index()), ..old(self).st() }), self.parameters.normalize_white_spaces,
        it.seq() == vx_indexed(s0), s0 == old(string)@, s0.len() <= usize::MAX, *offsets == *old(offsets), self.parameters.support_back_mapping ==> offsets@.len() == s0.len(),
        new_string@ == norm_chars(s0, ws0, it.index()), self.parameters.support_back_mapping ==> new_offsets@ == norm_offs(s0, offsets@, ws0, it.index()),
@at entry
    let ghost s0 = string@; let ghost ws0 = self.st().ws;
@fn DNM::normalize_unicode
@props C01 C04
@contract
    requires self.parameters.support_back_mapping ==> old(offsets)@.len() == old(string)@.len()
    ensures
        final(string)@ == uni_chars(self.parameters, old(string)@),
        self.parameters.support_back_mapping ==> final(offsets)@ == (if self.parameters.normalize_unicode { spread_offs(old(string)@, old(offsets)@, f_unidec()) } else { old(offsets)@ }),
@at entry
    let ghost s0 = string@;
@at loop 0 iter it
@at loop 0 inv
    invariant
        it.seq() == vx_indexed(s0), s0 == old(string)@, s0.len() <= usize::MAX, *offsets == *old(offsets), offsets@.len() == s0.len(),
        new_string@ == spread_chars(s0.take(it.index()), f_unidec()), new_offsets@ == spread_offs(s0.take(it.index()), offsets@.take(it.index()), f_unidec()),
@at loop 0 start
    proof { let k = it.index(); assert(s0.take(k + 1).drop_last() =~= s0.take(k)); assert(offsets@.take(k + 1).drop_last() =~= offsets@.take(k)); }
    let ghost ns = new_string@; let ghost no = new_offsets@;
@at loop 0 end
    proof { assert(unidec(co).take(unidec(co).len() as int) =~= unidec(co)); let k = it.index(); 
        assert(new_string@ =~= spread_chars(s0.take(k + 1), f_unidec())); assert(new_offsets@ =~= spread_offs(s0.take(k + 1), offsets@.take(k + 1), f_unidec())); }
@at loop 0 after
    proof { assert(s0.take(s0.len() as int) =~= s0); assert(offsets@.take(s0.len() as int) =~= offsets@); }
@at loop 1 iter it1
@at loop 1 inv
    invariant
        it1.seq() == unidec(co), i < offsets@.len(),
        new_string@ == ns + unidec(co).take(it1.index()), new_offsets@ == no + Seq::new(it1.index() as nat, |j: int| offsets@[i as int]),
@at loop 1 start
    proof { assert(unidec(co).take(it1.index() + 1) =~= unidec(co).take(it1.index()).push(cn)); }
@at loop 1 end
    proof { assert(new_offsets@ =~= no + Seq::new((it1.index() + 1) as nat, |j: int| offsets@[i as int])); assert(new_string@ =~= ns + unidec(co).take(it1.index() + 1)); }
@fn DNM::stem_words
@props C04
@contract
    requires consistent(self.parameters)
    ensures final(string)@ == stem_chars(self.parameters, old(string)@)
@fn DNM::text_node_create
@props C01 C02 C03 C04
@contract
    requires consistent(old(self).parameters)
    ensures final(self).frame(*old(self)), final(self).st() == record(node, old(self).st().chars.len() as int, text_state(old(self).parameters, node, old(self).st())),
@at entry
    let ghost p = self.parameters; let ghost s0 = self.st(); let ghost t0 = node.content();
    proof { axiom_content_size(node); if p.support_back_mapping { lemma_text_len(p, node, s0.ws); } }
@closure 0 |vx_p0: (char, i32)| -> (vx_r: Vec<i32>) ensures vx_r@ =~= Seq::new(low(vx_p0.0).len(), |j: int| vx_p0.1)
@closure 1 move |_vx: char| -> (vx_r: i32) ensures vx_r == offset
@at before-call normalize_unicode 0
    proof { if p.support_back_mapping { assert(offsets@ =~= iota(t0.len())); } }
@at after-call normalize_unicode 0
    let ghost o1 = offsets@; let ghost t1 = string@;
    proof { if p.support_back_mapping { assert(o1 =~= uni_offs(p, t0)); assert(t1.len() == o1.len()); } }
@at after-call vx_flat_map 0
    proof { lemma_flat_low(t1, o1, offsets@); }
@at before-call normalize_whitespace 0
    proof { assert(string@ == prep_chars(p, t0)); if p.support_back_mapping { assert(offsets@ == prep_offs(p, t0)); } }
@at loop 0 before
    let ghost b0 = self.back_map@; let ghost o2 = offsets@; let ghost s2 = self.st();
@at loop 0 end
    proof { assert(self.back_map@ =~= b0 + Seq::new((it.index() + 1) as nat, |i: int| (node, o2[i]))); }
@at loop 0 iter it
@at loop 0 inv
    invariant self.frame(*old(self)), self.st() == (St { back: b0 + Seq::new(it.index() as nat, |i: int| (node, o2[i])), ..s2 }), it.seq() == o2,
@fn DNM::recurse_node_create
@props C01 C02 C04 C05
@contract
    requires consistent(old(self).parameters)
    ensures final(self).frame(*old(self)), final(self).st() == visit(old(self).parameters, node, old(self).st()),
    decreases node.height(), 1nat
@fn DNM::intermediate_node_create
@props C01 C02 C04 C05
@attr #[verifier::loop_isolation(false)]
@subst f(node) => f.vx_call(node)
@contract
    requires consistent(old(self).parameters), !node.is_text()
    ensures final(self).frame(*old(self)), final(self).st() == visit(old(self).parameters, node, old(self).st()),
    decreases node.height(), 0nat
@at entry
    let ghost p = self.parameters; let ghost s0 = self.st(); proof { node.axiom_tree(); }
@at loop 0 iter it
@at loop 0 inv
    invariant it.seq().len() == class_names(node).len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i])@ == class_names(node)[i],
        self.frame(*old(self)), self.st() == s0, p == self.parameters, rules@.len() == it.index(),
        forall|i: int| 0 <= i < rules@.len() ==> deref_opt(#[trigger] rules@[i]) == rule_at(p, node, i),
@at loop 1 iter it
@at loop 1 inv
    invariant_except_break
        policy(p, node) == policy_from(p, node, it.index()),
    invariant
        !node.is_text(), it.seq().len() == class_names(node).len() + 1, forall|i: int| 0 <= i < it.seq().len() ==> deref_opt(#[trigger] it.seq()[i]) == rule_at(p, node, i),
        self.frame(*old(self)), self.st() == s0, p == self.parameters,
    ensures policy(p, node) == Pol::Enter,
@at loop 1 after
    proof { assert(policy(p, node) == Pol::Enter); assert(visit_kids(p, node, 0, s0) == s0); }
@at loop 2 before
    let ghost a0 = self.st();
@at loop 2 iter it2
@at loop 2 inv
    invariant self.frame(*old(self)), p == self.parameters, p.support_back_mapping, it2.seq() == token@, self.st() == (St { chars: a0.chars + token@.take(it2.index()), back: a0.back + Seq::new(it2.index() as nat, |i: int| (node, -1i32)), ..a0 }),
@at loop 2 end
    proof { let w = token@; let k = it2.index(); assert(w.take(k + 1) =~= w.take(k).push(w[k])); assert(self.st().chars =~= a0.chars + w.take(k + 1)); assert(self.st().back =~= a0.back + Seq::new((k + 1) as nat, |i: int| (node, -1i32))); }
@at loop 2 after
    proof { let w = token@; assert(w.take(w.len() as int) =~= w); }
@at loop 3 before
    let ghost a0 = self.st();
@at loop 3 iter it2
@at loop 3 inv
    invariant self.frame(*old(self)), p == self.parameters, p.support_back_mapping, it2.seq() == fn_token(*f, node), self.st() == (St { chars: a0.chars + fn_token(*f, node).take(it2.index()), back: a0.back + Seq::new(it2.index() as nat, |i: int| (node, -1i32)), ..a0 }),
@at loop 3 end
    proof { let w = fn_token(*f, node); let k = it2.index(); assert(w.take(k + 1) =~= w.take(k).push(w[k])); assert(self.st().chars =~= a0.chars + w.take(k + 1)); assert(self.st().back =~= a0.back + Seq::new((k + 1) as nat, |i: int| (node, -1i32))); }
@at loop 3 after
    proof { let w = fn_token(*f, node); assert(w.take(w.len() as int) =~= w); }
@at loop 4 before
    proof { assert(visit_kids(p, node, 0, s0) == s0); }
@at return 0
    proof { lemma_st(self.st(), visit(p, node, s0)); }
@at return 1
    proof { lemma_st(self.st(), visit(p, node, s0)); }
@at return 2
    proof { lemma_st(self.st(), visit(p, node, s0)); }
@at loop 4 inv
    invariant
        consistent(p), p == self.parameters, self.frame(*old(self)), node.height() == node.height(),
        0 <= child_node.pos() < node.kids().len(), child_node == node.kids()[child_node.pos()], child_node.sibs() == node.kids(),
        self.st() == visit_kids(p, node, (child_node.pos() + 1) as nat, s0),
    decreases node.kids().len() - child_node.pos()
@at loop 4 start
    proof { node.axiom_tree(); child_node.axiom_tree(); }
@include dnmnew.inc
@include noderange.inc
