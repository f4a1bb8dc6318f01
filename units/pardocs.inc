@src src/parallel_data/corpus.rs
@type Corpus
@src src/parallel_data/document.rs
@type Document
@src src/parallel_data.rs
@type ItemDNM
@type ItemDNMRange
@type RoNodeIterator
subst IntoIter<RoNode> => VxIter<RoNode>
@type DNMRangeIterator
subst IntoIter<DNMRange<'iter>> => VxIter<DNMRange<'iter>>
@fn Iterator for RoNodeIterator::next
@inherent impl<'iter> RoNodeIterator<'iter>
@props C28
@ret r
@contract
    ensures
        final(self).document == old(self).document,
        old(self).walker.rest().len() == 0 ==> r is None && final(self).walker.rest() == old(self).walker.rest(),
        old(self).walker.rest().len() > 0 ==> r is Some && std_model((r->0).dnm, old(self).walker.rest()[0]) && (r->0).document == old(self).document && final(self).walker.rest() == old(self).walker.rest().skip(1),
@fn Iterator for DNMRangeIterator::next
@inherent impl<'iter> DNMRangeIterator<'iter>
@props C28
@ret r
@contract
    requires all_ok(old(self).walker.rest())
    ensures
        final(self).document == old(self).document, all_ok(final(self).walker.rest()),
        filled(old(self).walker.rest()).len() == 0 ==> r is None && filled(final(self).walker.rest()).len() == 0,
        filled(old(self).walker.rest()).len() > 0 ==> r is Some && (r->0).range == filled(old(self).walker.rest())[0] && (r->0).document == old(self).document && filled(final(self).walker.rest()) == filled(old(self).walker.rest()).skip(1),
    decreases old(self).walker.rest().len()
@fn XPathFilteredIterator for ItemDNM::get_document
@inherent impl<'p> ItemDNM<'p>
@props C28
@ret r
@contract
    ensures r == self.document
@fn XPathFilteredIterator for ItemDNM::to_sentences
@inherent impl<'p> ItemDNM<'p>
@props C28
@ret r
@contract
    requires self.dnm.wf()
    ensures in_order(&self.dnm, r@), all_ok(r@), bounds(r@) == bounds(sentences_of(self.document.corpus.tokenizer, &self.dnm))
@at entry
    proof { lemma_ok_of(&self.dnm); }
@fn XPathFilteredIterator::iter
@inherent impl<'p> ItemDNM<'p>
@props C28
@ret r
@contract
    requires old(self).dnm.wf()
    ensures r.document == old(self).document, in_order(&old(self).dnm, r.walker.rest()), all_ok(r.walker.rest()), bounds(r.walker.rest()) == bounds(sentences_of(old(self).document.corpus.tokenizer, &old(self).dnm))
@extra Tokenizer::sentences
    bounds(r@) == bounds(sentences_of(*self, dnm)),
@src src/parallel_data.rs
@fn ItemDNMRange::word_iter
@props C28
@ret r
@contract
    requires old(self).range.ok()
    ensures r.document == old(self).document, addresses(old(self).range, r.walker.rest(), word_runs(old(self).range.text())), all_ok(r.walker.rest()),
@fn ItemDNMRange::word_and_punct_iter
@props C28
@ret r
@contract
    requires old(self).range.ok()
    ensures r.document == old(self).document, addresses(old(self).range, r.walker.rest(), toks(old(self).range.text(), 0)), all_ok(r.walker.rest()),
@fn ItemDNM::word_iter
@props C28
@ret r
@contract
    requires ranges_ok(old(self).dnm)
    ensures r.document == old(self).document, all_ok(r.walker.rest()), item_words(&old(self).dnm, r.walker.rest(), |s: Seq<char>| word_runs(s))
@fn ItemDNM::word_and_punct_iter
@props C28
@ret r
@contract
    requires ranges_ok(old(self).dnm)
    ensures r.document == old(self).document, all_ok(r.walker.rest()), item_words(&old(self).dnm, r.walker.rest(), |s: Seq<char>| toks(s, 0))
@src src/parallel_data/document.rs
@include docnew.inc
@src src/parallel_data/document.rs
@fn Document::xpath_nodes
@props C28
@ret r
@contract
    ensures r@ == doc.select(xpath_str@)
@fn Document::xpath_node
@props C28
@ret r
@contract
    ensures r == first_of(doc.select(xpath_str@))
@fn Document::heading_nodes
@props C28
@ret r
@contract
    ensures r@ == headings(*doc)
@fn Document::get_heading_nodes
@props C28
@ret r
@contract
    ensures r@ == headings(self.dom)
@fn Document::heading_iter
@props C28
@ret r
@contract
    ensures r.walker.rest() == headings(self.dom), r.document == self
@fn Document::paragraph_nodes
@props C28
@ret r
@contract
    ensures r@ == paragraphs(*doc)
@fn Document::get_paragraph_nodes
@props C28
@ret r
@contract
    ensures r@ == paragraphs(self.dom)
@fn Document::paragraph_iter
@props C28
@ret r
@contract
    ensures r.walker.rest() == paragraphs(self.dom), r.document == self
@fn Document::abstract_p_node
@props C28
@ret r
@contract
    ensures r == first_of(abstract_ps(*doc))
@fn Document::keywords_node
@props C28
@ret r
@contract
    ensures r == first_of(keyword_divs(*doc))
@fn Document::acknowledgement_node
@props C28
@ret r
@contract
    ensures r == first_of(acknowledgements(*doc))
@fn Document::caption_nodes
@props C28
@ret r
@contract
    ensures r@ == captions(*doc)
@fn Document::extended_paragraph_iter
@props C28
@ret r
@contract
    ensures r.walker.rest() =~= extended(self.dom), r.document == self
@fn Document::math_nodes
@props C28
@ret r
@contract
    ensures r@ == maths(*doc)
@fn Document::get_math_nodes
@props C28
@ret r
@contract
    ensures r@ == maths(self.dom)
@fn Document::ref_nodes
@props C28
@ret r
@contract
    ensures r@ == references(*doc)
@fn Document::get_ref_nodes
@props C28
@ret r
@contract
    ensures r@ == references(self.dom)
@fn Document::sentence_iter
@props C28
@ret r
@contract
    requires consistent(old(self).corpus.dnm_parameters), old(self).dnm is Some ==> (old(self).dnm->0).wf(), old(self).dnm is Some || old(self).dom.root() is Some
    ensures
        r.document.dnm is Some, r.document.dom == old(self).dom, r.document.corpus == old(self).corpus,
        old(self).dnm is Some ==> r.document.dnm == old(self).dnm, old(self).dnm is None ==> model_of(r.document.dnm->0, old(self).corpus.dnm_parameters, old(self).dom.root()->0),
        in_order(&(r.document.dnm->0), r.walker.rest()), all_ok(r.walker.rest()), bounds(r.walker.rest()) == bounds(sentences_of(old(self).corpus.tokenizer, &(r.document.dnm->0))),
@at before-call sentences 0
    proof { lemma_ok_of(&self.dnm->0); }
@fn Document::get_xpath_nodes
@props C28
@ret r
@contract
    ensures r@ == self.dom.select(xpath_str@)
@fn Document::get_xpath_node
@props C28
@ret r
@contract
    ensures r == first_of(self.dom.select(xpath_str@))
@fn Document::xpath_selector_iter
@props C28
@ret r
@contract
    ensures r.walker.rest() == self.dom.select(xpath_str@), r.document == self
@fn Document::dfs_filter_nodes
@props C28
@subst .get_child_nodes().vx_walk() => .get_child_nodes()
@ret r
@contract
    requires forall|n: &RoNode| call_requires(filter, (n,))
    ensures selected_by(*filter, preorder(node), r@)
    decreases node.height()
@at entry
    proof { node.axiom_tree(); }
    let ghost mut vx_k: Seq<bool> = Seq::empty();
@at if 0 then
    proof { vx_k = seq![true]; }
@at loop 0 before
    proof { if vx_k.len() == 0 { vx_k = seq![false]; } assert(found@ =~= vx_select(seq![node], vx_k)) by { reveal_with_fuel(vx_select, 3); assert(seq![node].drop_last() =~= Seq::<RoNode>::empty()); } assert(preorder_kids(node, 0) =~= Seq::<RoNode>::empty()); assert(seq![node] + preorder_kids(node, 0) =~= seq![node]); assert(flags_ok(*filter, seq![node] + preorder_kids(node, 0), vx_k)); }
@at loop 0 iter it
@at loop 0 inv
    invariant
        it.seq() == node.kids(), forall|n: &RoNode| call_requires(filter, (n,)),
        flags_ok(*filter, seq![node] + preorder_kids(node, it.index() as nat), vx_k), found@ == vx_select(seq![node] + preorder_kids(node, it.index() as nat), vx_k),
        forall|i: int| 0 <= i < node.kids().len() ==> (#[trigger] node.kids()[i]).height() < node.height(),
@at loop 0 start
    let ghost f0 = found@; let ghost vx_i = it.index();
@at loop 0 end
    proof {
        assert(exists|k: Seq<bool>| flags_ok(*filter, preorder(child), k) && found@ == f0 + #[trigger] vx_select(preorder(child), k));
        let k = choose|k: Seq<bool>| flags_ok(*filter, preorder(child), k) && found@ == f0 + #[trigger] vx_select(preorder(child), k);
        let a = seq![node] + preorder_kids(node, vx_i as nat);
        lemma_select_add(a, vx_k, preorder(child), k);
        assert(seq![node] + preorder_kids(node, (vx_i + 1) as nat) =~= a + preorder(child));
        let k2 = vx_k + k;
        assert forall|i: int| 0 <= i < k2.len() implies call_ensures(*filter, (&(a + preorder(child))[i],), #[trigger] k2[i]) by { if i < a.len() { assert(vx_k[i] == k2[i]); assert((a + preorder(child))[i] == a[i]); } else { assert(k[i - a.len()] == k2[i]); assert((a + preorder(child))[i] == preorder(child)[i - a.len()]); } }
        vx_k = k2;
    }
@fn Document::filter_iter
@props C28
@ret r
@contract
    requires forall|n: &RoNode| call_requires(filter, (n,)), self.dom.root() is Some
    ensures selected_by(*filter, preorder(self.dom.root()->0), r.walker.rest()), r.document == self
