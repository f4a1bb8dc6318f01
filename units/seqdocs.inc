@src src/data.rs
@type Corpus
@type DocumentIterator
subst Box<WalkDirIterator> => WalkDirIterator
@type Document
@type ParagraphIterator
subst IntoIter<RoNode> => VxIter<RoNode>
@type Paragraph
@type SentenceIterator
subst IntoIter<DNMRange<'iter>> => VxIter<DNMRange<'iter>>
@type Sentence
subst SennaSentence<'s> => VxSennaSentence
@type SimpleWordIterator
subst IntoIter<DNMRange<'iter>> => VxIter<DNMRange<'iter>>
@type SennaWordIterator
@type Word
@verbatim
uninterp spec fn default_tokenizer() -> Tokenizer;
impl Tokenizer { #[verifier::external_body] fn default() -> (r: Self) ensures r == default_tokenizer() { unimplemented!() } }
@src src/data.rs
@fn Default for Corpus::default
@inherent impl Corpus
@props C25 C30
@ret r
@contract
    ensures r.extension is None, !r.xml_parser.html(), r.html_parser.html(), std_params(r.dnm_parameters), r.tokenizer == default_tokenizer(),
@fn Corpus::new
@props C25
@ret r
@contract
    ensures r.path == dirpath, r.extension is None, !r.xml_parser.html(), r.html_parser.html(), std_params(r.dnm_parameters),
@fn Document::new
@props C25 C30
@ret r
@contract
    requires !corpus.xml_parser.html(), corpus.html_parser.html()
    ensures r is Ok == parsed_file(filepath@) is Some, r is Ok ==> (r->Ok_0).path@ == filepath@ && (r->Ok_0).corpus == corpus && (r->Ok_0).dnm is None && Some((r->Ok_0).dom) == parsed_file(filepath@)
@fn Corpus::load_doc
@props C25
@ret r
@contract
    requires !self.xml_parser.html(), self.html_parser.html()
    ensures r is Ok == parsed_file(path@) is Some, r is Ok ==> (r->Ok_0).path@ == path@ && (r->Ok_0).corpus == self && Some((r->Ok_0).dom) == parsed_file(path@)
@fn Corpus::iter
@props C25
@ret r
@contract
    ensures seq_listing(old(self).path@, r.walker.rest()), *r.corpus == *old(self)
@fn Iterator for DocumentIterator::next
@inherent impl<'iter> DocumentIterator<'iter>
@props C25
@attr #[verifier::loop_isolation(false)]
@at loop 0 attr #[verifier::allow_complex_invariants]
@ret r
@contract
    requires !old(self).corpus.xml_parser.html(), old(self).corpus.html_parser.html()
    ensures
        final(self).corpus == old(self).corpus,
        picks(old(self).walker.rest(), old(self).corpus.extension).len() == 0 ==> r is None && final(self).walker.rest().len() == 0,
        picks(old(self).walker.rest(), old(self).corpus.extension).len() > 0 ==> picks(final(self).walker.rest(), old(self).corpus.extension) == picks(old(self).walker.rest(), old(self).corpus.extension).skip(1) && final(self).walker.rest().len() < old(self).walker.rest().len(),
        picks(old(self).walker.rest(), old(self).corpus.extension).len() > 0 ==> (r is Some == parsed_file(picks(old(self).walker.rest(), old(self).corpus.extension)[0]) is Some),
        r is Some ==> (r->0).path@ == picks(old(self).walker.rest(), old(self).corpus.extension)[0] && (r->0).corpus == old(self).corpus && Some((r->0).dom) == parsed_file(picks(old(self).walker.rest(), old(self).corpus.extension)[0]),
@at loop 0 before
    let ghost vx_w = *final(walker);
@at loop 0 start
    proof { lemma_picks(self.corpus.extension); }
@at loop 0 inv
    invariant_except_break
        !self.corpus.xml_parser.html(), self.corpus.html_parser.html(), self.corpus == old(self).corpus,
        picks(walker.rest(), self.corpus.extension) == picks(old(self).walker.rest(), self.corpus.extension),
        walker.rest().len() <= old(self).walker.rest().len(), *final(walker) == vx_w,
    ensures *final(walker) == vx_w, self.corpus == old(self).corpus, walker.rest().len() == 0, picks(old(self).walker.rest(), self.corpus.extension).len() == 0,
    decreases walker.rest().len()
@fn Document::paragraph_nodes
@props C28 C30
@ret r
@contract
    ensures r@ == paragraphs(*doc)
@fn Document::paragraph_iter
@props C28 C30
@ret r
@contract
    ensures r.walker.rest() == paragraphs(old(self).dom), *r.document == *old(self)
@fn Document::math_nodes
@props C28
@ret r
@contract
    ensures r@ == maths(*doc)
@fn Document::get_math_nodes
@props C28
@ret r
@contract
    ensures r@ == maths(self.dom)
@fn Document::ref_nodes
@props C28
@ret r
@contract
    ensures r@ == references(*doc)
@fn Document::get_ref_nodes
@props C28
@ret r
@contract
    ensures r@ == references(self.dom)
@fn Document::sentence_iter
@props C28
@ret r
@contract
    requires consistent(old(self).corpus.dnm_parameters), old(self).dnm is None ==> old(self).dom.root() is Some, old(self).dnm is Some ==> (old(self).dnm->0).wf()
    ensures
        r.document.dnm is Some, r.document.dom == old(self).dom, r.document.corpus == old(self).corpus,
        old(self).dnm is Some ==> r.document.dnm == old(self).dnm, old(self).dnm is None ==> model_of(r.document.dnm->0, old(self).corpus.dnm_parameters, old(self).dom.root()->0),
        in_order(&(r.document.dnm->0), r.walker.rest()), all_ok(r.walker.rest()), bounds(r.walker.rest()) == bounds(sentences_of(old(self).corpus.tokenizer, &(r.document.dnm->0))),
@at before-call sentences 0
    proof { lemma_ok_of(&self.dnm->0); }
@fn Iterator for ParagraphIterator::next
@inherent impl<'iter> ParagraphIterator<'iter>
@props C28 C30
@ret r
@contract
    ensures
        final(self).document == old(self).document,
        old(self).walker.rest().len() == 0 ==> r is None && final(self).walker.rest() == old(self).walker.rest(),
        old(self).walker.rest().len() > 0 ==> r is Some && std_model((r->0).dnm, old(self).walker.rest()[0]) && (r->0).document == old(self).document && final(self).walker.rest() == old(self).walker.rest().skip(1),
@fn Paragraph::iter
@props C28 C30
@ret r
@contract
    requires old(self).dnm.wf()
    ensures r.document == old(self).document, in_order(&old(self).dnm, r.walker.rest()), all_ok(r.walker.rest()), bounds(r.walker.rest()) == bounds(sentences_of(old(self).document.corpus.tokenizer, &old(self).dnm))
@at entry
    proof { lemma_ok_of(&self.dnm); }
@fn Iterator for SentenceIterator::next
@inherent impl<'iter> SentenceIterator<'iter>
@props C28 C30
@ret r
@contract
    requires all_ok(old(self).walker.rest())
    ensures
        final(self).document == old(self).document, all_ok(final(self).walker.rest()),
        filled(old(self).walker.rest()).len() == 0 ==> r is None && filled(final(self).walker.rest()).len() == 0,
        filled(old(self).walker.rest()).len() > 0 ==> r is Some && (r->0).range == filled(old(self).walker.rest())[0] && (r->0).document == old(self).document && (r->0).senna_sentence is None && filled(final(self).walker.rest()) == filled(old(self).walker.rest()).skip(1),
    decreases old(self).walker.rest().len()
@fn Sentence::simple_iter
@props C28 C30
@ret r
@contract
    requires old(self).range.ok()
    ensures *r.sentence == *old(self), addresses(old(self).range, r.walker.rest(), word_runs(old(self).range.text()))
@fn Iterator for SimpleWordIterator::next
@inherent impl<'iter> SimpleWordIterator<'iter>
@props C28 C30
@ret r
@contract
    ensures
        final(self).sentence == old(self).sentence,
        old(self).walker.rest().len() == 0 ==> r is None && final(self).walker.rest() == old(self).walker.rest(),
        old(self).walker.rest().len() > 0 ==> r is Some && (r->0).range == old(self).walker.rest()[0] && (r->0).sentence == old(self).sentence && (r->0).pos == pos_not_set() && final(self).walker.rest() == old(self).walker.rest().skip(1),
@fn Iterator for SennaWordIterator::next
@inherent impl<'iter> SennaWordIterator<'iter>
@props C28
@ret r
@contract
    requires
        old(self).sentence.senna_sentence is Some, old(self).sentence.range.ok(), old(self).pos < usize::MAX,
        forall|i: int| 0 <= i < (old(self).sentence.senna_sentence->0).words().len() ==> (#[trigger] (old(self).sentence.senna_sentence->0).words()[i]).from() < (old(self).sentence.senna_sentence->0).words()[i].to() <= blen(old(self).sentence.range.text()),
    ensures
        final(self).sentence == old(self).sentence, final(self).pos == old(self).pos + 1,
        ({ let ws = (old(self).sentence.senna_sentence->0).words(); let k = old(self).pos as int;
           if k >= ws.len() { r is None }
           else { r is Some && (r->0).sentence == old(self).sentence && (r->0).pos == ws[k].tag() && (r->0).range.ok() && (r->0).range.within(old(self).sentence.range) && (r->0).range.start < (r->0).range.end
                  && is_slice(old(self).sentence.range, ws[k].from() as int, ws[k].to() as int, (r->0).range.start as int, (r->0).range.end as int) } })
