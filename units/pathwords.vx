@include prelude.inc
@include hashmap.inc
@include eq.inc
@include text.inc
@include node.inc
@include regex.inc
@include dnmtypes.inc
@include visit.inc
@include visitspec.inc
@include tokenspec.inc
@include paramspec.inc
@include docspec.inc
@include seqspec.inc
@include lexspec.inc
@contracts rangefns.inc
@contracts lexfns.inc
@method into_iter => vx_walk
@method ends_with => vx_ends_with
@method to_owned => vx_to_string
@method to_string => vx_to_string
@method chars => vx_chars
@method filter => vx_filter
@method collect => vx_collect
@method is_alphanumeric => vx_is_alphanumeric
@method to_lowercase => vx_to_lowercase
@method len => vx_len
@method contains => vx_contains
@method into => vx_into
@path String::new => vx_string_new
@path data_helpers::ams_normalize_word_range => ams_normalize_word_range
@contracts lexicalfns.inc
@contracts seqdocs.inc
@verbatim
// ---------- C30 ----------
spec fn dflt() -> LexicalOptions { LexicalOptions { discard_math: false, discard_punct: true, discard_case: true } }
type Sp = (usize, usize);
spec fn sent_text(d: DNM, s: Sp) -> Seq<char> { d.plaintext@.subrange(s.0 as int, s.1 as int) }
spec fn sent_words(d: DNM, s: Sp) -> Seq<(int, int)> { word_runs(sent_text(d, s)) }
spec fn word_at(d: DNM, s: Sp, i: int) -> Seq<char> { sent_text(d, s).subrange(sent_words(d, s)[i].0, sent_words(d, s)[i].1) }
// the first k normalised words of a sentence, each followed by a space
spec fn line(d: DNM, s: Sp, k: int) -> Seq<char> decreases k {
    if k <= 0 { Seq::empty() } else { line(d, s, k - 1) + normal_word(word_at(d, s, k - 1), d.back_map@[s.0 + sent_words(d, s)[k - 1].0].0, dflt()) + " "@ }
}
spec fn sent_line(d: DNM, s: Sp) -> Seq<char> { line(d, s, sent_words(d, s).len() as int) }
spec fn sent_bad(d: DNM, s: Sp) -> bool { exists|i: int| 0 <= i < sent_words(d, s).len() && too_long(#[trigger] word_at(d, s, i), dflt()) }
// the lines of the first k sentences that have words
spec fn para_text(d: DNM, ss: Seq<Sp>, k: int) -> Seq<char> decreases k {
    if k <= 0 { Seq::empty() } else { para_text(d, ss, k - 1) + if sent_words(d, ss[k - 1]).len() > 0 { sent_line(d, ss[k - 1]) + "\n"@ } else { Seq::empty() } }
}
spec fn nonempty(v: Seq<Sp>) -> Seq<Sp> decreases v.len() { if v.len() == 0 { Seq::empty() } else if v[0].0 < v[0].1 { seq![v[0]] + nonempty(v.skip(1)) } else { nonempty(v.skip(1)) } }
spec fn para_sentences(d: DNM) -> Seq<Sp> { nonempty(bounds(sentences_of(default_tokenizer(), &d))) }
spec fn para_bad(d: DNM) -> bool { exists|j: int| 0 <= j < para_sentences(d).len() && #[trigger] sent_bad(d, para_sentences(d)[j]) }
// what a paragraph contributes
spec fn para_words(d: DNM) -> Seq<char> { if para_bad(d) { Seq::empty() } else { para_text(d, para_sentences(d), para_sentences(d).len() as int) } }
spec fn doc_words(ds: Seq<DNM>) -> Seq<char> decreases ds.len() { if ds.len() == 0 { Seq::empty() } else { doc_words(ds.drop_last()) + para_words(ds.last()) } }
spec fn models(ds: Seq<DNM>, ns: Seq<RoNode>) -> bool { ds.len() == ns.len() && forall|i: int| 0 <= i < ds.len() ==> std_model(#[trigger] ds[i], ns[i]) }
proof fn lemma_bounds_filled(v: Seq<DNMRange>)
    ensures bounds(filled(v)) == nonempty(bounds(v)), filled(v).len() == nonempty(bounds(v)).len() decreases v.len()
{ if v.len() > 0 { lemma_bounds_filled(v.skip(1)); assert(bounds(v).skip(1) =~= bounds(v.skip(1))); assert(bounds(filled(v)) =~= nonempty(bounds(v))); } else { assert(bounds(filled(v)) =~= nonempty(bounds(v))); } }
proof fn lemma_filled(d: &DNM, v: Seq<DNMRange>)
    requires all_ok(v), forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).dnm == d
    ensures forall|i: int| 0 <= i < filled(v).len() ==> (#[trigger] filled(v)[i]).dnm == d && filled(v)[i].ok() && filled(v)[i].start < filled(v)[i].end decreases v.len()
{ if v.len() > 0 { let t = v.skip(1); assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).ok() && t[i].dnm == d by { assert(t[i] == v[i + 1]); } lemma_filled(d, t); assert(v[0].ok()); assert forall|i: int| 0 <= i < filled(v).len() implies (#[trigger] filled(v)[i]).dnm == d && filled(v)[i].ok() && filled(v)[i].start < filled(v)[i].end by { if v[0].start < v[0].end { if i > 0 { assert(filled(v)[i] == filled(t)[i - 1]); } } } } }
proof fn lemma_tiles_dnm(d: &DNM, v: Seq<DNMRange>)
    requires d.wf(), in_order(d, v) ensures forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).dnm == d, all_ok(v)
{ let hi = choose|hi: int| #[trigger] tiles(d, v, hi); lemma_ok_of_tiles(d, v, hi); }
proof fn lemma_line_len(d: DNM, s: Sp, k: int) ensures line(d, s, k).len() >= k decreases k { if k > 0 { lemma_line_len(d, s, k - 1); reveal_strlit(" "); } }
@src src/util/path_helpers.rs
@fn path_to_words
@props C30
@ret r
@contract
    requires parsed_file(path@) is Some
    ensures exists|ds: Seq<DNM>| models(ds, paragraphs(parsed_file(path@)->0)) && r@ == #[trigger] doc_words(ds)
@at loop 0 next vx_paras
@at loop 1 next vx_sents
@at loop 2 next vx_words
@at loop 0 before
    let ghost mut vx_ds: Seq<DNM> = Seq::empty();
@at loop 0 inv
    invariant_except_break
        vx_ds.len() <= vx_ns.len(), vx_paras.walker.rest() == vx_ns.skip(vx_ds.len() as int),
    invariant
        vx_paras.document.corpus.tokenizer == default_tokenizer(),
        forall|i: int| 0 <= i < vx_ds.len() ==> std_model(#[trigger] vx_ds[i], vx_ns[i]), document_buffer@ == doc_words(vx_ds),
    ensures vx_ds.len() == vx_ns.len(),
    decreases vx_paras.walker.rest().len()
@at loop 0 start
    let ghost vx_d = paragraph.dnm;
    proof { assert(std_model(vx_d, vx_ns[vx_ds.len() as int])); }
@at loop 1 before
    let ghost vx_all = vx_sents.walker.rest();
    let ghost vx_fl = filled(vx_all);
    let ghost vx_ss = para_sentences(vx_d);
    let ghost mut vx_j: int = 0;
    proof { lemma_tiles_dnm(&vx_d, vx_all); lemma_filled(&vx_d, vx_all); lemma_bounds_filled(vx_all); }
@at loop 1 inv
    invariant_except_break
        !invalid_paragraph, filled(vx_sents.walker.rest()) == vx_fl.skip(vx_j), 0 <= vx_j <= vx_fl.len(), all_ok(vx_sents.walker.rest()),
        paragraph_buffer@ == para_text(vx_d, vx_ss, vx_j), forall|i: int| 0 <= i < vx_j ==> !#[trigger] sent_bad(vx_d, vx_ss[i]),
    invariant
        vx_ss == para_sentences(vx_d), vx_ss == bounds(vx_fl), vx_d.back_map@.len() == vx_d.n(),
        forall|i: int| 0 <= i < vx_fl.len() ==> *(#[trigger] vx_fl[i]).dnm == vx_d && vx_fl[i].ok() && vx_fl[i].start < vx_fl[i].end,
    ensures
        invalid_paragraph == para_bad(vx_d), !invalid_paragraph ==> paragraph_buffer@ == para_text(vx_d, vx_ss, vx_ss.len() as int),
    decreases filled(vx_sents.walker.rest()).len()
@at loop 1 start
    let ghost vx_x = vx_fl[vx_j];
    proof { assert(sentence.range == vx_x); assert(vx_ss[vx_j] == (vx_x.start, vx_x.end)); lemma_word_runs(vx_x.text()); assert(sent_text(vx_d, vx_ss[vx_j]) == vx_x.text()); }
@at loop 1 end
    proof { lemma_line_len(vx_d, vx_ss[vx_j], vx_w.len() as int); reveal_strlit("\n"); assert(para_text(vx_d, vx_ss, vx_j + 1) =~= paragraph_buffer@); vx_j = vx_j + 1; }
@at loop 2 before
    let ghost vx_w = vx_words.walker.rest();
    let ghost mut vx_k: int = 0;
@at loop 2 inv
    invariant_except_break
        vx_words.walker.rest() == vx_w.skip(vx_k), 0 <= vx_k <= vx_w.len(),
    invariant
        forall|i: int| 0 <= i < vx_fl.len() ==> *(#[trigger] vx_fl[i]).dnm == vx_d && vx_fl[i].ok() && vx_fl[i].start < vx_fl[i].end,
        0 <= vx_j < vx_fl.len(), vx_x == vx_fl[vx_j], vx_ss == para_sentences(vx_d), vx_ss == bounds(vx_fl), vx_d.back_map@.len() == vx_d.n(),
        *vx_x.dnm == vx_d, vx_x.ok(), sent_text(vx_d, vx_ss[vx_j]) == vx_x.text(), maximal_runs(vx_x.text(), word_runs(vx_x.text())), addresses(vx_x, vx_w, word_runs(vx_x.text())),
        !invalid_paragraph, sentence_buffer@ == line(vx_d, vx_ss[vx_j], vx_k), forall|i: int| 0 <= i < vx_k ==> !too_long(#[trigger] word_at(vx_d, vx_ss[vx_j], i), dflt()),
    ensures vx_k == vx_w.len(),
    decreases vx_words.walker.rest().len()
@at loop 2 start
    proof { assert(word.range == vx_w[vx_k]); assert(word_at(vx_d, vx_ss[vx_j], vx_k) == word.range.text()); assert(maximal(vx_x.text(), word_runs(vx_x.text())[vx_k].0, word_runs(vx_x.text())[vx_k].1));
        if too_long(word.range.text(), dflt()) { assert(too_long(word_at(vx_d, vx_ss[vx_j], vx_k), dflt())); assert(sent_bad(vx_d, vx_ss[vx_j])); assert(para_bad(vx_d)); } }
@at loop 2 end
    proof { reveal_strlit(" "); assert(line(vx_d, vx_ss[vx_j], vx_k + 1) =~= sentence_buffer@); vx_k = vx_k + 1; }
@at loop 0 end
    proof { let vx_ds0 = vx_ds; vx_ds = vx_ds.push(vx_d); assert(vx_ds.drop_last() =~= vx_ds0); }
@at entry
    let ghost vx_ns = paragraphs(parsed_file(path@)->0);
