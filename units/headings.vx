@include prelude.inc
@include hashmap.inc
@include eq.inc
@include text.inc
@include node.inc
@include regex.inc
@include dnmtypes.inc
@include visit.inc
@include visitspec.inc
@include tokenspec.inc
@include paramspec.inc
@include docspec.inc
@include lexspec.inc
@contracts paramfns.inc
@contracts rangefns.inc
@contracts dnmnew.inc
@contracts tokfns.inc
@contracts lexfns.inc
@method into_iter => vx_walk
@method to_owned => vx_to_string
@method to_string => vx_to_string
@method chars => vx_chars
@method filter => vx_filter
@method collect => vx_collect
@method is_alphanumeric => vx_is_alphanumeric
@method to_lowercase => vx_to_lowercase
@method len => vx_len
@method contains => vx_contains
@method into => vx_into
@path String::new => vx_string_new
@contracts lexicalfns.inc
@verbatim
// ---------- C31: the text of a heading ----------
spec fn dflt() -> LexicalOptions { LexicalOptions { discard_math: false, discard_punct: true, discard_case: true } }
spec fn heading_word(d: DNM, i: int) -> Seq<char> { let w = word_runs(d.plaintext@)[i]; d.plaintext@.subrange(w.0, w.1) }
spec fn heading_normal(d: DNM, i: int) -> Seq<char> { normal_word(heading_word(d, i), d.back_map@[word_runs(d.plaintext@)[i].0].0, dflt()) }
// the first k words: numbers and words of which nothing is left are dropped, the others are each followed by a space
spec fn heading_upto(d: DNM, k: int) -> Seq<char> decreases k {
    if k <= 0 { Seq::empty() } else { let w = heading_normal(d, k - 1); heading_upto(d, k - 1) + if w.len() == 0 || w == "NUM"@ { Seq::empty() } else { w + " "@ } }
}
spec fn heading_text(d: DNM) -> Seq<char> { heading_upto(d, word_runs(d.plaintext@).len() as int) }
spec fn heading_bad(d: DNM) -> bool { exists|i: int| 0 <= i < word_runs(d.plaintext@).len() && too_long(#[trigger] heading_word(d, i), dflt()) }
@src src/util/data_helpers.rs
@fn heading_from_node_aux
@props C31
@ret r
@opt eq-call
@contract
    ensures exists|d: DNM| #[trigger] std_model(d, node) && match r { Some(h) => !heading_bad(d) && h@ == heading_text(d), None => heading_bad(d) }
@at loop 0 iter it
@at loop 0 before
    let ghost vx_d = heading_dnm;
    let ghost vx_r = word_runs(vx_d.plaintext@);
    proof { assert(heading_range.text() =~= vx_d.plaintext@); lemma_word_runs(vx_d.plaintext@); assert(std_model(vx_d, node)); }
@at loop 0 inv
    invariant
        std_model(vx_d, node), vx_r == word_runs(vx_d.plaintext@), maximal_runs(vx_d.plaintext@, vx_r), heading_range.text() == vx_d.plaintext@, *heading_range.dnm == vx_d, heading_range.start == 0, heading_range.ok(),
        addresses(heading_range, it.seq(), vx_r), heading_text@ == heading_upto(vx_d, it.index() as int), forall|i: int| 0 <= i < it.index() ==> !too_long(#[trigger] heading_word(vx_d, i), dflt()),
@at loop 0 start
    proof { assert(word_range == it.seq()[it.index() as int]); assert(heading_word(vx_d, it.index() as int) == word_range.text()); assert(maximal(vx_d.plaintext@, vx_r[it.index() as int].0, vx_r[it.index() as int].1)); reveal_strlit(" "); reveal_strlit("NUM");
        if too_long(word_range.text(), dflt()) { assert(too_long(heading_word(vx_d, it.index() as int), dflt())); assert(heading_bad(vx_d)); } }
@at loop 0 end
    proof { assert(heading_upto(vx_d, it.index() + 1) =~= heading_text@); }
