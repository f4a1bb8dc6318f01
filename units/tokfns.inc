@src src/tokenizer.rs
@fn Tokenizer::sentences
@props C09
@opt eq-call
@attr #[verifier::loop_isolation(false)]
@subst VecDeque<char> => VxWindow
@subst VecDeque::with_capacity => VxWindow::with_capacity
@subst next_word_string.vx_chars().vx_next() => next_word_string.vx_first()
@subst last_left_window.vx_find(char::is_alphabetic) => last_left_window.vx_find_alphabetic()
@ret r
@contract
    requires dnm.wf()
    ensures in_order(dnm, r@), all_nonempty(r@), all_trimmed(dnm, r@),
@at entry
    proof { axiom_dot(); axiom_string_size(&dnm.plaintext); lemma_piece(dnm); assert(dnm.plaintext.cs() == dnm.plaintext@); }
@at loop 0 inv
    invariant
        text_iterator.s@ == dnm.plaintext@, text_iterator.i <= dnm.n(), end == text_iterator.i, start <= end, tiles(dnm, sentences@, start as int), all_trimmed(dnm, sentences@),
    decreases dnm.n() - text_iterator.i
@at loop 0 start
    let ghost vx_i = text_iterator.i as int;
@at loop 1 inv
    invariant
        text_iterator.s@ == dnm.plaintext@, text_iterator.i <= dnm.n(), end == text_iterator.i, start <= end, vx_i <= text_iterator.i,
    decreases dnm.n() - text_iterator.i
@at loop 2 inv
    invariant
        true
@at loop 3 inv
    invariant
        true
@at loop 4 inv
    invariant
        text_iterator.s@ == dnm.plaintext@, text_iterator.i <= dnm.n(), end == text_iterator.i, start <= end, vx_i <= text_iterator.i,
    decreases dnm.n() - text_iterator.i
@at loop 5 inv
    invariant
        true
@closure 0 |range: &DNMRange<'a>| -> (vx_r: bool) requires range.start <= range.end ensures vx_r == (range.start < range.end)
@at exit
    proof { lemma_nonempty(dnm, sentences@); }
@fn Tokenizer::words
@props C10
@opt eq-call
@ret r
@contract
    requires sentence_range.ok()
    ensures addresses(*sentence_range, r@, word_runs(sentence_range.text())), maximal_runs(sentence_range.text(), word_runs(sentence_range.text())),
@at entry
    proof { lemma_word_runs(sentence_range.text()); lemma_addresses(*sentence_range); assert(sentence_range.dnm.n() <= isize::MAX) by { axiom_string_size(&sentence_range.dnm.plaintext); } }
@at loop 0 inv
    invariant
        sentence_range.ok(), text_iterator.s@ == sentence_range.text(), text_iterator.i <= text_iterator.s@.len(), end == text_iterator.i,
        start <= end, text_iterator.s@.len() <= isize::MAX, start == run_start(text_iterator.s@, end as int), addresses(*sentence_range, result@, runs(text_iterator.s@, end as int)),
    ensures text_iterator.i == text_iterator.s@.len(),
    decreases text_iterator.s@.len() - text_iterator.i
@fn Tokenizer::words_and_punct
@props C11
@opt eq-call
@attr #[verifier::loop_isolation(false)]
@ret r
@contract
    requires range.ok()
    ensures addresses(*range, r@, toks(range.text(), 0)), partitions(range.text(), toks(range.text(), 0), 0),
@at entry
    proof { lemma_upto(*range); lemma_partitions(range.text(), 0); axiom_alnum_not_ws(); }
@at loop 0 iter it
@at loop 0 inv
    invariant
        range.ok(), it.seq() == range.text(), it.index() == end, start <= end <= range.text().len(), upto(*range, result@, start as int),
        apostrophe_flag ==> start < end && apos(range.text()[start as int]) && !alnum(range.text()[start as int]) && !is_ws(range.text()[start as int]),
        forall|j: int| start + if apostrophe_flag { 1int } else { 0 } <= j < end ==> alnum(#[trigger] range.text()[j]),
@at loop 0 start
    proof { lemma_run_through(range.text(), start + if apostrophe_flag { 1int } else { 0 }, end as int); }
@at loop 0 after
    proof { lemma_run_through(range.text(), start + if apostrophe_flag { 1int } else { 0 }, end as int); }
