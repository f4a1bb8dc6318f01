@src src/util/data_helpers.rs
@type LexicalOptions
@include lexicalspec.inc
@src src/util/data_helpers.rs
@type MAX_WORD_LENGTH
@fn static:IS_NUMERIC
@props C27
@ret r
@contract
    ensures r.pat() == numeric_pattern()
@fn Default for LexicalOptions::default
@props C27 C30
@ret r
@contract
    ensures !r.discard_math, r.discard_punct, r.discard_case
@fn ams_normalize_word_range
@props C27
@subst Box<dyn Error> => VxErr
@ret r
@contract
    requires range.ok(), range.start < range.dnm.back_map@.len()
    ensures match r { Ok(w) => !too_long(range.text(), options) && w@ == normal_word(range.text(), range.dnm.back_map@[range.start as int].0, options), Err(_) => too_long(range.text(), options) }
@at entry
    proof { lemma_kept_all(range.text()); lemma_kept_all(str_low(range.text())); }
@closure 0 |c: &char| -> (vx_r: bool) ensures vx_r == alnum(*c)
