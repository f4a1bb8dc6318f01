@src src/util/data_helpers.rs
@fn static:ROMAN_NUMERAL
@props C32
@ret r
@contract
    ensures r.pat() == pat_roman()
@fn static:IS_NUM
@props C32
@ret r
@contract
    ensures r.pat() == pat_num()
@fn static:SINGLE_LEAD_LETTER
@props C32
@ret r
@contract
    ensures r.pat() == pat_lead()
@fn static:SINGLE_TRAIL_LETTER
@props C32
@ret r
@contract
    ensures r.pat() == pat_trail()
@fn static:LEAD_FIXED_PHRASE
@props C32
@ret r
@contract
    ensures r.pat() == pat_phrase()
@fn static:TRAILING_FIXED_WORD
@props C32
@ret r
@contract
    ensures r.pat() == pat_word()
@fn static:COMMON_PLURALS
@props C32
@ret r
@contract
    ensures r.pat() == pat_plural()
@fn normalize_heading_title
@props C32
@opt eq-call
@ret r
@contract
    ensures r@ == heading_norm(heading@), heading_norm(r@) == r@,
    decreases heading@.len()
@at entry
    proof { lemma_stripped(heading@); lemma_norm_kinds(heading@); }
