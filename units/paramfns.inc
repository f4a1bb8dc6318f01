@src src/dnm/parameters.rs
@fn Default for DNMParameters::default
@inherent impl DNMParameters
@props C29
@ret r
@contract
    ensures r.special_tag_name_options@ == Map::<Seq<char>, SpecialTagsOption>::empty(), r.special_tag_class_options@ == Map::<Seq<char>, SpecialTagsOption>::empty(),
        r.normalize_white_spaces, r.support_back_mapping,
        !r.wrap_tokens, !r.normalize_unicode, !r.stem_words_once, !r.stem_words_full, !r.convert_to_lowercase,
@fn DNMParameters::llamapun_normalization
@props C29
@ret r
@contract
    ensures std_params(r)
@at exit
    proof { lemma_std_names(); }
