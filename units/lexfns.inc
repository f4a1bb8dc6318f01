@src src/dnm/node.rs
@fn static:LEXEME_END_MARKER
@props C16
@ret r
@contract
    ensures r.pat() == end_marker()
@fn lexematize_math
@props C16
@ret r
@contract
    ensures r@ == lexeme_string(node), tidy(r@)
@at entry
    proof { axiom_xpath(node); axiom_ascii_ws(); lemma_lexeme_string(node); reveal_strlit(":end"); reveal_strlit(":end "); reveal_strlit(":start"); reveal_strlit(":start "); reveal_strlit(" ");
        assert(":end "@ =~= ":end"@ + " "@); assert(":start "@ =~= ":start"@ + " "@); }
@closure 0 |anno: &RoNode| -> (vx_r: String) ensures exists|v: Seq<String>| vx_r@ == joined(#[trigger] strs(v), " "@) && v.len() == lexeme_words(anno.content()).len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@ == lexeme(lexeme_words(anno.content())[i])
@closure 1 |anno_word: &str| -> (vx_r: String) requires is_word(anno_word@) ensures vx_r@ =~= lexeme(anno_word@)
@closure 2 |c: char| -> (vx_r: char) ensures c != '\n' ==> vx_r == plain_char(c)
@closure 3 |lexeme_words: &String| -> (vx_r: bool) ensures vx_r == (lexeme_words@.len() > 0)
@at before-call vx_chars 0
    proof { lemma_plain(anno_word@); }
@at before-call vx_split_whitespace 0
    proof { lemma_words(annotation_string@); }
@at after-call vx_join 3
    proof {
        let ns = annos(node);
        let (m, k) = choose|m: Seq<String>, k: Seq<bool>| lexemes@ == joined(strs(#[trigger] vx_select(m, k)), " "@) && m.len() == ns.len() && k.len() == ns.len() && (forall|i: int| 0 <= i < ns.len() ==> #[trigger] k[i] == (m[i]@.len() > 0))
            && forall|i: int| 0 <= i < ns.len() ==> exists|v: Seq<String>| (#[trigger] m[i])@ == joined(#[trigger] strs(v), " "@) && v.len() == lexeme_words(ns[i].content()).len() && forall|j: int| 0 <= j < v.len() ==> (#[trigger] v[j])@ == lexeme(lexeme_words(ns[i].content())[j]);
        assert forall|i: int| 0 <= i < ns.len() implies is_join((#[trigger] m[i])@, ns[i]) by {
            let v = choose|v: Seq<String>| m[i]@ == joined(#[trigger] strs(v), " "@) && v.len() == lexeme_words(ns[i].content()).len() && forall|j: int| 0 <= j < v.len() ==> (#[trigger] v[j])@ == lexeme(lexeme_words(ns[i].content())[j]);
            assert(strs(v) =~= lex_all(lexeme_words(ns[i].content())));
        }
        lemma_total(m, k, ns);
        assert(lexemes@.len() > 0 || vx_select(m, k).len() == 0) by { if all_words(ns).len() > 0 { assert(tidy(lexemes@)); } }
        assert(all_words(ns).len() == 0 ==> lex_all(all_words(ns)) =~= Seq::<Seq<char>>::empty());
    }
