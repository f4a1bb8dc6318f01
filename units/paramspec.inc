@verbatim
// ---------- C29: the documented policies ----------
enum Doc { Token(Seq<char>), Skip, Other }
spec fn doc_of(o: SpecialTagsOption) -> Doc { match o { SpecialTagsOption::Normalize(t) => Doc::Token(t@), SpecialTagsOption::Skip => Doc::Skip, _ => Doc::Other } }
spec fn is_table(m: Map<Seq<char>, SpecialTagsOption>, f: spec_fn(Seq<char>) -> Option<Doc>) -> bool {
    forall|k: Seq<char>| (#[trigger] m.dom().contains(k)) == f(k) is Some && (m.dom().contains(k) ==> Some(doc_of(m[k])) == f(k))
}
spec fn std_name(k: Seq<char>) -> Option<Doc> {
    if k == "math"@ { Some(Doc::Token("mathformula"@)) } else if k == "cite"@ { Some(Doc::Token("CitationElement"@)) }
    else if k == "img"@ || k == "table"@ || k == "head"@ || k == "footer"@ { Some(Doc::Skip) } else { None }
}
spec fn std_class(k: Seq<char>) -> Option<Doc> {
    if k == "ltx_equation"@ || k == "ltx_equationgroup"@ { Some(Doc::Token("\nmathformula\n"@)) } else if k == "ltx_ref"@ { Some(Doc::Token("REF"@)) }
    else if k == "ltx_authors"@ || k == "ltx_TOC"@ || k == "ltx_note_mark"@ || k == "ltx_note_outer"@ || k == "ltx_bibliography"@ || k == "ltx_tag_figure"@ || k == "ltx_tag_table"@ { Some(Doc::Skip) } else { None }
}
proof fn lemma_std_names()
    ensures "math"@ != "cite"@, "ltx_equation"@ != "ltx_ref"@, "ltx_equationgroup"@ != "ltx_ref"@,
        !("math"@ == "img"@ || "math"@ == "table"@ || "math"@ == "head"@ || "math"@ == "footer"@),
        !("cite"@ == "img"@ || "cite"@ == "table"@ || "cite"@ == "head"@ || "cite"@ == "footer"@),
        !is_skip_class("ltx_equation"@), !is_skip_class("ltx_equationgroup"@), !is_skip_class("ltx_ref"@),
{
    reveal_strlit("math"); reveal_strlit("cite"); reveal_strlit("img"); reveal_strlit("table"); reveal_strlit("head"); reveal_strlit("footer");
    reveal_strlit("ltx_equation"); reveal_strlit("ltx_equationgroup"); reveal_strlit("ltx_ref"); reveal_strlit("ltx_authors"); reveal_strlit("ltx_TOC"); reveal_strlit("ltx_note_mark"); reveal_strlit("ltx_note_outer"); reveal_strlit("ltx_bibliography"); reveal_strlit("ltx_tag_figure"); reveal_strlit("ltx_tag_table");
    assert("math"@[0] == 'm'); assert("cite"@[0] == 'c'); assert("img"@[0] == 'i'); assert("table"@[0] == 't'); assert("head"@[0] == 'h'); assert("footer"@[0] == 'f');
    assert("ltx_equation"@[4] == 'e'); assert("ltx_equationgroup"@[4] == 'e'); assert("ltx_ref"@[4] == 'r'); assert("ltx_authors"@[4] == 'a'); assert("ltx_TOC"@[4] == 'T'); assert("ltx_note_mark"@[4] == 'n'); assert("ltx_note_outer"@[4] == 'n'); assert("ltx_bibliography"@[4] == 'b'); assert("ltx_tag_figure"@[4] == 't'); assert("ltx_tag_table"@[4] == 't');
}
spec fn is_skip_class(k: Seq<char>) -> bool { k == "ltx_authors"@ || k == "ltx_TOC"@ || k == "ltx_note_mark"@ || k == "ltx_note_outer"@ || k == "ltx_bibliography"@ || k == "ltx_tag_figure"@ || k == "ltx_tag_table"@ }
spec fn std_params(p: DNMParameters) -> bool {
    is_table(p.special_tag_name_options@, |k: Seq<char>| std_name(k)) && is_table(p.special_tag_class_options@, |k: Seq<char>| std_class(k))
    && p.wrap_tokens && p.normalize_unicode && p.support_back_mapping && !p.normalize_white_spaces && !p.stem_words_once && !p.stem_words_full && !p.convert_to_lowercase
}
