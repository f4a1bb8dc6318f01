@include prelude.inc
@include hashmap.inc
@include eq.inc
@include text.inc
@include node.inc
@include regex.inc
@include dnmtypes.inc
@include visit.inc
@include visitspec.inc
@include lexspec.inc
@include paramspec.inc
@contracts paramfns.inc
@contracts dnmnew.inc
@include interopspec.inc
@method map => vx_map
@method filter => vx_filter
@method collect => vx_collect
@method is_empty => vx_is_empty
@method split => vx_split_on
@method join => vx_join
@method to_string => vx_to_string
@method get_mut => vx_get_mut
@method make_ascii_uppercase => vx_upper
@method unwrap_or_default => vx_or_default
@method len => vx_len
@path String::from => vx_string_from
@path c14n::rebuild_normalized_text => rebuild_normalized_text
@src src/dnm/c14n.rs
@fn static:MATH_LEXEMES_RE
@props C34
@ret r
@contract
    ensures r.pat() == lexeme_run()
@fn make_ascii_titlecase
@props C34
@ret r
@contract
    ensures r@ == titled(s@)
@at entry
    proof { lemma_first(s@); }
@fn rebuild_normalized_text
@props C34
@ret r
@contract
    ensures r@ == rebuilt(text@)
@closure 0 |line: &&str| -> (vx_r: bool) ensures vx_r == (line@.len() > 0)
@closure 1 |line: &str| -> (vx_r: String) ensures vx_r@ == re_replaced(lexeme_run(), line@, "mathformula "@)
@closure 2 |line: String| -> (vx_r: String) ensures vx_r@ == titled(line@)
@at entry
    proof { lemma_lines(); lemma_finished(); reveal_strlit("\n"); assert("\n"@ =~= seq!['\n']); }
@src src/dnm/mod.rs
@fn DNM::from_str
@props C34
@subst Box<dyn Error> => VxErr
@ret r
@contract
    requires storable(text@), params_opt is Some ==> consistent(params_opt->0)
    ensures
        r is Ok, (r->Ok_0).0.root() is Some, para_doc((r->Ok_0).0.tree(), text@), model_of((r->Ok_0).1, params_opt, text@), (r->Ok_0).1.root_node == (r->Ok_0).0.tree(),
@at entry
    proof { VX_REVEAL_LITS; }
@at result
    proof { axiom_built(&root); axiom_built(&body); axiom_built(&para); lemma_steps(); lemma_model((vx_res->Ok_0).1.parameters, (vx_res->Ok_0).1.root_node, text@); }
@fn DNM::from_ams_paragraph_str
@props C34
@subst Box<dyn Error> => VxErr
@ret r
@contract
    requires storable(rebuilt(text@)), params is Some ==> consistent(params->0)
    ensures
        r is Ok, (r->Ok_0).0.root() is Some, para_doc((r->Ok_0).0.tree(), rebuilt(text@)), model_of((r->Ok_0).1, params, rebuilt(text@)), (r->Ok_0).1.root_node == (r->Ok_0).0.tree(),
