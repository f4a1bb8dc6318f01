@include prelude.inc
@include hashmap.inc
@include eq.inc
@include text.inc
@include words.inc
@include lower.inc
@include node.inc
@include regex.inc
@include dnmtypes.inc
@contracts rangefns.inc
@include lexspec.inc
@contracts lexfns.inc
@method chars => vx_chars
@method filter => vx_filter
@method collect => vx_collect
@method is_alphanumeric => vx_is_alphanumeric
@method to_lowercase => vx_to_lowercase
@method to_string => vx_to_string
@method len => vx_len
@method contains => vx_contains
@method into => vx_into
@path String::from => vx_string_from
@path String::new => vx_string_new
@path dnm::node::lexematize_math => lexematize_math
@include lexicalfns.inc
