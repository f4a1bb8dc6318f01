@include prelude.inc
@include hashmap.inc
@include eq.inc
@include text.inc
@include words.inc
@include node.inc
@include regex.inc
@method map => vx_map
@method iter => vx_iter
@method filter => vx_filter
@method is_empty => vx_is_empty
@method collect => vx_collect
@method split_whitespace => vx_split_whitespace
@method split => vx_split
@method join => vx_join
@method starts_with => vx_starts_with
@method chars => vx_chars
@path String::from => vx_string_from
@include lexspec.inc
@include lexfns.inc
