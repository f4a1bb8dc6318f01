@include prelude.inc
@include hashmap.inc
@include eq.inc
@include text.inc
@include node.inc
@method is_empty => vx_is_empty
@method to_string => vx_to_string
@include utilfns.inc
