@include prelude.inc
@include hashmap.inc
@include eq.inc
@include text.inc
@include node.inc
@include dnmtypes.inc
@method chars => vx_chars
@method rev => vx_rev
@method trim_end => vx_trim_end
@method is_whitespace => vx_is_whitespace
@method to_string => vx_to_string
@method into => vx_into
@include xptrspec.inc
@include rangefns.inc
@include xptrfns.inc
