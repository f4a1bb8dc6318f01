@include prelude.inc
@include eq.inc
@include text.inc
@include regex.inc
@method as_ref => vx_str_ref
@method trim => vx_trim
@method is_empty => vx_is_empty
@method starts_with => vx_starts_with
@method ends_with => vx_ends_with
@method to_string => vx_to_string
@include titlespec.inc
@include titletypes.inc
@include titlefns.inc
