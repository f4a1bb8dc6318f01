@include prelude.inc
@include hashmap.inc
@include eq.inc
@include text.inc
@include node.inc
@include dnmtypes.inc
@include paramspec.inc
@method to_string => vx_to_string
@path Default::default => DNMParameters::default
@include paramfns.inc
