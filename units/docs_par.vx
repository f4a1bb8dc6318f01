@include prelude.inc
@include hashmap.inc
@include eq.inc
@include text.inc
@include node.inc
@include dnmtypes.inc
@include visit.inc
@include visitspec.inc
@include tokenspec.inc
@include paramspec.inc
@include docspec.inc
@contracts paramfns.inc
@contracts rangefns.inc
@contracts dnmnew.inc
@contracts tokfns.inc
@method into_iter => vx_walk
@method extend => vx_extend
@method ends_with => vx_ends_with
@include pardocs.inc
