@include prelude.inc
@include hashmap.inc
@include eq.inc
@include text.inc
@include node.inc
@include dnmtypes.inc
@include visit.inc
@include visitspec.inc
@include tokenspec.inc
@include paramspec.inc
@include docspec.inc
@include seqspec.inc
@contracts paramfns.inc
@contracts rangefns.inc
@contracts dnmnew.inc
@contracts tokfns.inc
@method into_iter => vx_walk
@method ends_with => vx_ends_with
@method to_owned => vx_to_string
@path Box::new => vx_same
@path POS::NOT_SET => vx_pos_not_set()
@verbatim
fn vx_same<T>(x: T) -> (r: T) ensures r == x { x }
@include seqdocs.inc
@extra Tokenizer::sentences
    bounds(r@) == bounds(sentences_of(*self, dnm)),
