@include prelude.inc
@include hashmap.inc
@include eq.inc
@include text.inc
@include node.inc
@include dnmtypes.inc
@include docbase.inc
@method into_iter => vx_into_iter
@method ends_with => vx_ends_with
@method enumerate => vx_enumerate
@method map => vx_map
@method filter_map => vx_filter_map
@path rayon::current_num_threads => vx_threads
@method reduce => vx_reduce
@method par_bridge => vx_par_bridge
@method to_owned => vx_to_string
@src src/parallel_data/corpus.rs
@type Corpus
@src src/parallel_data/document.rs
@type Document
@include docnew.inc
@include walkfns.inc
