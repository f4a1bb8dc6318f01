@include prelude.inc
@include hashmap.inc
@include eq.inc
@include text.inc
@include node.inc
@include dnmtypes.inc
@contracts rangefns.inc
@include token.inc
@method chars => vx_chars
@method rev => vx_rev
@method peekable => vx_peekable
@method peek => vx_peek
@method next => vx_next
@method collect => vx_collect
@method filter => vx_filter
@method into_iter => vx_into_iter
@method iter => vx_iter
@method count => vx_count
@method to_lowercase => vx_to_lowercase
@method starts_with => vx_starts_with
@method is_empty => vx_is_empty
@method split => vx_split
@method find => vx_find
@method last => vx_last
@path cmp::min => vx_min
@verbatim
impl<'a> DNMRange<'a> { fn vx_is_empty(&self) -> (r: bool) ensures r == (self.start == self.end), self.ok() ==> r == (self.text().len() == 0) { self.is_empty() } }
@src src/tokenizer.rs
@type Tokenizer
subst HashSet<&'static str> => VxWordSet
subst Regex => VxRegex
@fn wordlike_with_upper_next
@props C09
@subst peekable: Peekable<Chars> => peekable: VxPeek
@subst in peekable => in peekable.rest()
@fn Tokenizer::abbreviation_check
@props C09
@subst VecDeque<char> => VxWindow
@subst lw_str.trim() => lw_str.vx_trim()
@closure 0 |c: char| -> (vx_r: bool)
@include tokfns.inc
@src src/tokenizer.rs
@fn is_bounded
@attr #[verifier::external_body]
@opt novac
@fn next_word_with_length
@props C09
@attr #[verifier::loop_isolation(false)]
@subst &mut Peekable<Chars> => &mut VxPeek
@ret r
@contract
    requires old(text_iterator).i <= old(text_iterator).s@.len()
    ensures r.0@.len() == r.1, final(text_iterator).s == old(text_iterator).s, final(text_iterator).i == old(text_iterator).i + r.1, final(text_iterator).i <= old(text_iterator).s@.len(),
@at entry
    proof { axiom_dot(); }
@at loop 0 inv
    invariant
        text_iterator.s == old(text_iterator).s, text_iterator.i == old(text_iterator).i + next_word_length, next_word@.len() == next_word_length, text_iterator.i <= text_iterator.s@.len(), next_word_length <= 20,
    decreases 20 - next_word_length
