@verbatim
// ---------- senna: opaque tags, words, parse trees ----------
#[verifier::external_body]
struct POS { _p: usize }
impl Clone for POS { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { POS { _p: self._p } } }
impl Copy for POS {}
impl VxEq<POS> for POS { spec fn veq(&self, o: &POS) -> bool { *self == *o } #[verifier::external_body] fn vx_eq_to(&self, o: &POS) -> (r: bool) { unimplemented!() } }
#[verifier::external_body]
struct Phrase { _p: usize }
impl Clone for Phrase { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { Phrase { _p: self._p } } }
impl Copy for Phrase {}
impl VxEq<Phrase> for Phrase { spec fn veq(&self, o: &Phrase) -> bool { *self == *o } #[verifier::external_body] fn vx_eq_to(&self, o: &Phrase) -> (r: bool) { unimplemented!() } }
@src src/patterns/rules.rs
@type PatternMarker
@type MathMarker
@type TextMarker
@type MarkerEnum
@type MathChildrenMatchType
@type MathDescendantMatchType
@type PhraseMatchType
@type SequenceContainment
@type SequenceMatchType
@type MathPattern
@type MTextPattern
@type PosPattern
@type WordPattern
@type SequencePattern
@type MetaDescription
@type WordRule
@type PosRule
@type MathRule
@type MTextRule
@type SequenceRule
@type PatternFile
@verbatim
impl VxEq<MathChildrenMatchType> for MathChildrenMatchType { spec fn veq(&self, o: &MathChildrenMatchType) -> bool { *self == *o } #[verifier::external_body] fn vx_eq_to(&self, o: &MathChildrenMatchType) -> (r: bool) { unimplemented!() } }
impl VxEq<MathDescendantMatchType> for MathDescendantMatchType { spec fn veq(&self, o: &MathDescendantMatchType) -> bool { *self == *o } #[verifier::external_body] fn vx_eq_to(&self, o: &MathDescendantMatchType) -> (r: bool) { unimplemented!() } }
impl VxEq<PhraseMatchType> for PhraseMatchType { spec fn veq(&self, o: &PhraseMatchType) -> bool { *self == *o } #[verifier::external_body] fn vx_eq_to(&self, o: &PhraseMatchType) -> (r: bool) { unimplemented!() } }
impl VxEq<SequenceContainment> for SequenceContainment { spec fn veq(&self, o: &SequenceContainment) -> bool { *self == *o } #[verifier::external_body] fn vx_eq_to(&self, o: &SequenceContainment) -> (r: bool) { unimplemented!() } }
impl VxEq<SequenceMatchType> for SequenceMatchType { spec fn veq(&self, o: &SequenceMatchType) -> bool { *self == *o } #[verifier::external_body] fn vx_eq_to(&self, o: &SequenceMatchType) -> (r: bool) { unimplemented!() } }
impl Clone for PatternMarker { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
