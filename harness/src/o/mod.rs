use crate::core::Prop;
pub mod c14n;
pub mod corpus;
pub mod dnm;
pub mod docs;
pub mod interop;
pub mod ngrams;
pub mod pat;
pub mod range;
pub mod title;
pub mod tok;
pub mod util;
pub fn all() -> Vec<Prop> {
  let mut v = Vec::new();
  v.extend(dnm::props());
  v.extend(c14n::props());
  v.extend(docs::props());
  v.extend(interop::props());
  v.extend(corpus::props());
  v.extend(range::props());
  v.extend(tok::props());
  v.extend(ngrams::props());
  v.extend(util::props());
  v.extend(pat::props());
  v.extend(title::props());
  v
}
