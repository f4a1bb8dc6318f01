@verbatim
// ---------- lower case ----------
uninterp spec fn low(c: char) -> Seq<char>;                // char::to_lowercase
uninterp spec fn str_low(s: Seq<char>) -> Seq<char>;       // str::to_lowercase
trait VxLower { type Out; spec fn vx_is_lower(&self, r: Self::Out) -> bool; fn vx_to_lowercase(&self) -> (r: Self::Out) ensures self.vx_is_lower(r); }
impl VxLower for char { type Out = Vec<char>; spec fn vx_is_lower(&self, r: Vec<char>) -> bool { r@ == low(*self) } #[verifier::external_body] fn vx_to_lowercase(&self) -> (r: Vec<char>) { (*self).to_lowercase().collect() } }
impl VxLower for String { type Out = String; spec fn vx_is_lower(&self, r: String) -> bool { r@ == str_low(self@) } #[verifier::external_body] fn vx_to_lowercase(&self) -> (r: String) { self.to_lowercase() } }
impl VxLower for str { type Out = String; spec fn vx_is_lower(&self, r: String) -> bool { r@ == str_low(self@) } #[verifier::external_body] fn vx_to_lowercase(&self) -> (r: String) { self.to_lowercase() } }
