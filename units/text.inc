@verbatim
// ---------- strings as character sequences; byte lengths of UTF-8 ----------
spec fn u8len(c: char) -> nat { if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 } }
spec fn blen(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { blen(s.drop_last()) + u8len(s.last()) } }
proof fn lemma_blen_take(s: Seq<char>, i: int)
    requires 0 <= i < s.len() ensures blen(s.take(i + 1)) == blen(s.take(i)) + u8len(s[i]), blen(s.take(i)) < blen(s.take(i + 1))
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); }
proof fn lemma_blen_mono(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= s.len() ensures blen(s.take(i)) + (j - i) <= blen(s.take(j)) <= blen(s), i < j ==> blen(s.take(i)) < blen(s.take(j)), i < j ==> blen(s.take(j)) >= blen(s.take(j - 1)) + 1
    decreases s.len() - i
{ if i < j { lemma_blen_take(s, i); lemma_blen_mono(s, i + 1, j); lemma_blen_take(s, j - 1); }
  else if j < s.len() { lemma_blen_take(s, j); lemma_blen_mono(s, j + 1, j + 1); }
  else { assert(s.take(j) =~= s); } }
proof fn lemma_blen_add(a: Seq<char>, b: Seq<char>)
    ensures blen(a + b) == blen(a) + blen(b)
    decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_blen_add(a, b.drop_last()); } }
proof fn lemma_blen_sub(s: Seq<char>, i: int, k: int)
    requires 0 <= i <= i + k <= s.len() ensures blen(s.take(i + k)) == blen(s.take(i)) + blen(s.skip(i).take(k))
{ assert(s.take(i + k) =~= s.take(i) + s.skip(i).take(k)); lemma_blen_add(s.take(i), s.skip(i).take(k)); }
// the character boundary at byte b
spec fn at_byte(s: Seq<char>, b: int, i: int) -> bool { 0 <= i <= s.len() && blen(s.take(i)) == b }
proof fn lemma_at_byte_unique(s: Seq<char>, b: int, i: int, j: int)
    requires at_byte(s, b, i), at_byte(s, b, j) ensures i == j
{ if i < j { lemma_blen_mono(s, i, j); } if j < i { lemma_blen_mono(s, j, i); } }
// longest prefix / suffix not ending / starting with whitespace
spec fn trimmed_end(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && is_ws(s.last()) { trimmed_end(s.drop_last()) } else { s } }
spec fn trimmed_start(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && is_ws(s[0]) { trimmed_start(s.skip(1)) } else { s } }
// number of leading / trailing whitespace characters
spec fn lead_ws(s: Seq<char>) -> nat decreases s.len() { if s.len() > 0 && is_ws(s[0]) { 1 + lead_ws(s.skip(1)) } else { 0 } }
spec fn trail_ws(s: Seq<char>) -> nat decreases s.len() { if s.len() > 0 && is_ws(s.last()) { 1 + trail_ws(s.drop_last()) } else { 0 } }
proof fn lemma_lead(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> is_ws(#[trigger] s[i]), k == s.len() || !is_ws(s[k])
    ensures lead_ws(s) == k, trimmed_start(s) == s.skip(k)
    decreases k
{ if k > 0 { assert(is_ws(s[0])); let t = s.skip(1); assert forall|i: int| 0 <= i < k - 1 implies is_ws(#[trigger] t[i]) by { assert(is_ws(s[i + 1])); } lemma_lead(t, k - 1); assert(t.skip(k - 1) =~= s.skip(k)); } else { assert(s.skip(0) =~= s); } }
proof fn lemma_trail(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(), forall|i: int| s.len() - k <= i < s.len() ==> is_ws(#[trigger] s[i]), k == s.len() || !is_ws(s[s.len() - k - 1])
    ensures trail_ws(s) == k, trimmed_end(s) == s.take(s.len() - k)
    decreases k
{ if k > 0 { assert(is_ws(s[s.len() - 1])); let t = s.drop_last(); assert forall|i: int| t.len() - (k - 1) <= i < t.len() implies is_ws(#[trigger] t[i]) by { assert(is_ws(s[i])); } lemma_trail(t, k - 1); assert(t.take(t.len() - (k - 1)) =~= s.take(s.len() - k)); } else { assert(s.take(s.len() as int) =~= s); } }
trait VxText {
    spec fn cs(&self) -> Seq<char>;
    fn vx_range<'a>(&'a self, a: usize, b: usize) -> (r: &'a str)
        requires a <= b, exists|i: int| #[trigger] at_byte(self.cs(), a as int, i), exists|j: int| #[trigger] at_byte(self.cs(), b as int, j),
        ensures forall|i: int, j: int| #![trigger at_byte(self.cs(), a as int, i), at_byte(self.cs(), b as int, j)] at_byte(self.cs(), a as int, i) && at_byte(self.cs(), b as int, j) ==> r@ == self.cs().subrange(i, j);
    fn vx_range_from<'a>(&'a self, a: usize) -> (r: &'a str)
        requires exists|i: int| #[trigger] at_byte(self.cs(), a as int, i),
        ensures forall|i: int| #[trigger] at_byte(self.cs(), a as int, i) ==> r@ == self.cs().skip(i);
    fn vx_range_to<'a>(&'a self, b: usize) -> (r: &'a str)
        requires exists|i: int| #[trigger] at_byte(self.cs(), b as int, i),
        ensures forall|i: int| #[trigger] at_byte(self.cs(), b as int, i) ==> r@ == self.cs().take(i);
    fn vx_chars(&self) -> (r: Vec<char>) ensures r@ == self.cs();
    fn vx_trim_end<'a>(&'a self) -> (r: &'a str) ensures r@ == trimmed_end(self.cs());
    fn vx_trim_start<'a>(&'a self) -> (r: &'a str) ensures r@ == trimmed_start(self.cs());
    fn vx_trim<'a>(&'a self) -> (r: &'a str) ensures r@ == trimmed_start(trimmed_end(self.cs()));
    fn vx_len(&self) -> (r: usize) ensures r == blen(self.cs());
    fn vx_is_empty(&self) -> (r: bool) ensures r == (self.cs().len() == 0);
    fn vx_to_string(&self) -> (r: String) ensures r@ == self.cs();
}
impl VxText for str {
    spec fn cs(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_range<'a>(&'a self, a: usize, b: usize) -> (r: &'a str) { &self[a..b] }
    #[verifier::external_body] fn vx_range_from<'a>(&'a self, a: usize) -> (r: &'a str) { &self[a..] }
    #[verifier::external_body] fn vx_range_to<'a>(&'a self, b: usize) -> (r: &'a str) { &self[..b] }
    #[verifier::external_body] fn vx_chars(&self) -> (r: Vec<char>) { self.chars().collect() }
    #[verifier::external_body] fn vx_trim_end<'a>(&'a self) -> (r: &'a str) { self.trim_end() }
    #[verifier::external_body] fn vx_trim_start<'a>(&'a self) -> (r: &'a str) { self.trim_start() }
    #[verifier::external_body] fn vx_trim<'a>(&'a self) -> (r: &'a str) { self.trim() }
    #[verifier::external_body] fn vx_len(&self) -> (r: usize) { self.len() }
    #[verifier::external_body] fn vx_is_empty(&self) -> (r: bool) { self.is_empty() }
    #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { self.to_string() }
}
impl VxText for String {
    spec fn cs(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_range<'a>(&'a self, a: usize, b: usize) -> (r: &'a str) { &self[a..b] }
    #[verifier::external_body] fn vx_range_from<'a>(&'a self, a: usize) -> (r: &'a str) { &self[a..] }
    #[verifier::external_body] fn vx_range_to<'a>(&'a self, b: usize) -> (r: &'a str) { &self[..b] }
    #[verifier::external_body] fn vx_chars(&self) -> (r: Vec<char>) { self.chars().collect() }
    #[verifier::external_body] fn vx_trim_end<'a>(&'a self) -> (r: &'a str) { self.trim_end() }
    #[verifier::external_body] fn vx_trim_start<'a>(&'a self) -> (r: &'a str) { self.trim_start() }
    #[verifier::external_body] fn vx_trim<'a>(&'a self) -> (r: &'a str) { self.trim() }
    #[verifier::external_body] fn vx_len(&self) -> (r: usize) { self.len() }
    #[verifier::external_body] fn vx_is_empty(&self) -> (r: bool) { self.is_empty() }
    #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { self.to_string() }
}
#[verifier::external_body]
fn vx_string_from(s: &str) -> (r: String) ensures r@ == s@ { String::from(s) }
