@contracts noderange.inc
@src src/dnm/range.rs
@fn Clone for DNMRange::clone
@inherent impl<'dnmrange> DNMRange<'dnmrange>
@props C06
@ret r
@contract
    ensures r == *self
@fn DNMRange::get_plaintext
@props C06
@ret r
@contract
    requires self.ok()
    ensures r@ == self.text()
@at entry
    proof { let s = self.dnm.plaintext@; lemma_blen_mono(s, self.start as int, self.end as int);
        assert(self.dnm.plaintext.cs() == s);
        assert(at_byte(self.dnm.plaintext.cs(), self.dnm.byte_offsets@[self.start as int] as int, self.start as int)); assert(at_byte(self.dnm.plaintext.cs(), self.dnm.byte_offsets@[self.end as int] as int, self.end as int)); }
@fn DNMRange::get_plaintext_truncated
@props C06
@ret r
@contract
    requires self.ok()
    ensures r@ == trimmed_end(self.text())
@fn DNMRange::get_node
@props C04 C06
@ret r
@contract
    requires self.start < self.dnm.back_map@.len()
    ensures r == self.dnm.back_map@[self.start as int].0
@fn DNMRange::is_empty
@props C06
@ret r
@contract
    ensures r == (self.start == self.end), self.ok() ==> r == (self.text().len() == 0)
@fn DNMRange::get_subrange
@props C06
@ret r
@contract
    requires self.ok(), rel_start <= rel_end <= self.end - self.start
    ensures r.ok(), r.within(*self), r.text() == self.text().subrange(rel_start as int, rel_end as int), r.start == self.start + rel_start, r.end == self.start + rel_end,
@at entry
    proof { axiom_string_size(&self.dnm.plaintext); assert(self.dnm.plaintext@.subrange(self.start + rel_start, self.start + rel_end) =~= self.text().subrange(rel_start as int, rel_end as int)); }
@fn DNMRange::trim
@props C07
@ret r
@contract
    requires self.ok()
    ensures
        trim_of(*self, r),
@at loop 0 iter it
@at loop 0 inv
    invariant_except_break
        trimmed_start == self.start + it.index(),
    invariant
        self.ok(), it.seq() == self.text(), range_text@ == self.text(), trimmed_end == self.end,
        self.start <= trimmed_start <= self.end,
        forall|i: int| 0 <= i < trimmed_start - self.start ==> is_ws(#[trigger] self.text()[i]),
    ensures
        trimmed_start == self.end || !is_ws(self.text()[trimmed_start - self.start]),
@at loop 1 iter it
@at loop 1 inv
    invariant_except_break
        trimmed_end == self.end - it.index(),
    invariant
        self.ok(), it.seq() == self.text().reverse(), range_text@ == self.text(),
        self.start <= trimmed_end <= self.end,
        forall|i: int| trimmed_end - self.start <= i < self.text().len() ==> is_ws(#[trigger] self.text()[i]),
    ensures
        trimmed_end == self.start || !is_ws(self.text()[trimmed_end - self.start - 1]),
@at loop 1 after
    proof {
        let t = self.text(); let a = trimmed_start - self.start; let b = trimmed_end - self.start;
        lemma_lead(t, a); lemma_trail(t, t.len() - b);
        let u = t.take(b);
        if a < b {
            assert forall|i: int| 0 <= i < a implies is_ws(#[trigger] u[i]) by { assert(is_ws(t[i])); }
            assert(!is_ws(u[a])) by { assert(!is_ws(t[a])); }
            lemma_lead(u, a);
            assert(self.dnm.plaintext@.subrange(trimmed_start as int, trimmed_end as int) =~= u.skip(a));
        } else {
            if a < t.len() { if b > 0 { assert(is_ws(t[b - 1])); } if b <= a { assert(is_ws(t[a])); } }
            assert(a == t.len()); 
            if b > 0 { assert(is_ws(t[b - 1])); } assert(b == 0);
            assert(u =~= Seq::<char>::empty());
            assert(self.dnm.plaintext@.subrange(self.end as int, self.end as int) =~= Seq::<char>::empty());
        }
    }
@fn DNMRange::byte_offset_bisection
@props C08
@ret r
@contract
    requires self.dnm.wf(), lower_char <= upper_char <= self.dnm.n(), self.dnm.byte_offsets@[lower_char as int] <= target_byte
    ensures lower_char <= r <= upper_char, self.dnm.byte_offsets@[r as int] <= target_byte, r == upper_char || target_byte < self.dnm.byte_offsets@[r + 1],
    decreases upper_char - lower_char
@at entry
    proof { axiom_string_size(&self.dnm.plaintext); }
@fn DNMRange::get_subrange_from_byte_offsets
@props C08
@ret r
@contract
    requires self.ok(), rel_start < rel_end <= blen(self.text())
    ensures
        r.ok(), r.within(*self), r.start < r.end, byte_range_of(*self, rel_start as int, rel_end as int, r.start as int, r.end as int),
        // the character containing byte rel_start ...
        self.dnm.byte_offsets@[r.start as int] <= self.dnm.byte_offsets@[self.start as int] + rel_start < self.dnm.byte_offsets@[r.start + 1],
        // ... through the character containing byte rel_end - 1
        self.dnm.byte_offsets@[r.end - 1] <= self.dnm.byte_offsets@[self.start as int] + rel_end - 1 < self.dnm.byte_offsets@[r.end as int],
        // in particular, on character boundaries it is exactly that slice
        byte_range_of(*self, rel_start as int, rel_end as int, r.start as int, r.end as int) && is_slice(*self, rel_start as int, rel_end as int, r.start as int, r.end as int),
@at entry
    proof {
        let s = self.dnm.plaintext@; axiom_string_size(&self.dnm.plaintext);
        let bo = self.dnm.byte_offsets@;
        lemma_blen_mono(s, self.start as int, self.end as int);
        assert(s.skip(self.start as int).take(self.end - self.start) =~= self.text());
        lemma_blen_sub(s, self.start as int, self.end - self.start);
        lemma_blen_mono(s, self.end as int, s.len() as int);
        assert(s.take(s.len() as int) =~= s);
        lemma_byte_slices(*self, rel_start as int, rel_end as int);
        assert forall|a: int, b: int| #![trigger bo[a], bo[b]] 0 <= a <= b <= s.len() implies bo[a] <= bo[b] by { lemma_blen_mono(s, a, b); }
    }
@at result
    proof { assert(byte_range_of(*self, rel_start as int, rel_end as int, vx_res.start as int, vx_res.end as int)); }
@verbatim
spec fn byte_range_of(x: DNMRange, rs: int, re: int, a: int, b: int) -> bool {
    let bo = x.dnm.byte_offsets@;
    x.start <= a < b <= x.end && bo[a] <= bo[x.start as int] + rs < bo[a + 1] && bo[b - 1] <= bo[x.start as int] + re - 1 < bo[b]
}
// whenever the offsets lie on character boundaries, a..b is exactly that byte slice of the range's text
spec fn is_slice(x: DNMRange, rs: int, re: int, a: int, b: int) -> bool {
    forall|i: int, j: int| #![trigger at_byte(x.text(), rs, i), at_byte(x.text(), re, j)] at_byte(x.text(), rs, i) && at_byte(x.text(), re, j) ==> a == x.start + i && b == x.start + j && x.dnm.plaintext@.subrange(a, b) == x.text().subrange(i, j)
}
proof fn lemma_byte_slices(x: DNMRange, rs: int, re: int)
    requires x.ok(), rs < re
    ensures forall|a: int, b: int| #![trigger byte_range_of(x, rs, re, a, b)] byte_range_of(x, rs, re, a, b) ==> is_slice(x, rs, re, a, b)
{
    let s = x.dnm.plaintext@; let st = x.start as int; let bo = x.dnm.byte_offsets@;
    assert forall|a: int, b: int| #![trigger byte_range_of(x, rs, re, a, b)] byte_range_of(x, rs, re, a, b) implies is_slice(x, rs, re, a, b) by {
      assert forall|i: int, j: int| #![trigger at_byte(x.text(), rs, i), at_byte(x.text(), re, j)] at_byte(x.text(), rs, i) && at_byte(x.text(), re, j) implies a == st + i && b == st + j && s.subrange(a, b) == x.text().subrange(i, j) by {
        assert(s.skip(st).take(i) =~= x.text().take(i)); lemma_blen_sub(s, st, i);
        assert(s.skip(st).take(j) =~= x.text().take(j)); lemma_blen_sub(s, st, j);
        assert(bo[st + i] == bo[st] + rs); assert(bo[st + j] == bo[st] + re);
        if a < st + i { lemma_blen_mono(s, a + 1, st + i); } if st + i < a { lemma_blen_mono(s, st + i, a); }
        if b < st + j { lemma_blen_mono(s, b, st + j); } if st + j < b { lemma_blen_mono(s, st + j, b - 1); }
        if b < st + j { assert(bo[b] <= bo[st + j - 1]) by { lemma_blen_mono(s, b, st + j - 1); } lemma_blen_take(s, st + j - 1); }
        assert(s.subrange(a, b) =~= x.text().subrange(i, j));
      }
    }
}
// what trimming returns
spec fn trim_of(x: DNMRange, r: DNMRange) -> bool {
    r.ok() && r.within(x) && r.text() == trimmed_start(trimmed_end(x.text())) && (r.text().len() == 0 ==> r.start == x.end && r.end == x.end) && (lead_ws(x.text()) < x.text().len() ==> r.start == x.start + lead_ws(x.text()) && r.end == x.end - trail_ws(x.text()))
}
