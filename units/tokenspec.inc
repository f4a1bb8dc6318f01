@verbatim
#[verifier::external_body]
proof fn axiom_alnum_not_ws() ensures forall|c: char| #[trigger] alnum(c) ==> !is_ws(c) {}
// ---------- C09 ----------
spec fn all_ws(s: Seq<char>, a: int, b: int) -> bool { forall|j: int| a <= j < b ==> is_ws(#[trigger] s[j]) }
// the ranges lie in order below hi, and whatever of [0, hi) they leave out is whitespace
spec fn tiles(d: &DNM, v: Seq<DNMRange>, hi: int) -> bool decreases v.len() {
    if v.len() == 0 { 0 <= hi <= d.n() && all_ws(d.plaintext@, 0, hi) }
    else { let x = v.last(); x.dnm == d && x.start <= x.end <= hi <= d.n() && all_ws(d.plaintext@, x.end as int, hi) && tiles(d, v.drop_last(), x.start as int) }
}
spec fn trimmed(s: Seq<char>, a: int, b: int) -> bool { a < b ==> !is_ws(s[a]) && !is_ws(s[b - 1]) }
spec fn all_trimmed(d: &DNM, v: Seq<DNMRange>) -> bool { forall|i: int| 0 <= i < v.len() ==> trimmed(d.plaintext@, (#[trigger] v[i]).start as int, v[i].end as int) }
proof fn lemma_lead_is(s: Seq<char>) ensures lead_ws(s) <= s.len(), forall|i: int| 0 <= i < lead_ws(s) ==> is_ws(#[trigger] s[i]), lead_ws(s) < s.len() ==> !is_ws(s[lead_ws(s) as int]) decreases s.len()
{ if s.len() > 0 && is_ws(s[0]) { let t = s.skip(1); lemma_lead_is(t); assert forall|i: int| 0 <= i < lead_ws(s) implies is_ws(#[trigger] s[i]) by { if i > 0 { assert(is_ws(t[i - 1])); } } } }
proof fn lemma_trail_is(s: Seq<char>) ensures trail_ws(s) <= s.len(), forall|i: int| s.len() - trail_ws(s) <= i < s.len() ==> is_ws(#[trigger] s[i]), trail_ws(s) < s.len() ==> !is_ws(s[s.len() - trail_ws(s) - 1]) decreases s.len()
{ if s.len() > 0 && is_ws(s.last()) { let t = s.drop_last(); lemma_trail_is(t); assert forall|i: int| s.len() - trail_ws(s) <= i < s.len() implies is_ws(#[trigger] s[i]) by { if i < s.len() - 1 { assert(is_ws(t[i])); } } } }
proof fn lemma_trim_of(x: DNMRange, r: DNMRange)
    requires x.ok(), trim_of(x, r)
    ensures all_ws(x.dnm.plaintext@, x.start as int, r.start as int), all_ws(x.dnm.plaintext@, r.end as int, x.end as int), trimmed(x.dnm.plaintext@, r.start as int, r.end as int)
{
    hide(lead_ws); hide(trail_ws); hide(trimmed_start); hide(trimmed_end);
    let t = x.text(); let s = x.dnm.plaintext@; let a = lead_ws(t) as int; let b = trail_ws(t) as int; let n = t.len() as int;
    lemma_lead_is(t); lemma_trail_is(t);
    assert(forall|j: int| 0 <= j < n ==> #[trigger] t[j] == s[j + x.start]);
    if a == n {
        lemma_trail(t, n); assert(t.take(0).len() == 0); reveal(trimmed_start);
        assert(r.text().len() == 0);
        assert forall|j: int| x.start <= j < x.end implies is_ws(#[trigger] s[j]) by { assert(t[j - x.start] == s[j]); }
    } else {
        assert forall|j: int| x.start <= j < r.start implies is_ws(#[trigger] s[j]) by { assert(t[j - x.start] == s[j]); }
        assert forall|j: int| r.end <= j < x.end implies is_ws(#[trigger] s[j]) by { assert(t[j - x.start] == s[j]); }
        assert(!is_ws(t[a])); assert(b < n) by { assert(is_ws(t[n - b]) || b == 0 || true); if b >= n { assert(is_ws(t[a])); } }
        assert(!is_ws(t[n - b - 1]));
    }
}
spec fn f_start(s: int) -> int { s }
proof fn lemma_piece(d: &DNM)
    requires d.wf()
    ensures forall|v: Seq<DNMRange>, start: int, x: DNMRange, r: DNMRange| #![trigger tiles(d, v, start), trim_of(x, r), v.push(r)] tiles(d, v, start) && all_trimmed(d, v) && x.dnm == d && x.ok() && x.start == start && trim_of(x, r) ==> tiles(d, v.push(r), x.end as int) && all_trimmed(d, v.push(r))
{
    assert forall|v: Seq<DNMRange>, start: int, x: DNMRange, r: DNMRange| #![trigger tiles(d, v, start), trim_of(x, r), v.push(r)] tiles(d, v, start) && all_trimmed(d, v) && x.dnm == d && x.ok() && x.start == start && trim_of(x, r) implies tiles(d, v.push(r), x.end as int) && all_trimmed(d, v.push(r)) by {
        lemma_trim_of(x, r); lemma_extend(d, v, start, r.start as int); assert(v.push(r).drop_last() =~= v);
    }
}
proof fn lemma_extend(d: &DNM, v: Seq<DNMRange>, a: int, b: int)
    requires tiles(d, v, a), all_ws(d.plaintext@, a, b), a <= b <= d.n() ensures tiles(d, v, b)
{ assert forall|j: int| (if v.len() == 0 { 0 } else { v.last().end as int }) <= j < b implies is_ws(#[trigger] d.plaintext@[j]) by { } }
// dropping the empty ranges
proof fn lemma_select(d: &DNM, v: Seq<DNMRange>, k: Seq<bool>, hi: int)
    requires tiles(d, v, hi), all_trimmed(d, v), k.len() == v.len(), forall|i: int| 0 <= i < k.len() ==> #[trigger] k[i] == (v[i].start < v[i].end)
    ensures tiles(d, vx_select(v, k), hi), all_trimmed(d, vx_select(v, k)), forall|i: int| 0 <= i < vx_select(v, k).len() ==> (#[trigger] vx_select(v, k)[i]).start < vx_select(v, k)[i].end
    decreases v.len()
{
    if v.len() > 0 {
        let n = v.len() - 1; let x = v.last(); assert(k.last() == k[n]);
        assert forall|i: int| 0 <= i < n implies #[trigger] k.drop_last()[i] == (v.drop_last()[i].start < v.drop_last()[i].end) by { assert(k[i] == (v[i].start < v[i].end)); }
        assert forall|i: int| 0 <= i < n implies trimmed(d.plaintext@, (#[trigger] v.drop_last()[i]).start as int, v.drop_last()[i].end as int) by { assert(v[i] == v.drop_last()[i]); }
        lemma_select(d, v.drop_last(), k.drop_last(), x.start as int);
        let r0 = vx_select(v.drop_last(), k.drop_last());
        if k.last() { assert(vx_select(v, k).drop_last() =~= r0); assert(trimmed(d.plaintext@, v[n].start as int, v[n].end as int)); }
        else { lemma_extend(d, r0, x.start as int, hi); }
    }
}
spec fn in_order(d: &DNM, v: Seq<DNMRange>) -> bool { exists|hi: int| #[trigger] tiles(d, v, hi) }
proof fn lemma_tiles_le(d: &DNM, v: Seq<DNMRange>, hi: int) requires tiles(d, v, hi) ensures forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).start <= v[i].end decreases v.len()
{ if v.len() > 0 { lemma_tiles_le(d, v.drop_last(), v.last().start as int); assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]).start <= v[i].end by { if i < v.len() - 1 { assert(v.drop_last()[i] == v[i]); } } } }
proof fn lemma_nonempty(d: &DNM, v: Seq<DNMRange>)
    requires in_order(d, v), all_trimmed(d, v)
    ensures forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).start <= v[i].end, forall|k: Seq<bool>| #![trigger vx_select(v, k)] k.len() == v.len() && (forall|i: int| 0 <= i < k.len() ==> #[trigger] k[i] == (v[i].start < v[i].end)) ==> in_order(d, vx_select(v, k)) && all_trimmed(d, vx_select(v, k)) && all_nonempty(vx_select(v, k))
{
    let hi = choose|hi: int| #[trigger] tiles(d, v, hi);
    lemma_tiles_le(d, v, hi);
    assert forall|k: Seq<bool>| #![trigger vx_select(v, k)] k.len() == v.len() && (forall|i: int| 0 <= i < k.len() ==> #[trigger] k[i] == (v[i].start < v[i].end)) implies in_order(d, vx_select(v, k)) && all_trimmed(d, vx_select(v, k)) && all_nonempty(vx_select(v, k)) by { lemma_select(d, v, k, hi); }
}
spec fn all_nonempty(v: Seq<DNMRange>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).start < v[i].end }
// ---------- what a list of ranges inside x addresses ----------
spec fn addresses(x: DNMRange, v: Seq<DNMRange>, w: Seq<(int, int)>) -> bool {
    v.len() == w.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).ok() && v[i].within(x) && v[i].start == x.start + w[i].0 && v[i].end == x.start + w[i].1 && v[i].text() == x.text().subrange(w[i].0, w[i].1)
}
proof fn lemma_addresses(x: DNMRange)
    requires x.ok()
    ensures
        forall|v: Seq<DNMRange>, w: Seq<(int, int)>, y: DNMRange| #![trigger addresses(x, v, w), v.push(y)] addresses(x, v, w) && y.ok() && y.within(x) ==> addresses(x, v.push(y), w.push((y.start - x.start, y.end - x.start))),
{
    assert forall|v: Seq<DNMRange>, w: Seq<(int, int)>, y: DNMRange| #![trigger addresses(x, v, w), v.push(y)] addresses(x, v, w) && y.ok() && y.within(x) implies addresses(x, v.push(y), w.push((y.start - x.start, y.end - x.start))) by {
        assert(y.text() =~= x.text().subrange(y.start - x.start, y.end - x.start));
        assert forall|k: int| 0 <= k < v.len() implies #[trigger] v.push(y)[k] == v[k] by {}
    }
}
// ---------- C10: maximal runs of word characters ----------
spec fn apos(c: char) -> bool { c == '\'' || c == '’' }
spec fn wordch(s: Seq<char>, i: int) -> bool { alnum(s[i]) || apos(s[i]) && i + 1 < s.len() && s[i + 1] == 's' }
// where the run reaching up to k begins
spec fn run_start(s: Seq<char>, k: int) -> int decreases k { if k > 0 && wordch(s, k - 1) { run_start(s, k - 1) } else { k } }
// the runs that have ended before k
spec fn runs(s: Seq<char>, k: int) -> Seq<(int, int)> decreases k {
    if k <= 0 { Seq::empty() } else if !wordch(s, k - 1) && run_start(s, k - 1) < k - 1 { runs(s, k - 1).push((run_start(s, k - 1), k - 1)) } else { runs(s, k - 1) }
}
spec fn word_runs(s: Seq<char>) -> Seq<(int, int)> { let n = s.len() as int; if run_start(s, n) < n { runs(s, n).push((run_start(s, n), n)) } else { runs(s, n) } }
spec fn maximal(s: Seq<char>, a: int, b: int) -> bool { 0 <= a < b <= s.len() && (forall|j: int| a <= j < b ==> #[trigger] wordch(s, j)) && (a > 0 ==> !wordch(s, a - 1)) && (b < s.len() ==> !wordch(s, b)) }
// exactly the maximal runs, in order
spec fn maximal_runs(s: Seq<char>, w: Seq<(int, int)>) -> bool {
    (forall|i: int| 0 <= i < w.len() ==> maximal(s, (#[trigger] w[i]).0, w[i].1)) && (forall|i: int, j: int| #![trigger w[i], w[j]] 0 <= i < j < w.len() ==> w[i].1 < w[j].0)
    && (forall|a: int, b: int| #[trigger] maximal(s, a, b) ==> exists|i: int| 0 <= i < w.len() && #[trigger] w[i] == (a, b))
}
proof fn lemma_run_start(s: Seq<char>, k: int)
    requires 0 <= k <= s.len()
    ensures 0 <= run_start(s, k) <= k, forall|j: int| run_start(s, k) <= j < k ==> #[trigger] wordch(s, j), run_start(s, k) > 0 ==> !wordch(s, run_start(s, k) - 1)
    decreases k
{ if k > 0 && wordch(s, k - 1) { lemma_run_start(s, k - 1); } }
proof fn lemma_run_unique(s: Seq<char>, a: int, k: int)
    requires 0 <= a <= k <= s.len(), forall|j: int| a <= j < k ==> #[trigger] wordch(s, j), a > 0 ==> !wordch(s, a - 1)
    ensures run_start(s, k) == a
    decreases k - a
{ if a < k { assert(wordch(s, k - 1)); lemma_run_unique(s, a, k - 1); } }
proof fn lemma_runs(s: Seq<char>, k: int)
    requires 0 <= k <= s.len()
    ensures
        forall|i: int| 0 <= i < runs(s, k).len() ==> maximal(s, (#[trigger] runs(s, k)[i]).0, runs(s, k)[i].1) && runs(s, k)[i].1 < k && runs(s, k)[i].1 < run_start(s, k) || k == 0,
        forall|i: int, j: int| #![trigger runs(s, k)[i], runs(s, k)[j]] 0 <= i < j < runs(s, k).len() ==> runs(s, k)[i].1 < runs(s, k)[j].0,
        forall|a: int, b: int| #[trigger] maximal(s, a, b) && b < k ==> exists|i: int| 0 <= i < runs(s, k).len() && #[trigger] runs(s, k)[i] == (a, b),
    decreases k
{
    lemma_run_start(s, k);
    if k > 0 {
        lemma_runs(s, k - 1); lemma_run_start(s, k - 1);
        let r0 = runs(s, k - 1); let r = runs(s, k); let st = run_start(s, k - 1);
        if !wordch(s, k - 1) && st < k - 1 {
            assert(r == r0.push((st, k - 1)));
            assert(maximal(s, st, k - 1));
            assert forall|a: int, b: int| #[trigger] maximal(s, a, b) && b < k implies exists|i: int| 0 <= i < r.len() && #[trigger] r[i] == (a, b) by {
                if b < k - 1 { let i = choose|i: int| 0 <= i < r0.len() && #[trigger] r0[i] == (a, b); assert(r[i] == (a, b)); } else { lemma_run_unique(s, a, b); assert(r[r.len() - 1] == (a, b)); }
            }
        } else {
            assert forall|a: int, b: int| #[trigger] maximal(s, a, b) && b < k implies exists|i: int| 0 <= i < r.len() && #[trigger] r[i] == (a, b) by {
                if b == k - 1 { lemma_run_unique(s, a, b); assert(wordch(s, b - 1)); }
            }
        }
    }
}
proof fn lemma_word_runs(s: Seq<char>)
    ensures maximal_runs(s, word_runs(s))
{
    let n = s.len() as int; lemma_runs(s, n); lemma_run_start(s, n); let w = word_runs(s); let r = runs(s, n);
    assert forall|i: int| 0 <= i < w.len() implies maximal(s, (#[trigger] w[i]).0, w[i].1) by { if i < r.len() { assert(w[i] == r[i]); } }
    assert forall|i: int, j: int| #![trigger w[i], w[j]] 0 <= i < j < w.len() implies w[i].1 < w[j].0 by { assert(w[i] == r[i]); if j < r.len() { assert(w[j] == r[j]); } }
    assert forall|a: int, b: int| #[trigger] maximal(s, a, b) implies exists|i: int| 0 <= i < w.len() && #[trigger] w[i] == (a, b) by {
        if b < n { let i = choose|i: int| 0 <= i < r.len() && #[trigger] r[i] == (a, b); assert(w[i] == (a, b)); } else { lemma_run_unique(s, a, b); assert(w[w.len() - 1] == (a, b)); }
    }
}
// ---------- C11: words and punctuation ----------
spec fn run_end(s: Seq<char>, i: int) -> int decreases s.len() - i { if 0 <= i < s.len() && alnum(s[i]) { run_end(s, i + 1) } else { i } }
spec fn contraction(w: Seq<char>) -> bool { w == "t"@ || w == "s"@ || w == "un"@ || w == "th"@ || w == "ll"@ || w == "d"@ || w == "ve"@ || w == "il"@ || w == "re"@ || w == "m"@ }
// the end of the token starting at a non-whitespace character
spec fn tok_end(s: Seq<char>, i: int) -> int {
    if alnum(s[i]) { run_end(s, i) } else if apos(s[i]) && contraction(s.subrange(i + 1, run_end(s, i + 1))) { run_end(s, i + 1) } else { i + 1 }
}
// the tokens from position i on
spec fn toks(s: Seq<char>, i: int) -> Seq<(int, int)> decreases s.len() - i via toks_dec {
    if i < 0 || i >= s.len() { Seq::empty() } else if is_ws(s[i]) { toks(s, i + 1) } else { seq![(i, tok_end(s, i))] + toks(s, tok_end(s, i)) }
}
#[via_fn]
proof fn toks_dec(s: Seq<char>, i: int) { if 0 <= i < s.len() { lemma_run_end(s, i); lemma_run_end(s, i + 1); } }
proof fn lemma_run_end(s: Seq<char>, i: int)
    requires i <= s.len()
    ensures i <= run_end(s, i), i >= 0 ==> run_end(s, i) <= s.len(), 0 <= i < s.len() && alnum(s[i]) ==> run_end(s, i) > i, forall|j: int| i <= j < run_end(s, i) ==> alnum(#[trigger] s[j]), 0 <= i ==> run_end(s, i) == s.len() || !alnum(s[run_end(s, i)])
    decreases s.len() - i
{ if 0 <= i < s.len() && alnum(s[i]) { lemma_run_end(s, i + 1); } }
proof fn lemma_run_through(s: Seq<char>, a: int, b: int)
    requires 0 <= a <= b <= s.len(), forall|j: int| a <= j < b ==> alnum(#[trigger] s[j])
    ensures run_end(s, a) == run_end(s, b)
    decreases b - a
{ if a < b { assert(alnum(s[a])); lemma_run_through(s, a + 1, b); } }
// in order from i on, disjoint, each a token, and together all that is not whitespace
#[verifier::opaque]
spec fn partitions(s: Seq<char>, w: Seq<(int, int)>, i: int) -> bool {
    (forall|k: int| 0 <= k < w.len() ==> i <= (#[trigger] w[k]).0 < w[k].1 <= s.len() && w[k].1 == tok_end(s, w[k].0) && !is_ws(s[w[k].0]))
    && (forall|k: int, j: int| #![trigger w[k], s[j]] 0 <= k < w.len() && w[k].0 <= j < w[k].1 ==> !is_ws(s[j]))
    && (forall|k: int, l: int| #![trigger w[k], w[l]] 0 <= k < l < w.len() ==> w[k].1 <= w[l].0)
    && (forall|j: int| i <= j < s.len() && !is_ws(#[trigger] s[j]) ==> covered(w, j))
}
spec fn covered(w: Seq<(int, int)>, j: int) -> bool { exists|k: int| 0 <= k < w.len() && (#[trigger] w[k]).0 <= j < w[k].1 }
proof fn lemma_tok(s: Seq<char>, i: int)
    requires 0 <= i < s.len(), !is_ws(s[i])
    ensures i < tok_end(s, i) <= s.len(), forall|j: int| i <= j < tok_end(s, i) ==> !is_ws(#[trigger] s[j])
{ axiom_alnum_not_ws(); lemma_run_end(s, i); lemma_run_end(s, i + 1); }
#[verifier::spinoff_prover]
proof fn lemma_cons(s: Seq<char>, v: Seq<(int, int)>, i: int, e: int)
    requires partitions(s, v, e), 0 <= i < s.len(), !is_ws(s[i]), e == tok_end(s, i)
    ensures partitions(s, seq![(i, e)] + v, i)
{
    lemma_tok(s, i); reveal(partitions); let w = seq![(i, e)] + v;
    assert(w[0] == (i, e));
    assert forall|k: int| 0 <= k < w.len() implies i <= (#[trigger] w[k]).0 < w[k].1 <= s.len() && w[k].1 == tok_end(s, w[k].0) && !is_ws(s[w[k].0]) by { if k > 0 { assert(w[k] == v[k - 1]); } }
    assert forall|k: int, j: int| #![trigger w[k], s[j]] 0 <= k < w.len() && w[k].0 <= j < w[k].1 implies !is_ws(s[j]) by { if k > 0 { assert(w[k] == v[k - 1]); } }
    assert forall|k: int, l: int| #![trigger w[k], w[l]] 0 <= k < l < w.len() implies w[k].1 <= w[l].0 by { assert(w[l] == v[l - 1]); if k > 0 { assert(w[k] == v[k - 1]); } }
    assert forall|j: int| i <= j < s.len() && !is_ws(#[trigger] s[j]) implies covered(w, j) by {
        if j < e { assert(w[0].0 <= j < w[0].1); } else { assert(covered(v, j)); let k = choose|k: int| 0 <= k < v.len() && (#[trigger] v[k]).0 <= j < v[k].1; assert(w[k + 1] == v[k]); }
    }
}
proof fn lemma_partitions(s: Seq<char>, i: int)
    requires 0 <= i <= s.len()
    ensures partitions(s, toks(s, i), i)
    decreases s.len() - i
{
    if i < s.len() {
        if is_ws(s[i]) { lemma_partitions(s, i + 1); reveal(partitions); assert(toks(s, i) == toks(s, i + 1)); }
        else { lemma_tok(s, i); lemma_partitions(s, tok_end(s, i)); lemma_cons(s, toks(s, tok_end(s, i)), i, tok_end(s, i)); }
    } else { reveal(partitions); }
}
spec fn spans(x: DNMRange, v: Seq<DNMRange>) -> Seq<(int, int)> { Seq::new(v.len(), |i: int| (v[i].start - x.start, v[i].end - x.start)) }
// v holds the tokens before i
#[verifier::opaque]
spec fn upto(x: DNMRange, v: Seq<DNMRange>, i: int) -> bool {
    0 <= i <= x.text().len() && spans(x, v) + toks(x.text(), i) == toks(x.text(), 0) && addresses(x, v, spans(x, v))
}
proof fn lemma_upto(x: DNMRange)
    requires x.ok()
    ensures
        forall|v: Seq<DNMRange>, i: int, y: DNMRange| #![trigger upto(x, v, i), v.push(y)] upto(x, v, i) && i < x.text().len() && !is_ws(x.text()[i]) && y.ok() && y.within(x) && y.start == x.start + i && y.end == x.start + tok_end(x.text(), i) ==> upto(x, v.push(y), y.end - x.start),
        forall|v: Seq<DNMRange>, i: int| #![trigger upto(x, v, i), is_ws(x.text()[i])] upto(x, v, i) && i < x.text().len() && is_ws(x.text()[i]) ==> upto(x, v, i + 1),
        forall|v: Seq<DNMRange>| #![trigger upto(x, v, x.text().len() as int)] upto(x, v, x.text().len() as int) ==> addresses(x, v, toks(x.text(), 0)),
        forall|v: Seq<DNMRange>| #![trigger upto(x, v, 0)] v.len() == 0 ==> upto(x, v, 0),
{
    reveal(upto); let t = x.text();
    assert forall|v: Seq<DNMRange>, i: int, y: DNMRange| #![trigger upto(x, v, i), v.push(y)] upto(x, v, i) && i < t.len() && !is_ws(t[i]) && y.ok() && y.within(x) && y.start == x.start + i && y.end == x.start + tok_end(t, i) implies upto(x, v.push(y), y.end - x.start) by {
        let e = tok_end(t, i); assert(spans(x, v.push(y)) =~= spans(x, v).push((i, e)));
        assert(spans(x, v.push(y)) + toks(t, e) =~= spans(x, v) + toks(t, i));
        assert(y.text() =~= t.subrange(i, e));
        assert forall|k: int| 0 <= k < v.len() implies #[trigger] v.push(y)[k] == v[k] by {}
    }
    assert forall|v: Seq<DNMRange>| #![trigger upto(x, v, t.len() as int)] upto(x, v, t.len() as int) implies addresses(x, v, toks(t, 0)) by { assert(spans(x, v) + toks(t, t.len() as int) =~= spans(x, v)); }
    assert forall|v: Seq<DNMRange>| #![trigger upto(x, v, 0)] v.len() == 0 implies upto(x, v, 0) by { assert(spans(x, v) + toks(t, 0) =~= toks(t, 0)); }
}
