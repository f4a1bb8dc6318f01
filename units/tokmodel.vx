@include prelude.inc
@include hashmap.inc
@include eq.inc
@include text.inc
@include node.inc
@include regex.inc
@include dnmtypes.inc
@include visit.inc
@include visitspec.inc
@include tokenspec.inc
@include paramspec.inc
@include docspec.inc
@include lexspec.inc
@src src/util/data_helpers.rs
@type LexicalOptions
@include lexicalspec.inc
@contracts paramfns.inc
@contracts rangefns.inc
@contracts dnmnew.inc
@contracts tokfns.inc
@contracts lexfns.inc
@method into_iter => vx_walk
@method extend => vx_extend
@method ends_with => vx_ends_with
@method to_lowercase => vx_to_lowercase
@method len => vx_len
@method contains => vx_contains
@method to_string => vx_to_string
@method as_bytes => vx_to_string
@path String::new => vx_string_new
@path String::from => vx_string_from
@path dnm::node::lexematize_math => lexematize_math
@contracts pardocs.inc
@contracts walkfns.inc
@verbatim
// ---------- std::io: what reaches a file ----------
uninterp spec fn written(file: Seq<char>, text: Seq<char>) -> bool;    // the text was written to the file, in one piece
uninterp spec fn flushed(file: Seq<char>) -> bool;
#[verifier::external_body]
struct File { _p: usize }
impl File { uninterp spec fn name(&self) -> Seq<char>; #[verifier::external_body] fn create(p: String) -> (r: Result<File, VxErr>) ensures r is Ok ==> (r->Ok_0).name() == p@ { unimplemented!() } }
struct BufWriter { f: File }
impl BufWriter { #[verifier::external_body] fn with_capacity(n: usize, f: File) -> (r: BufWriter) ensures r.f == f { unimplemented!() } }
struct Mutex { w: BufWriter }
impl Mutex {
    #[verifier::external_body] fn new(w: BufWriter) -> (r: Mutex) ensures r.w == w { unimplemented!() }
    #[verifier::external_body] fn lock(&self) -> (r: Result<VxGuard, ()>) ensures r is Ok, (r->Ok_0).w == self.w { unimplemented!() }
}
struct VxGuard { w: BufWriter }
impl VxGuard {
    #[verifier::external_body] fn write_all(&self, b: String) -> (r: Result<(), VxErr>) ensures r is Ok, written(self.w.f.name(), b@) { unimplemented!() }
    #[verifier::external_body] fn flush(&self) -> (r: Result<(), VxErr>) ensures r is Ok, flushed(self.w.f.name()) { unimplemented!() }
}
struct Arc { m: Mutex }
impl Arc { #[verifier::external_body] fn new(m: Mutex) -> (r: Arc) ensures r.m == m { unimplemented!() } #[verifier::external_body] fn lock(&self) -> (r: Result<VxGuard, ()>) ensures r is Ok, (r->Ok_0).w == self.m.w { unimplemented!() } }
#[verifier::external]
impl core::fmt::Debug for VxErr { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
uninterp spec fn default_tokenizer() -> Tokenizer;
impl Tokenizer { #[verifier::external_body] fn default() -> (r: Self) ensures r == default_tokenizer() { unimplemented!() } }
// ---------- C33: the token model of a document ----------
struct Tm { line: Seq<char>, words: nat, formulas: nat, citations: nat, nums: nat, bad: bool }
spec fn tm0() -> Tm { Tm { line: Seq::empty(), words: 0, formulas: 0, citations: 0, nums: 0, bad: false } }
// one word or punctuation token; the first overlong one ends the paragraph
spec fn tm_step(t: Seq<char>, n: RoNode, no_math: bool, a: Tm) -> Tm {
    let l = str_low(t);
    if a.bad { a }
    else if blen(l) > 25 { Tm { bad: true, ..a } }
    else if has_part(l, "mathformula"@) { Tm { line: a.line + (if no_math { Seq::empty() } else { lexeme_string(n) }) + seq![' '], formulas: a.formulas + 1, ..a } }
    else if has_part(l, "citationelement"@) { Tm { line: a.line + "citationelement"@ + seq![' '], citations: a.citations + 1, ..a } }
    else if re_match(numeric_pattern(), l) { Tm { line: a.line + "NUM"@ + seq![' '], nums: a.nums + 1, ..a } }
    else { Tm { line: a.line + l + seq![' '], words: a.words + 1, ..a } }
}
spec fn tm_upto(d: DNM, no_math: bool, k: int) -> Tm decreases k {
    if k <= 0 { tm0() } else { let w = toks(d.plaintext@, 0)[k - 1]; tm_step(d.plaintext@.subrange(w.0, w.1), d.back_map@[w.0].0, no_math, tm_upto(d, no_math, k - 1)) }
}
spec fn tm_par(d: DNM, no_math: bool) -> Tm { tm_upto(d, no_math, toks(d.plaintext@, 0).len() as int) }
// the sums over the paragraphs, and the lines of those without an overlong word
struct Dm { text: Seq<char>, words: nat, over: nat, formulas: nat, citations: nat, nums: nat }
spec fn dm_upto(ds: Seq<DNM>, no_math: bool, k: int) -> Dm decreases k {
    if k <= 0 { Dm { text: Seq::empty(), words: 0, over: 0, formulas: 0, citations: 0, nums: 0 } }
    else { dm_add(dm_upto(ds, no_math, k - 1), tm_par(ds[k - 1], no_math)) }
}
spec fn dm_add(a: Dm, p: Tm) -> Dm {
    Dm { text: if p.bad { a.text } else { a.text + seq!['\n'] + p.line }, words: a.words + p.words, over: a.over + if p.bad { 1nat } else { 0nat }, formulas: a.formulas + p.formulas, citations: a.citations + p.citations, nums: a.nums + p.nums }
}
spec fn dm(ds: Seq<DNM>, no_math: bool) -> Dm { dm_upto(ds, no_math, ds.len() as int) }
// ds: standard models of the first paragraphs of a document
spec fn par_models(d: XmlDoc, ds: Seq<DNM>) -> bool { ds.len() <= extended(d).len() && forall|i: int| 0 <= i < ds.len() ==> std_model(#[trigger] ds[i], extended(d)[i]) }
spec fn small(x: Dm) -> bool { x.words <= u64::MAX && x.over <= u64::MAX && x.formulas <= u64::MAX && x.citations <= u64::MAX && x.nums <= u64::MAX }
// no count leaves the 64-bit integers
spec fn fits(d: XmlDoc) -> bool { extended(d).len() <= u64::MAX && forall|ds: Seq<DNM>, m: bool| par_models(d, ds) ==> small(#[trigger] dm(ds, m)) }
// what is reported for one file
spec fn tm_report(p: Seq<char>, no_math: bool, file: Seq<char>, m: Map<Seq<char>, u64>) -> bool {
    parsed_file(p) is Some && exists|ds: Seq<DNM>| #![trigger dm(ds, no_math)] par_models(parsed_file(p)->0, ds) && ds.len() == extended(parsed_file(p)->0).len() && m == counts(ds.len(), dm(ds, no_math)) && written(file, dm(ds, no_math).text)
}
spec fn tm_reports(root: Seq<char>, no_math: bool, file: Seq<char>, v: Seq<VxEach>, ms: Seq<Cat>) -> bool {
    let ps = picked_all(v, None); listing(root, true, v) && ms.len() == ps.len() && forall|i: int| 0 <= i < ms.len() ==> tm_report(ps[i], no_math, file, #[trigger] ms[i])
}
proof fn lemma_tm_mono(d: DNM, m: bool, j: int, k: int)
    requires 0 <= j <= k
    ensures ({ let a = tm_upto(d, m, j); let b = tm_upto(d, m, k); a.words <= b.words && a.formulas <= b.formulas && a.citations <= b.citations && a.nums <= b.nums && (a.bad ==> b == a) })
    decreases k - j
{ if j < k { lemma_tm_mono(d, m, j, k - 1); } }
proof fn lemma_dm_push(ds: Seq<DNM>, x: DNM, m: bool, k: int)
    requires 0 <= k <= ds.len() ensures dm_upto(ds.push(x), m, k) == dm_upto(ds, m, k) decreases k
{ if k > 0 { lemma_dm_push(ds, x, m, k - 1); } }
// what the documents report, told by the closure's contract
spec fn tm_post<F: Fn(Document) -> HashMap<String, u64>>(f: F, no_math: bool, file: Seq<char>) -> bool {
    forall|d: Document, m: HashMap<String, u64>| #[trigger] call_ensures(f, (d,), m) ==> exists|ds: Seq<DNM>| #![trigger dm(ds, no_math)] par_models(d.dom, ds) && ds.len() == extended(d.dom).len() && m@ == counts(ds.len(), dm(ds, no_math)) && written(file, dm(ds, no_math).text)
}
spec fn tm_ctx(no_math: bool, file: Seq<char>) -> bool { true }
broadcast proof fn lemma_tm_reports<F: Fn(Document) -> HashMap<String, u64>>(f: F, c: &Corpus, no_math: bool, file: Seq<char>, v: Seq<VxEach>, ms: Seq<HashMap<String, u64>>)
    requires tm_post(f, no_math, file), c.extension is None, listing(c.path@, true, v), #[trigger] reports(f, c, v, ms), #[trigger] tm_ctx(no_math, file)
    ensures tm_reports(c.path@, no_math, file, v, cats(ms))
{
    assert(c.extension == None::<String>);
    let ps = picked_all(v, None);
    assert forall|i: int| 0 <= i < ms.len() implies tm_report(ps[i], no_math, file, #[trigger] cats(ms)[i]) by {
        assert(reports_on(f, c, ps[i], ms[i]));
        let d = choose|d: Document| d.path@ == ps[i] && of_file(c, d) && #[trigger] call_ensures(f, (d,), ms[i]);
        assert(parsed_file(ps[i]) == Some(d.dom));
    }
}
proof fn lemma_toks_full(s: Seq<char>) ensures forall|i: int| 0 <= i < toks(s, 0).len() ==> (#[trigger] toks(s, 0)[i]).0 < toks(s, 0)[i].1 { lemma_partitions(s, 0); reveal(partitions); }
// tokens are not empty
proof fn lemma_filled(v: Seq<DNMRange>)
    requires forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).start < v[i].end ensures filled(v) == v decreases v.len()
{ if v.len() > 0 { assert forall|i: int| 0 <= i < v.skip(1).len() implies (#[trigger] v.skip(1)[i]).start < v.skip(1)[i].end by { assert(v[i + 1] == v.skip(1)[i]); } lemma_filled(v.skip(1)); assert(seq![v[0]] + v.skip(1) =~= v); } }
// the seven names are different
proof fn lemma_names() ensures "document_count"@ != "paragraph_count"@, "document_count"@ != "word_count"@, "document_count"@ != "overflow_count"@, "document_count"@ != "formula_count"@, "document_count"@ != "citation_count"@, "document_count"@ != "num_count"@,
    "paragraph_count"@ != "word_count"@, "paragraph_count"@ != "overflow_count"@, "paragraph_count"@ != "formula_count"@, "paragraph_count"@ != "citation_count"@, "paragraph_count"@ != "num_count"@,
    "word_count"@ != "overflow_count"@, "word_count"@ != "formula_count"@, "word_count"@ != "citation_count"@, "word_count"@ != "num_count"@,
    "overflow_count"@ != "formula_count"@, "overflow_count"@ != "citation_count"@, "overflow_count"@ != "num_count"@,
    "formula_count"@ != "citation_count"@, "formula_count"@ != "num_count"@, "citation_count"@ != "num_count"@,
{
    reveal_strlit("document_count"); reveal_strlit("paragraph_count"); reveal_strlit("word_count"); reveal_strlit("overflow_count"); reveal_strlit("formula_count"); reveal_strlit("citation_count"); reveal_strlit("num_count");
    assert("document_count"@.len() == 14 && "document_count"@[0] == 'd'); assert("overflow_count"@.len() == 14 && "overflow_count"@[0] == 'o'); assert("citation_count"@.len() == 14 && "citation_count"@[0] == 'c');
    assert("paragraph_count"@.len() == 15); assert("word_count"@.len() == 10); assert("formula_count"@.len() == 13); assert("num_count"@.len() == 9);
}
spec fn counts(n: nat, x: Dm) -> Map<Seq<char>, u64> {
    Map::<Seq<char>, u64>::empty().insert("document_count"@, 1).insert("paragraph_count"@, n as u64).insert("word_count"@, x.words as u64).insert("overflow_count"@, x.over as u64)
        .insert("formula_count"@, x.formulas as u64).insert("citation_count"@, x.citations as u64).insert("num_count"@, x.nums as u64)
}
@src src/parallel_data/corpus.rs
@fn Default for Corpus::default
@inherent impl Corpus
@props C33
@ret r
@contract
    ensures r.extension is None, !r.xml_parser.html(), r.html_parser.html(), std_params(r.dnm_parameters), r.tokenizer == default_tokenizer(),
@fn Corpus::new
@props C33
@ret r
@contract
    ensures r.path == dirpath, r.extension is None, !r.xml_parser.html(), r.html_parser.html(), std_params(r.dnm_parameters),
@src src/util/token_model.rs
@type BUFFER_CAPACITY
@type MAX_WORD_LENGTH
@fn extract
@props C33
@opt eq-call
@subst Box<dyn Error> => VxErr
@ret r
@contract
    requires
        forall|v: Seq<VxEach>, p: Seq<char>| #![trigger listing(corpus_path@, true, v), picked_all(v, None).contains(p)] listing(corpus_path@, true, v) && picked_all(v, None).contains(p) ==> parsed_file(p) is Some && fits(parsed_file(p)->0),
        forall|v: Seq<VxEach>, ms: Seq<Cat>| #[trigger] tm_reports(corpus_path@, discard_math, token_model_filepath@, v, ms) ==> sums_at_most(ms),
    ensures r is Ok ==> flushed(token_model_filepath@) && exists|v: Seq<VxEach>, ms: Seq<Cat>| #[trigger] tm_reports(corpus_path@, discard_math, token_model_filepath@, v, ms) && exact(ms, (r->Ok_0)@)
@closure 0 |document: Document| -> (vx_r: HashMap<String, u64>)
        requires fits(document.dom)
        ensures exists|ds: Seq<DNM>| #![trigger dm(ds, discard_math)] par_models(document.dom, ds) && ds.len() == extended(document.dom).len() && vx_r@ =~= counts(ds.len(), dm(ds, discard_math)) && written(token_writer.m.w.f.name(), dm(ds, discard_math).text)
@at before-call catalog_with_parallel_walk 0
    broadcast use lemma_tm_reports;
    assert(tm_ctx(discard_math, token_model_filepath@));
@at loop 0 next vx_ps
@at loop 1 next vx_ws
@at loop 0 before
    let ghost vx_ns = extended(document.dom);
    let ghost mut vx_ds: Seq<DNM> = Seq::empty();
@at loop 0 inv
    invariant_except_break
        vx_ps.walker.rest() == vx_ns.skip(vx_ds.len() as int),
    invariant
        vx_ns == extended(document.dom), fits(document.dom), par_models(document.dom, vx_ds), paragraph_count == vx_ds.len(), thread_buffer@ == dm(vx_ds, discard_math).text, is_numeric.pat() == numeric_pattern(), space == ' ', linebreak == '\n',
        word_count == dm(vx_ds, discard_math).words, overflow_count == dm(vx_ds, discard_math).over, formula_count == dm(vx_ds, discard_math).formulas, citation_count == dm(vx_ds, discard_math).citations, num_count == dm(vx_ds, discard_math).nums,
    ensures vx_ds.len() == vx_ns.len(),
    decreases vx_ps.walker.rest().len()
@at loop 0 start
    let ghost vx_d = paragraph.dnm;
    let ghost vx_b = dm(vx_ds, discard_math);
    let ghost vx_t = toks(vx_d.plaintext@, 0);
    proof { assert(std_model(vx_d, vx_ns[vx_ds.len() as int])); assert(par_models(document.dom, vx_ds.push(vx_d))); assert(small(dm(vx_ds.push(vx_d), discard_math))); lemma_dm_push(vx_ds, vx_d, discard_math, vx_ds.len() as int); assert(dm(vx_ds.push(vx_d), discard_math) == dm_add(vx_b, tm_par(vx_d, discard_math))); }
@at loop 0 after
    proof { lemma_names(); }
@at loop 1 before
    let ghost vx_v = vx_ws.walker.rest();
    let ghost mut vx_j: int = 0;
    proof { axiom_string_size(&vx_d.plaintext); assert(vx_d.plaintext@.subrange(0, vx_d.n()) =~= vx_d.plaintext@);
        let x = choose|x: DNMRange| #![trigger x.ok()] *x.dnm == vx_d && x.ok() && (x.start, x.end) == vx_d.node_map@[vx_d.root_node.hash()] && addresses(x, vx_v, toks(x.text(), 0));
        assert(x.start == 0 && x.end == vx_d.n()); assert(x.text() =~= vx_d.plaintext@);
        lemma_toks_full(vx_d.plaintext@);
        assert forall|i: int| 0 <= i < vx_v.len() implies *(#[trigger] vx_v[i]).dnm == vx_d && vx_v[i].ok() && vx_v[i].start == vx_t[i].0 && vx_v[i].end == vx_t[i].1 && vx_v[i].start < vx_v[i].end by { assert(vx_t[i].0 < vx_t[i].1); }
        lemma_filled(vx_v); }
@at loop 1 inv
    invariant_except_break
        filled(vx_ws.walker.rest()) == vx_v.skip(vx_j), !invalid_paragraph,
    invariant
        0 <= vx_j <= vx_v.len(), vx_v.len() == vx_t.len(), vx_t == toks(vx_d.plaintext@, 0), all_ok(vx_ws.walker.rest()), fits(document.dom), small(dm_add(vx_b, tm_par(vx_d, discard_math))), is_numeric.pat() == numeric_pattern(), space == ' ',
        vx_d.back_map@.len() == vx_d.n(), forall|i: int| 0 <= i < vx_v.len() ==> *(#[trigger] vx_v[i]).dnm == vx_d && vx_v[i].ok() && vx_v[i].start == vx_t[i].0 && vx_v[i].end == vx_t[i].1 && vx_v[i].start < vx_v[i].end,
        invalid_paragraph == tm_upto(vx_d, discard_math, vx_j).bad, overflow_count == vx_b.over + if invalid_paragraph { 1int } else { 0 }, !invalid_paragraph ==> paragraph_buffer@ == tm_upto(vx_d, discard_math, vx_j).line,
        word_count == vx_b.words + tm_upto(vx_d, discard_math, vx_j).words, formula_count == vx_b.formulas + tm_upto(vx_d, discard_math, vx_j).formulas, citation_count == vx_b.citations + tm_upto(vx_d, discard_math, vx_j).citations, num_count == vx_b.nums + tm_upto(vx_d, discard_math, vx_j).nums,
    ensures invalid_paragraph || vx_j == vx_v.len(),
    decreases filled(vx_ws.walker.rest()).len()
@at loop 1 start
    let ghost vx_p0 = paragraph_buffer@;
    let ghost vx_a0 = tm_upto(vx_d, discard_math, vx_j);
    proof { let x = vx_v[vx_j]; assert(word.range == x); assert(vx_t[vx_j].0 == x.start); vx_j = vx_j + 1; assert(tm_upto(vx_d, discard_math, vx_j) == tm_step(x.text(), vx_d.back_map@[x.start as int].0, discard_math, vx_a0)); lemma_tm_mono(vx_d, discard_math, vx_j, vx_t.len() as int); }
@at loop 1 end
    proof { assert(paragraph_buffer@ =~= tm_upto(vx_d, discard_math, vx_j).line); }
@at loop 1 after
    proof { lemma_tm_mono(vx_d, discard_math, vx_j, vx_t.len() as int); }
@at loop 0 end
    proof { vx_ds = vx_ds.push(vx_d); assert(thread_buffer@ =~= dm(vx_ds, discard_math).text); }
