@src src/parallel_data/corpus.rs
@include walkspec.inc
spec fn of_file(c: &Corpus, d: Document) -> bool { d.corpus == c && d.dnm is None && Some(d.dom) == parsed_file(d.path@) }
spec fn is_picked(c: &Corpus, p: Seq<char>) -> bool { exists|v: Seq<VxEach>| #[trigger] listing(c.path@, true, v) && picked_all(v, c.extension).contains(p) }
spec fn reports<R, F: Fn(Document) -> R>(f: F, c: &Corpus, v: Seq<VxEach>, ms: Seq<R>) -> bool {
    let ps = picked_all(v, c.extension);
    ms.len() == ps.len() && forall|i: int| 0 <= i < ms.len() ==> reports_on(f, c, ps[i], #[trigger] ms[i])
}
spec fn reports_on<R, F: Fn(Document) -> R>(f: F, c: &Corpus, p: Seq<char>, m: R) -> bool { exists|d: Document| d.path@ == p && of_file(c, d) && #[trigger] call_ensures(f, (d,), m) }
spec fn chosen(c: &Corpus, v: Seq<VxEach>, o: Seq<Option<String>>) -> bool { o.len() == v.len() && forall|i: int| 0 <= i < o.len() ==> sv(#[trigger] o[i]) == picked(v[i], c.extension) }
proof fn lemma_chosen(c: &Corpus)
    ensures forall|v: Seq<VxEach>, o: Seq<Option<String>>, i: int| #![trigger listing(c.path@, true, v), somes(o)[i]] listing(c.path@, true, v) && chosen(c, v, o) && 0 <= i < somes(o).len() ==> is_picked(c, somes(o)[i]@)
{
    assert forall|v: Seq<VxEach>, o: Seq<Option<String>>, i: int| #![trigger listing(c.path@, true, v), somes(o)[i]] listing(c.path@, true, v) && chosen(c, v, o) && 0 <= i < somes(o).len() implies is_picked(c, somes(o)[i]@) by { lemma_picked(v, c.extension, o); assert(texts(somes(o))[i] == somes(o)[i]@); }
}
spec fn all_report<R, F: Fn(Document) -> R>(f: F, c: &Corpus, o: Seq<Option<String>>, ms: Seq<R>) -> bool { ms.len() == somes(o).len() && forall|i: int| 0 <= i < ms.len() ==> reports_on(f, c, somes(o)[i]@, #[trigger] ms[i]) }
proof fn lemma_reports<R, F: Fn(Document) -> R>(f: F, c: &Corpus, v: Seq<VxEach>, o: Seq<Option<String>>, ms: Seq<R>)
    requires chosen(c, v, o), all_report(f, c, o, ms)
    ensures reports(f, c, v, ms)
{ lemma_picked(v, c.extension, o); assert forall|i: int| 0 <= i < ms.len() implies reports_on(f, c, picked_all(v, c.extension)[i], #[trigger] ms[i]) by { assert(texts(somes(o))[i] == somes(o)[i]@); } }
proof fn lemma_reports1<F: Fn(Document) -> HashMap<String, u64>>(f: F, c: &Corpus)
    ensures forall|v: Seq<VxEach>, o: Seq<Option<String>>, ms: Seq<HashMap<String, u64>>| #![trigger listing(c.path@, true, v), somes(o), cats(ms)] listing(c.path@, true, v) && cats(ms).len() == ms.len() && chosen(c, v, o) && all_report(f, c, o, ms) ==> reports(f, c, v, ms)
{ assert forall|v: Seq<VxEach>, o: Seq<Option<String>>, ms: Seq<HashMap<String, u64>>| #![trigger listing(c.path@, true, v), somes(o), cats(ms)] listing(c.path@, true, v) && cats(ms).len() == ms.len() && chosen(c, v, o) && all_report(f, c, o, ms) implies reports(f, c, v, ms) by { lemma_reports(f, c, v, o, ms); } }
proof fn lemma_reports2<F: Fn(Document) -> HM2>(f: F, c: &Corpus)
    ensures forall|v: Seq<VxEach>, o: Seq<Option<String>>, ms: Seq<HM2>| #![trigger listing(c.path@, true, v), somes(o), firsts(ms)] listing(c.path@, true, v) && firsts(ms).len() == ms.len() && chosen(c, v, o) && all_report(f, c, o, ms) ==> reports(f, c, v, ms)
{ assert forall|v: Seq<VxEach>, o: Seq<Option<String>>, ms: Seq<HM2>| #![trigger listing(c.path@, true, v), somes(o), firsts(ms)] listing(c.path@, true, v) && firsts(ms).len() == ms.len() && chosen(c, v, o) && all_report(f, c, o, ms) implies reports(f, c, v, ms) by { lemma_reports(f, c, v, o, ms); } }
@fn Corpus::catalog_with_parallel_walk
@props C24 C25
@ret r
@contract
    requires !self.xml_parser.html(), self.html_parser.html(),
        forall|p: Seq<char>| is_picked(self, p) ==> #[trigger] parsed_file(p) is Some,
        forall|d: Document| #[trigger] is_picked(self, d.path@) && of_file(self, d) ==> call_requires(closure, (d,)),
        forall|v: Seq<VxEach>, ms: Seq<HashMap<String, u64>>| #![trigger reports(closure, self, v, ms)] listing(self.path@, true, v) && reports(closure, self, v, ms) ==> sums_at_most(cats(ms))
    ensures exists|v: Seq<VxEach>, ms: Seq<HashMap<String, u64>>| listing(self.path@, true, v) && #[trigger] reports(closure, self, v, ms) && exact(cats(ms), r@)
@at entry
    proof { lemma_chosen(self); lemma_reports1(closure, self); }
@closure 0 |each: VxEach| -> (vx_r: Option<String>) ensures sv(vx_r) == picked(each, self.extension)
@closure 1 |each: (usize, String)| -> (vx_r: HashMap<String, u64>) requires is_picked(self, each.1@) ensures exists|d: Document| d.path@ == each.1@ && of_file(self, d) && #[trigger] call_ensures(closure, (d,), vx_r)
@closure 2 |vx_p0: HashMap<String, u64>, map2: HashMap<String, u64>| -> (vx_r: HashMap<String, u64>) requires can_add(vx_p0@, map2@) ensures is_sum(vx_p0@, map2@, vx_r@)
@at loop 0 before
    let ghost vx_a0 = map1@;
    proof { lemma_added_none(vx_a0, vx_es0@); }
@at loop 0 hoist vx_es0 vx_drain
@at loop 0 iter it
@at loop 0 inv
    invariant it.seq() == vx_es0@, drained(vx_es0@, map2@), added(vx_a0, vx_es0@, it.index() as int, map1@), can_add(vx_a0, map2@),
@at loop 0 start
    let ghost vx_r0 = map1@;
    proof { lemma_room(vx_a0, vx_es0@, map2@, it.index() as int, map1@); assert(vx_es0@[it.index() as int] == (k, v)); }
@at loop 0 end
    proof { lemma_added_step(vx_a0, vx_es0@, it.index() as int, vx_r0, map1@); }
@at loop 0 after
    proof { lemma_added_all(vx_a0, vx_es0@, map2@, map1@); }
@fn Corpus::catalogs_with_parallel_walk
@props C24 C25
@ret r
@contract
    requires !self.xml_parser.html(), self.html_parser.html(),
        forall|p: Seq<char>| is_picked(self, p) ==> #[trigger] parsed_file(p) is Some,
        forall|d: Document| #[trigger] is_picked(self, d.path@) && of_file(self, d) ==> call_requires(closure, (d,)),
        forall|v: Seq<VxEach>, ms: Seq<HM2>| #![trigger reports(closure, self, v, ms)] listing(self.path@, true, v) && reports(closure, self, v, ms) ==> sums_at_most(firsts(ms)) && sums_at_most(seconds(ms))
    ensures exists|v: Seq<VxEach>, ms: Seq<HM2>| listing(self.path@, true, v) && #[trigger] reports(closure, self, v, ms) && exact(firsts(ms), r.0@) && exact(seconds(ms), r.1@)
@at entry
    proof { lemma_chosen(self); lemma_reports2(closure, self); }
@closure 0 |each: VxEach| -> (vx_r: Option<String>) ensures sv(vx_r) == picked(each, self.extension)
@closure 1 |each: (usize, String)| -> (vx_r: HM2) requires is_picked(self, each.1@) ensures exists|d: Document| d.path@ == each.1@ && of_file(self, d) && #[trigger] call_ensures(closure, (d,), vx_r)
@closure 2 || -> (vx_r: HM2) ensures vx_r.0@ == Cat::empty() && vx_r.1@ == Cat::empty()
@closure 3 |vx_p0: HM2, vx_p1: HM2| -> (vx_r: HM2) requires can_add(vx_p0.0@, vx_p1.0@), can_add(vx_p0.1@, vx_p1.1@) ensures is_sum(vx_p0.0@, vx_p1.0@, vx_r.0@) && is_sum(vx_p0.1@, vx_p1.1@, vx_r.1@)
@at loop 0 before
    let ghost vx_a0 = map11@;
    proof { lemma_added_none(vx_a0, vx_es0@); }
@at loop 0 hoist vx_es0 vx_drain
@at loop 0 iter it
@at loop 0 inv
    invariant it.seq() == vx_es0@, drained(vx_es0@, map21@), added(vx_a0, vx_es0@, it.index() as int, map11@), can_add(vx_a0, map21@),
@at loop 0 start
    let ghost vx_r0 = map11@;
    proof { lemma_room(vx_a0, vx_es0@, map21@, it.index() as int, map11@); assert(vx_es0@[it.index() as int] == (k, v)); }
@at loop 0 end
    proof { lemma_added_step(vx_a0, vx_es0@, it.index() as int, vx_r0, map11@); }
@at loop 0 after
    proof { lemma_added_all(vx_a0, vx_es0@, map21@, map11@); }
@at loop 1 before
    let ghost vx_a1 = map12@;
    proof { lemma_added_none(vx_a1, vx_es1@); }
@at loop 1 hoist vx_es1 vx_drain
@at loop 1 iter it
@at loop 1 inv
    invariant it.seq() == vx_es1@, drained(vx_es1@, map22@), added(vx_a1, vx_es1@, it.index() as int, map12@), can_add(vx_a1, map22@),
@at loop 1 start
    let ghost vx_r1 = map12@;
    proof { lemma_room(vx_a1, vx_es1@, map22@, it.index() as int, map12@); assert(vx_es1@[it.index() as int] == (k, v)); }
@at loop 1 end
    proof { lemma_added_step(vx_a1, vx_es1@, it.index() as int, vx_r1, map12@); }
@at loop 1 after
    proof { lemma_added_all(vx_a1, vx_es1@, map22@, map12@); }
