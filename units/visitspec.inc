@verbatim
// ---------- C02: the recorded ranges tile ----------
spec fn anc(x: RoNode, d: nat) -> RoNode decreases x.depth() {
    if x.depth() <= d { x } else { match x.up() { Some(u) => if u.depth() < x.depth() { anc(u, d) } else { x }, None => x } }
}
spec fn entered(p: DNMParameters, n: RoNode) -> bool { !n.is_text() && policy(p, n) == Pol::Enter }
// x is visited when building starts at r
spec fn visited(p: DNMParameters, r: RoNode, x: RoNode) -> bool decreases x.depth() {
    x == r || (x.depth() > r.depth() && match x.up() { Some(u) => u.depth() < x.depth() && visited(p, r, u) && entered(p, u), None => false })
}
spec fn rg(m: Map<usize, (usize, usize)>, x: RoNode) -> (usize, usize) { m[x.hash()] }
spec fn has(m: Map<usize, (usize, usize)>, x: RoNode) -> bool { m.dom().contains(x.hash()) }
// what the map says about one visited node
spec fn tiled(p: DNMParameters, m: Map<usize, (usize, usize)>, x: RoNode) -> bool {
    let ks = x.kids();
    has(m, x) && rg(m, x).0 <= rg(m, x).1
    && (!x.is_text() && policy(p, x) == Pol::Skip ==> rg(m, x).0 == rg(m, x).1)
    && (entered(p, x) ==> (forall|i: int| 0 <= i < ks.len() ==> has(m, #[trigger] ks[i]))
        && (ks.len() == 0 ==> rg(m, x).0 == rg(m, x).1)
        && (ks.len() > 0 ==> rg(m, ks[0]).0 == rg(m, x).0 && rg(m, ks.last()).1 == rg(m, x).1)
        && (forall|i: int, j: int| #![trigger ks[i], ks[j]] 0 <= i && j == i + 1 && j < ks.len() ==> rg(m, ks[i]).1 == rg(m, ks[j]).0))
}
// the outcome of visiting n
spec fn recorded(p: DNMParameters, n: RoNode, s: St, t: St) -> bool {
    &&& s.chars.len() <= t.chars.len()
    &&& has(t.map, n) && rg(t.map, n) == (s.chars.len() as usize, t.chars.len() as usize)
    &&& forall|x: RoNode| #[trigger] visited(p, n, x) ==> tiled(p, t.map, x) && s.chars.len() <= rg(t.map, x).0 && rg(t.map, x).1 <= t.chars.len()
    &&& forall|h: usize| #[trigger] t.map.dom().contains(h) ==> s.map.dom().contains(h) || exists|x: RoNode| #[trigger] visited(p, n, x) && x.hash() == h
    &&& forall|h: usize| #[trigger] s.map.dom().contains(h) ==> t.map.dom().contains(h)
    &&& forall|h: usize| (forall|x: RoNode| #[trigger] visited(p, n, x) ==> x.hash() != h) && s.map.dom().contains(h) ==> #[trigger] t.map[h] == s.map[h]
}
