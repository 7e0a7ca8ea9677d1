// Verus unit: dense adjacency storage: at most one outgoing edge per node, copied with its annotations
#![allow(unused)]
use vstd::prelude::*;
use std::ops::Bound;
verus! {
global size_of usize == 8;
//@include graphlib.inc
//@include storelib.inc
// ---- contracts assumed for dependencies ---------------------------------------------------------
/// std HashMap with vectors as values
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { x: std::collections::HashMap<K, V> }
impl<K> HashMap<K, Vec<NodeID>> {
    pub uninterp spec fn view(&self) -> Map<K, Vec<NodeID>>;
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self).view() == Map::<K, Vec<NodeID>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&Vec<NodeID>>)
        ensures r is None <==> !self.view().dom().contains(*k), r matches Some(v) ==> *v == self.view()[*k],
    { unimplemented!() }
    /// `entry(k).or_default()`
    #[verifier::external_body]
    pub fn entry_or_default(&mut self, k: K) -> (r: &mut Vec<NodeID>)
        ensures
            r@ == (if old(self).view().dom().contains(k) { old(self).view()[k]@ } else { Seq::<NodeID>::empty() }),
            final(self).view() == old(self).view().insert(k, *final(r)),
    { unimplemented!() }
}
pub open spec fn sorted(s: Seq<NodeID>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> s[i] < s[j] }
/// slice::binary_search on a sorted vector
#[verifier::external_body]
pub fn binary_search(v: &Vec<NodeID>, x: &NodeID) -> (r: std::result::Result<usize, usize>)
    requires sorted(v@),
    ensures
        r matches Ok(i) ==> i < v@.len() && v@[i as int] == *x,
        r matches Err(i) ==> i <= v@.len() && !v@.contains(*x) && (forall|j: int| #![trigger v@[j]] 0 <= j < i ==> v@[j] < *x) && (forall|j: int| #![trigger v@[j]] i <= j < v@.len() ==> *x < v@[j]),
{ unimplemented!() }
pub fn to_usize(x: NodeID) -> (r: Option<usize>) ensures r == (if x <= usize::MAX { Some(x as usize) } else { None::<usize> }) { if x <= usize::MAX as u64 { Some(x as usize) } else { None } }
#[verifier::external_body]
pub fn all_of(v: &Vec<NodeID>) -> (r: Vec<Result<NodeID>>) ensures oks(r@, v@) { unimplemented!() }
pub trait NodeAnnotationStorage { spec fn largest(&self) -> Option<NodeID>; fn get_largest_item(&self) -> (r: Result<Option<NodeID>>) ensures r matches Ok(v) ==> v == self.largest(); }
pub trait GraphStorage {
    spec fn out_seq(&self, n: NodeID) -> Seq<NodeID>;
    spec fn sources(&self) -> Set<NodeID>;
    spec fn edge_annos(&self) -> AnnoMap;
    fn source_nodes(&self) -> (r: Vec<Result<NodeID>>)
        ensures lists(r@, self.src_seq()), forall|n: NodeID| #![trigger self.sources().contains(n)] self.sources().contains(n) <==> self.src_seq().contains(n);
    spec fn src_seq(&self) -> Seq<NodeID>;
    /// `get_outgoing_edges(n).next()`
    fn first_outgoing(&self, node: NodeID) -> (r: Option<Result<NodeID>>)
        ensures r is None <==> self.out_seq(node).len() == 0, r matches Some(Ok(t)) ==> t == self.out_seq(node)[0];
    fn get_anno_storage(&self) -> (r: &dyn EdgeAnnotationStorage) ensures r.annos() == self.edge_annos();
    fn get_statistics(&self) -> Option<&GraphStatistic>;
}
/// the shape a dense storage is chosen for: at most one outgoing edge per node, all nodes are known to the corpus
#[verifier::opaque]
pub open spec fn shape(g: &dyn GraphStorage, largest: Option<NodeID>) -> bool {
    &&& forall|n: NodeID| #![trigger g.out_seq(n)] g.out_seq(n).len() <= 1 && (g.sources().contains(n) <==> g.out_seq(n).len() > 0)
    &&& forall|n: NodeID| #![trigger g.sources().contains(n)] g.sources().contains(n) <==> g.src_seq().contains(n)
    &&& forall|n: NodeID| #![trigger g.sources().contains(n)] g.sources().contains(n) ==> (largest matches Some(m) && n <= m)
    &&& forall|e: Edge, k: AnnoKey| #![trigger g.edge_annos().dom().contains((e, k))] g.edge_annos().dom().contains((e, k)) ==> g.out_seq(e.source).contains(e.target)
    &&& (largest matches Some(m) ==> m < usize::MAX)
}
#[verifier::external_body]
pub fn stats_cloned(s: Option<&GraphStatistic>) -> (r: Option<GraphStatistic>) ensures r is Some <==> s is Some { unimplemented!() }

//@item src=core/src/graph/storage/dense_adjacency.rs item="struct DenseAdjacencyListStorage"
//@rewrite (?m)^    (\w+): => pub $1:

impl DenseAdjacencyListStorage {
    pub open spec fn has(&self, s: NodeID, t: NodeID) -> bool { s < self.edges@.len() && self.edges@[s as int] == Some(t) }
    pub open spec fn sources_of(&self, t: NodeID) -> Seq<NodeID> { if self.inverse_edges.view().dom().contains(t) { self.inverse_edges.view()[t]@ } else { Seq::empty() } }
    /// both directions list the same edges
    pub open spec fn wf(&self) -> bool {
        &&& forall|t: NodeID| #![trigger self.sources_of(t)] sorted(self.sources_of(t))
        &&& forall|s: NodeID, t: NodeID| #![trigger self.sources_of(t).contains(s)] self.sources_of(t).contains(s) <==> self.has(s, t)
    }
    /// the edges and annotations of the first n listed sources were copied
    #[verifier::opaque]
    pub open spec fn built(&self, g: &dyn GraphStorage, src: Seq<NodeID>, n: int) -> bool {
        &&& self.wf()
        &&& forall|s: NodeID, t: NodeID| #![trigger self.has(s, t)] self.has(s, t) <==> among(src, n, s) && g.out_seq(s).len() > 0 && g.out_seq(s)[0] == t
        &&& forall|e: Edge, k: AnnoKey| #![trigger self.annos.view().dom().contains((e, k))] self.annos.view().dom().contains((e, k)) <==> among(src, n, e.source) && g.edge_annos().dom().contains((e, k))
        &&& forall|e: Edge, k: AnnoKey| #![trigger self.annos.view()[(e, k)]] self.annos.view().dom().contains((e, k)) ==> self.annos.view()[(e, k)] == g.edge_annos()[(e, k)]
    }
    proof fn lemma_add(a: Self, b: Self, g: &dyn GraphStorage, src: Seq<NodeID>, n: int, largest: Option<NodeID>, e: Edge)
        requires
            a.built(g, src, n), shape(g, largest), 0 <= n < src.len(), src[n] == e.source,
            g.sources().contains(e.source), g.out_seq(e.source)[0] == e.target, e.source < a.edges@.len(),
            b.edges@ == a.edges@.update(e.source as int, Some(e.target)),
            forall|t: NodeID| #![trigger b.sources_of(t)] t != e.target ==> b.sources_of(t) == a.sources_of(t),
            sorted(b.sources_of(e.target)),
            forall|x: NodeID| #![trigger b.sources_of(e.target).contains(x)] b.sources_of(e.target).contains(x) <==> a.sources_of(e.target).contains(x) || x == e.source,
            forall|f: Edge, k: AnnoKey| #![trigger b.annos.view().dom().contains((f, k))] b.annos.view().dom().contains((f, k)) <==> a.annos.view().dom().contains((f, k)) || (f == e && g.edge_annos().dom().contains((f, k))),
            forall|f: Edge, k: AnnoKey| #![trigger b.annos.view()[(f, k)]] b.annos.view().dom().contains((f, k)) ==> b.annos.view()[(f, k)] == (if f == e && g.edge_annos().dom().contains((f, k)) { g.edge_annos()[(f, k)] } else { a.annos.view()[(f, k)] }),
        ensures b.built(g, src, n + 1),
    {
        reveal(shape); reveal(DenseAdjacencyListStorage::built);
        assert forall|s: NodeID| #![trigger among(src, n + 1, s)] among(src, n + 1, s) <==> among(src, n, s) || s == e.source by { lemma_among(src, n, s); }
        assert(g.out_seq(e.source).len() == 1);
        assert forall|s: NodeID, t: NodeID| #![trigger b.has(s, t)] b.has(s, t) <==> among(src, n + 1, s) && g.out_seq(s).len() > 0 && g.out_seq(s)[0] == t by {
            assert(a.has(s, t) <==> among(src, n, s) && g.out_seq(s).len() > 0 && g.out_seq(s)[0] == t);
        }
        assert forall|s: NodeID, t: NodeID| #![trigger b.sources_of(t).contains(s)] b.sources_of(t).contains(s) <==> b.has(s, t) by {
            assert(a.sources_of(t).contains(s) <==> a.has(s, t));
            assert(a.has(s, t) <==> among(src, n, s) && g.out_seq(s).len() > 0 && g.out_seq(s)[0] == t);
            if t != e.target { assert(b.sources_of(t) == a.sources_of(t)); }
        }
        assert forall|t: NodeID| #![trigger b.sources_of(t)] sorted(b.sources_of(t)) by { assert(sorted(a.sources_of(t))); }
        assert forall|f: Edge, k: AnnoKey| #![trigger b.annos.view().dom().contains((f, k))] b.annos.view().dom().contains((f, k)) <==> among(src, n + 1, f.source) && g.edge_annos().dom().contains((f, k)) by {
            assert(a.annos.view().dom().contains((f, k)) <==> among(src, n, f.source) && g.edge_annos().dom().contains((f, k)));
            if g.edge_annos().dom().contains((f, k)) { assert(g.out_seq(f.source).contains(f.target)); assert(g.out_seq(f.source).len() <= 1); assert(f.source == e.source ==> f == e); }
        }
        assert forall|f: Edge, k: AnnoKey| #![trigger b.annos.view()[(f, k)]] b.annos.view().dom().contains((f, k)) implies b.annos.view()[(f, k)] == g.edge_annos()[(f, k)] by {
            assert(a.annos.view().dom().contains((f, k)) ==> a.annos.view()[(f, k)] == g.edge_annos()[(f, k)]);
        }
    }
    proof fn lemma_done(&self, g: &dyn GraphStorage, src: Seq<NodeID>, largest: Option<NodeID>)
        requires self.built(g, src, src.len() as int), shape(g, largest),
            src == g.src_seq(),
        ensures copied(self, g),
    {
        reveal(shape); reveal(DenseAdjacencyListStorage::built);
        assert forall|n: NodeID| #![trigger g.sources().contains(n)] g.sources().contains(n) <==> among(src, src.len() as int, n) by {
            if g.sources().contains(n) { assert(src.contains(n)); let i = choose|i: int| 0 <= i < src.len() && src[i] == n; assert(src[i] == n); } if among(src, src.len() as int, n) { assert(src.contains(n)); }
        }
        assert forall|s: NodeID, t: NodeID| #![trigger self.has(s, t)] self.has(s, t) <==> g.out_seq(s).contains(t) by {
            assert(g.out_seq(s).len() <= 1);
            if g.out_seq(s).len() == 1 { assert(g.out_seq(s).contains(g.out_seq(s)[0])); assert(g.sources().contains(s)); }
            if g.out_seq(s).contains(t) { assert(g.sources().contains(s)); assert(g.out_seq(s)[0] == t); }
        }
        assert forall|e: Edge, k: AnnoKey| #![trigger self.annos.view().dom().contains((e, k))] self.annos.view().dom().contains((e, k)) <==> g.edge_annos().dom().contains((e, k)) by {
            if g.edge_annos().dom().contains((e, k)) { assert(g.out_seq(e.source).contains(e.target)); assert(g.sources().contains(e.source)); }
        }
        assert forall|ek: (Edge, AnnoKey)| #![trigger self.annos.view().dom().contains(ek)] self.annos.view().dom().contains(ek) <==> g.edge_annos().dom().contains(ek) by { let (e, k) = ek; assert(self.annos.view().dom().contains((e, k)) <==> g.edge_annos().dom().contains((e, k))); }
        assert forall|ek: (Edge, AnnoKey)| #![trigger self.annos.view()[ek]] self.annos.view().dom().contains(ek) implies self.annos.view()[ek] == g.edge_annos()[ek] by { let (e, k) = ek; assert(self.annos.view()[(e, k)] == g.edge_annos()[(e, k)]); }
        assert(self.annos.view() =~= g.edge_annos());
    }
//@inlined next new
//@fn src=core/src/graph/storage/dense_adjacency.rs item="EdgeContainer for DenseAdjacencyListStorage::get_outgoing_edges"
//@rewrite Box<dyn Iterator<Item = Result<NodeID>> \+ 'a> => Vec<Result<NodeID>>
//@rewrite <'a> =>
//@rewrite &'a self => &self
//@rewrite node\.to_usize\(\) => to_usize(node)
//@rewrite Box::new\(std::iter::once\(Ok\(outgoing\)\)\) => once_node(outgoing)
//@rewrite Box::new\(std::iter::empty\(\)\) => Vec::new()
//@spec
    ensures once(ret@), forall|t: NodeID| #![trigger listed(ret@, t)] listed(ret@, t) <==> self.has(node, t),
//@end
//@fn src=core/src/graph/storage/dense_adjacency.rs item="EdgeContainer for DenseAdjacencyListStorage::get_ingoing_edges"
//@rewrite Box<dyn Iterator<Item = Result<NodeID>> \+ 'a> => Vec<Result<NodeID>>
//@rewrite <'a> =>
//@rewrite &'a self => &self
//@rewrite Box::new\(std::iter::once\(Ok\(ingoing\[0\]\)\)\) => once_node(ingoing[0])
//@rewrite Box::new\(std::iter::empty\(\)\) => Vec::new()
//@rewrite Box::new\(ingoing\.iter\(\)\.map\(\|e\| Ok\(\*e\)\)\) => all_of(ingoing)
//@spec
    requires self.wf(),
    ensures once(ret@), forall|s: NodeID| #![trigger listed(ret@, s)] listed(ret@, s) <==> self.has(s, node),
//@at fn_start
    proof {
        let v = self.sources_of(node);
        assert(sorted(v));
        assert forall|s: NodeID| #![trigger self.has(s, node)] self.has(s, node) <==> v.contains(s) by { assert(self.sources_of(node).contains(s) <==> self.has(s, node)); }
        assert forall|r: Seq<Result<NodeID>>, s: NodeID| #![trigger listed(r, s)] oks(r, v) implies (listed(r, s) <==> v.contains(s)) by {
            if v.contains(s) { let i = choose|i: int| 0 <= i < v.len() && v[i] == s; assert(r[i] == Ok::<NodeID, GraphAnnisCoreError>(s)); }
            if listed(r, s) { let i = choose|i: int| #![trigger r[i]] 0 <= i < r.len() && r[i] == Ok::<NodeID, GraphAnnisCoreError>(s); assert(v[i] == s); }
        }
        assert forall|r: Seq<Result<NodeID>>| #![trigger once(r)] oks(r, v) implies once(r) by { }
        if v.len() == 1 { assert forall|s: NodeID| #![trigger v.contains(s)] v.contains(s) <==> s == v[0] by { } }
    }
//@end
//@fn src=core/src/graph/storage/dense_adjacency.rs item="GraphStorage for DenseAdjacencyListStorage::copy"
//@rewrite let Some\(largest_idx\) = node_annos\s*\.get_largest_item\(\)\?\s*\.and_then\(\|idx\| idx\.to_usize\(\)\) => let Some(largest_idx) = (match node_annos.get_largest_item()? { Some(idx) => to_usize(idx), None => None })
//@rewrite source\.to_usize\(\) => to_usize(source)
//@rewrite orig\.get_outgoing_edges\(source\)\.next\(\) => orig.first_outgoing(source)
//@rewrite self\.inverse_edges\.entry\(e\.target\)\.or_default\(\) => self.inverse_edges.entry_or_default(e.target)
//@rewrite inverse_entry\.binary_search\(&e\.source\) => binary_search(inverse_entry, &e.source)
//@rewrite self\.edges\.resize\(largest_idx \+ 1, None\) => resize_none(&mut self.edges, largest_idx + 1)
//@rewrite self\.edges\[idx\] = Some\(target\) => self.edges.set(idx, Some(target))
//@rewrite for source in orig\.source_nodes\(\) => for source in it: orig.source_nodes()
//@rewrite for a in orig\.get_anno_storage\(\)\.get_annotations_for_item\(&e\)\? => for a in it2: annos_of(orig.get_anno_storage(), &e)?
//@rewrite? orig\.get_statistics\(\)\.cloned\(\) => stats_cloned(orig.get_statistics())
//@spec
    requires shape(orig, node_annos.largest()),
    ensures ret.is_ok() ==> copied(final(self), orig),
//@at fn_start
    proof { reveal(shape); }
//@at before_loop 0
    let ghost src = orig.src_seq();
    proof { assert(self.built(orig, src, 0)) by { reveal(DenseAdjacencyListStorage::built); } assert(largest_idx == node_annos.largest()->0); }
//@loop 0
    invariant
        lists(it.seq(), src), src == orig.src_seq(), shape(orig, node_annos.largest()), node_annos.largest() == Some(largest_idx as u64), self.edges@.len() == largest_idx + 1,
        self.built(orig, src, it.index() as int),
//@at loop_start 0
    let ghost s0 = *self;
    let ghost i0 = it.index() as int;
    proof { reveal(shape); assert(source matches Ok(x) ==> x == src[i0]); assert(src.contains(src[i0])); assert(orig.sources().contains(src[i0])); reveal(DenseAdjacencyListStorage::built); assert(self.wf()); assert forall|t: NodeID| #![trigger self.inverse_edges.view()[t]] self.inverse_edges.view().dom().contains(t) implies sorted(self.inverse_edges.view()[t]@) by { assert(sorted(self.sources_of(t))); } }
//@at before_loop 1
    let ghost ea = anno_seq(orig.edge_annos(), e);
    let ghost s1 = *self;
    proof {
        assert forall|t: NodeID| #![trigger s0.sources_of(t)] sorted(s0.sources_of(t)) by { reveal(DenseAdjacencyListStorage::built); }
        let x = s0.sources_of(target);
        let y = s1.sources_of(target);
        assert forall|n: NodeID| #![trigger y.contains(n)] y.contains(n) <==> x.contains(n) || n == source by { lemma_ins(x, y, source, n); }
    }
//@loop 1
    invariant
        self.edges == s1.edges, self.inverse_edges == s1.inverse_edges,
        it2.seq() == ea, lists_annos(ea, orig.edge_annos(), e),
        s1.annos == s0.annos,
        forall|f: Edge, k: AnnoKey| #![trigger self.annos.view().dom().contains((f, k))] self.annos.view().dom().contains((f, k)) <==> s0.annos.view().dom().contains((f, k)) || (f == e && exists|i: int| #![trigger ea[i]] 0 <= i < it2.index() && ea[i].key == k),
        forall|f: Edge, k: AnnoKey| #![trigger self.annos.view()[(f, k)]] self.annos.view().dom().contains((f, k)) ==> self.annos.view()[(f, k)] == (if f == e && exists|i: int| #![trigger ea[i]] 0 <= i < it2.index() && ea[i].key == k { orig.edge_annos()[(f, k)] } else { s0.annos.view()[(f, k)] }),
//@at after_loop 1
    proof {
        assert forall|k: AnnoKey| #![trigger orig.edge_annos().dom().contains((e, k))] orig.edge_annos().dom().contains((e, k)) <==> exists|i: int| #![trigger ea[i]] 0 <= i < ea.len() && ea[i].key == k by { }
        assert(self.sources_of(e.target) == s1.sources_of(e.target));
        Self::lemma_add(s0, *self, orig, src, i0, node_annos.largest(), e);
    }
//@at after_loop 0
    proof { self.lemma_done(orig, src, node_annos.largest()); }
    let ghost s9 = *self;
    proof { assert forall|b: Self| #![trigger b.annos.view()] b.edges == s9.edges && b.inverse_edges == s9.inverse_edges && b.annos.view() == s9.annos.view() implies copied(&b, orig) by { lemma_frame(&s9, &b, orig); } }
//@at fn_end
    proof { if node_annos.largest() is None { assert forall|s: NodeID, t: NodeID| #![trigger self.has(s, t)] self.has(s, t) <==> orig.out_seq(s).contains(t) by { reveal(shape); assert(orig.out_seq(s).len() <= 1); assert(!orig.sources().contains(s)); }
        assert forall|e: Edge, k: AnnoKey| #![trigger orig.edge_annos().dom().contains((e, k))] !orig.edge_annos().dom().contains((e, k)) by { reveal(shape); assert(!orig.sources().contains(e.source)); assert(orig.out_seq(e.source).len() == 0 || orig.out_seq(e.source).contains(e.target)); }
        assert forall|ek: (Edge, AnnoKey)| #![trigger orig.edge_annos().dom().contains(ek)] !orig.edge_annos().dom().contains(ek) by { let (e, k) = ek; assert(!orig.edge_annos().dom().contains((e, k))); }
        assert(self.annos.view() =~= orig.edge_annos()); assert(self.wf()); assert(copied(self, orig)); }
        else { assert(self.annos.view() == self.annos.view()); assert(copied(self, orig)); } }
//@end
}
/// exactly the edges and annotations of the original
pub open spec fn copied(s: &DenseAdjacencyListStorage, g: &dyn GraphStorage) -> bool {
    &&& s.wf()
    &&& forall|a: NodeID, b: NodeID| #![trigger s.has(a, b)] s.has(a, b) <==> g.out_seq(a).contains(b)
    &&& s.annos.view() == g.edge_annos()
}
proof fn lemma_frame(a: &DenseAdjacencyListStorage, b: &DenseAdjacencyListStorage, g: &dyn GraphStorage)
    requires copied(a, g), a.edges == b.edges, a.inverse_edges == b.inverse_edges, a.annos.view() == b.annos.view(),
    ensures copied(b, g),
{
    assert forall|t: NodeID| #![trigger b.sources_of(t)] a.sources_of(t) == b.sources_of(t) by { }
    assert forall|s: NodeID, t: NodeID| #![trigger b.has(s, t)] a.has(s, t) == b.has(s, t) by { }
    assert forall|s: NodeID, t: NodeID| #![trigger b.sources_of(t).contains(s)] b.sources_of(t).contains(s) <==> b.has(s, t) by { assert(a.sources_of(t).contains(s) <==> a.has(s, t)); }
    assert forall|t: NodeID| #![trigger b.sources_of(t)] sorted(b.sources_of(t)) by { assert(sorted(a.sources_of(t))); }
    assert forall|x: NodeID, y: NodeID| #![trigger b.has(x, y)] b.has(x, y) <==> g.out_seq(x).contains(y) by { assert(a.has(x, y) <==> g.out_seq(x).contains(y)); }
}
pub open spec fn among(src: Seq<NodeID>, n: int, s: NodeID) -> bool { exists|i: int| #![trigger src[i]] 0 <= i < n && i < src.len() && src[i] == s }
proof fn lemma_among(src: Seq<NodeID>, n: int, s: NodeID)
    requires 0 <= n < src.len(),
    ensures among(src, n + 1, s) <==> among(src, n, s) || src[n] == s,
{
    if among(src, n + 1, s) { let i = choose|i: int| #![trigger src[i]] 0 <= i < n + 1 && i < src.len() && src[i] == s; if i < n { assert(among(src, n, s)); } }
    if among(src, n, s) { let i = choose|i: int| #![trigger src[i]] 0 <= i < n && i < src.len() && src[i] == s; assert(src[i] == s); }
}
proof fn lemma_ins(x: Seq<NodeID>, y: Seq<NodeID>, s: NodeID, n: NodeID)
    requires (x == y && x.contains(s)) || exists|i: int| 0 <= i <= x.len() && y == #[trigger] x.insert(i, s),
    ensures y.contains(n) <==> x.contains(n) || n == s,
{
    if !(x == y && x.contains(s)) {
        let i = choose|i: int| 0 <= i <= x.len() && y == #[trigger] x.insert(i, s);
        if y.contains(n) { let j = choose|j: int| 0 <= j < y.len() && y[j] == n; if j < i { assert(x[j] == n); } else if j > i { assert(x[j - 1] == n); } }
        if x.contains(n) { let j = choose|j: int| 0 <= j < x.len() && x[j] == n; if j < i { assert(y[j] == n); } else { assert(y[j + 1] == n); } }
        assert(y[i] == s);
    }
}
pub uninterp spec fn anno_seq(m: AnnoMap, e: Edge) -> Seq<Annotation>;
/// `get_annotations_for_item`, a function of the stored annotations
#[verifier::external_body]
pub fn annos_of(s: &dyn EdgeAnnotationStorage, e: &Edge) -> (r: Result<Vec<Annotation>>)
    ensures r matches Ok(v) ==> v@ == anno_seq(s.annos(), *e) && lists_annos(v@, s.annos(), *e),
{ unimplemented!() }
#[verifier::external_body]
pub fn resize_none(v: &mut Vec<Option<NodeID>>, n: usize)
    requires old(v)@.len() == 0,
    ensures final(v)@.len() == n, forall|i: int| #![trigger final(v)@[i]] 0 <= i < n ==> final(v)@[i] is None,
{ unimplemented!() }
}
