// Verus unit: linear graph storage (chains)
#![allow(unused)]
use vstd::prelude::*;
use std::ops::Bound;
verus! {
//@include graphlib.inc

//@include storelib.inc
// ---- contracts assumed for dependencies ---------------------------------------------------------
/// types::NumValue: an unsigned integer type
pub trait NumValue: Sized {
    spec fn v(&self) -> nat;
    spec fn max() -> nat;
    fn to_usize(&self) -> (r: Option<usize>) ensures r == (if self.v() <= usize::MAX { Some(self.v() as usize) } else { None::<usize> });
    fn from_usize(x: usize) -> (r: Option<Self>) ensures x <= Self::max() <==> r is Some, r matches Some(p) ==> p.v() == x;
    fn zero() -> (r: Self) ensures r.v() == 0;
    fn is_zero(&self) -> (r: bool) ensures r == (self.v() == 0);
    fn num_le(&self, o: &Self) -> (r: bool) ensures r == (self.v() <= o.v());
    fn num_sub(&self, o: &Self) -> (r: Self) requires o.v() <= self.v(), ensures r.v() == self.v() - o.v();
    proof fn v_bounded(&self) ensures self.v() <= Self::max();
}
/// std HashMap
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { x: std::collections::HashMap<K, V> }
impl<K, V> HashMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r.view() == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self).view() == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn shrink_to_fit(&mut self) ensures final(self).view() == old(self).view() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self.view().dom().contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures r is None <==> !self.view().dom().contains(*k), r matches Some(v) ==> *v == self.view()[*k],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self).view() == old(self).view().insert(k, v),
    { unimplemented!() }
}
pub trait NodeAnnotationStorage { }
/// A component whose nodes have at most one outgoing and one ingoing edge and which has no cycles (the shape linear storages
/// are chosen for): `chain(r)` lists the nodes after the root `r`.
pub trait GraphStorage {
    spec fn out_seq(&self, n: NodeID) -> Seq<NodeID>;
    spec fn chain(&self, root: NodeID) -> Seq<NodeID>;
    spec fn roots(&self) -> Set<NodeID>;
    spec fn edge_annos(&self) -> AnnoMap;
    fn get_outgoing_edges(&self, node: NodeID) -> (r: Vec<Result<NodeID>>)
        ensures lists(r@, self.out_seq(node));
    fn get_anno_storage(&self) -> (r: &dyn EdgeAnnotationStorage) ensures r.annos() == self.edge_annos();
    /// `root_nodes().collect()`
    fn collect_root_nodes(&self) -> (r: Result<Vec<NodeID>>)
        ensures r matches Ok(v) ==> v@.no_duplicates() && (forall|n: NodeID| #![trigger v@.contains(n)] v@.contains(n) <==> self.roots().contains(n));
    fn get_statistics(&self) -> Option<&GraphStatistic>;
}
/// the shape of the component a linear storage is chosen for
#[verifier::opaque]
pub open spec fn shape(g: &dyn GraphStorage) -> bool {
    &&& (forall|r: NodeID| #![trigger g.roots().contains(r)] g.roots().contains(r) ==> g.chain(r).len() >= 2 && g.chain(r)[0] == r && g.chain(r).len() <= usize::MAX)
    // every node is at one position of one chain
    &&& (forall|r: NodeID, q: NodeID, i: int, j: int| #![trigger g.chain(r)[i], g.chain(q)[j]]
                g.roots().contains(r) && g.roots().contains(q) && 0 <= i < g.chain(r).len() && 0 <= j < g.chain(q).len() && g.chain(r)[i] == g.chain(q)[j] ==> r == q && i == j)
    // the edges of a node lead to the next node of its chain
    &&& (forall|r: NodeID, i: int| #![trigger g.chain(r)[i]] g.roots().contains(r) && 0 <= i < g.chain(r).len() ==>
                g.out_seq(g.chain(r)[i]) == (if i + 1 < g.chain(r).len() { seq![g.chain(r)[i + 1]] } else { Seq::<NodeID>::empty() }))
    // every node with an edge is in a chain
    &&& (forall|n: NodeID| #![trigger g.out_seq(n)] g.out_seq(n).len() > 0 ==> exists|r: NodeID, i: int| #![trigger g.chain(r)[i]] g.roots().contains(r) && 0 <= i < g.chain(r).len() && g.chain(r)[i] == n)
    // annotations belong to edges
    &&& (forall|e: Edge, k: AnnoKey| #![trigger g.edge_annos().dom().contains((e, k))] g.edge_annos().dom().contains((e, k)) ==> g.out_seq(e.source).contains(e.target))
}
pub axiom fn linear_shape(g: &dyn GraphStorage) ensures shape(g);
proof fn lemma_root(g: &dyn GraphStorage, r: NodeID)
    requires g.roots().contains(r),
    ensures g.chain(r).len() >= 2, g.chain(r)[0] == r, g.chain(r).len() <= usize::MAX,
{ linear_shape(g); reveal(shape); }
proof fn lemma_anno_edges(g: &dyn GraphStorage)
    ensures forall|e: Edge, k: AnnoKey| #![trigger g.edge_annos().dom().contains((e, k))] g.edge_annos().dom().contains((e, k)) ==> g.out_seq(e.source).contains(e.target),
{ linear_shape(g); reveal(shape); }
pub struct DFSStep { pub node: NodeID, pub distance: usize }
/// `CycleSafeDFS::new(orig, root, 1, usize::MAX)` on a chain (its general contract is proved in unit dfs)
pub struct CycleSafeDFS { }
impl CycleSafeDFS {
    #[verifier::external_body]
    pub fn new(orig: &dyn GraphStorage, root: NodeID, min: usize, max: usize) -> (r: Vec<Result<DFSStep>>)
        ensures
            min == 1 && max == usize::MAX && orig.roots().contains(root) ==> r@.len() == orig.chain(root).len() - 1
                && forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> (r@[i] matches Ok(s) ==> s.node == orig.chain(root)[i + 1] && s.distance == i + 1),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn stats_cloned(s: Option<&GraphStatistic>) -> (r: Option<GraphStatistic>) ensures r is Some <==> s is Some { unimplemented!() }

// ---- specification ----------------------------------------------------------------------------
/// `chain[a..b].iter().map(|n| Ok(*n))`
#[verifier::external_body]
pub fn part(c: &Vec<NodeID>, a: usize, b: usize) -> (r: Vec<Result<NodeID>>)
    requires a <= b <= c@.len(),
    ensures oks(r@, c@.subrange(a as int, b as int)),
{ unimplemented!() }

//@item src=core/src/graph/storage/linear.rs item="struct RelativePosition"
//@rewrite pub\(crate\) => pub
#[verifier::reject_recursive_types(PosT)]
//@item src=core/src/graph/storage/linear.rs item="struct LinearGraphStorage"
//@rewrite (?m)^    (\w+): => pub $1:

impl<PosT: NumValue> LinearGraphStorage<PosT> {
    /// n is at position i of the chain starting at root r
    pub open spec fn at(&self, r: NodeID, i: int, n: NodeID) -> bool {
        self.node_chains.view().dom().contains(r) && 0 <= i < self.node_chains.view()[r]@.len() && self.node_chains.view()[r]@[i] == n
    }
    pub open spec fn wf(&self) -> bool {
        // a node has the position it is found at
        &&& forall|n: NodeID| #![trigger self.node_to_pos.view().dom().contains(n)] self.node_to_pos.view().dom().contains(n) ==> self.at(self.node_to_pos.view()[n].root, self.node_to_pos.view()[n].pos.v() as int, n)
        // every entry of a chain is found
        &&& forall|r: NodeID, i: int, n: NodeID| #![trigger self.at(r, i, n)] self.at(r, i, n) ==> self.node_to_pos.view().dom().contains(n) && self.node_to_pos.view()[n].root == r && self.node_to_pos.view()[n].pos.v() == i
    }
    /// t is d steps behind s
    pub open spec fn steps(&self, s: NodeID, t: NodeID, d: int) -> bool {
        (d == 0 && s == t) || (d > 0 && exists|r: NodeID, i: int| #![trigger self.at(r, i, s)] self.at(r, i, s) && self.at(r, i + d, t))
    }
    pub open spec fn has(&self, s: NodeID, t: NodeID) -> bool { self.steps(s, t, 1) }
    proof fn lemma_steps(&self, s: NodeID)
        requires self.wf(),
        ensures
            self.node_to_pos.view().dom().contains(s) ==> forall|t: NodeID, d: int| #![trigger self.steps(s, t, d)] self.steps(s, t, d) <==> d >= 0 && self.at(self.node_to_pos.view()[s].root, self.node_to_pos.view()[s].pos.v() + d, t),
            !self.node_to_pos.view().dom().contains(s) ==> forall|t: NodeID, d: int| #![trigger self.steps(s, t, d)] self.steps(s, t, d) <==> d == 0 && s == t,
            !self.node_to_pos.view().dom().contains(s) ==> forall|t: NodeID, d: int| #![trigger self.steps(t, s, d)] self.steps(t, s, d) <==> d == 0 && s == t,
            self.node_to_pos.view().dom().contains(s) ==> forall|t: NodeID, d: int| #![trigger self.steps(t, s, d)] self.steps(t, s, d) <==> d >= 0 && self.at(self.node_to_pos.view()[s].root, self.node_to_pos.view()[s].pos.v() - d, t),
    {
        let p = self.node_to_pos.view()[s];
        if self.node_to_pos.view().dom().contains(s) {
            assert(self.at(p.root, p.pos.v() as int, s));
            assert forall|t: NodeID, d: int| #![trigger self.steps(t, s, d)] self.steps(t, s, d) <==> d >= 0 && self.at(p.root, p.pos.v() - d, t) by {
                if self.steps(t, s, d) {
                    if d > 0 {
                        let (r, i) = choose|r: NodeID, i: int| #![trigger self.at(r, i, t)] self.at(r, i, t) && self.at(r, i + d, s);
                        assert(self.at(r, i + d, s));
                        assert(r == p.root && i + d == p.pos.v());
                    } else { assert(self.at(p.root, p.pos.v() - d, t)); }
                }
                if d >= 0 && self.at(p.root, p.pos.v() - d, t) {
                    assert(self.at(p.root, (p.pos.v() - d) + d, s));
                }
            }
        }
    }
    /// what a query from s with a range has to list: exactly the nodes reached by a path with a length in the range
    pub open spec fn answers(&self, r: Seq<Result<NodeID>>, s: NodeID, min: usize, max: Bound<usize>) -> bool {
        once(r) && forall|t: NodeID| #![trigger listed(r, t)] listed(r, t) <==> exists|d: int| #![trigger self.steps(s, t, d)] self.steps(s, t, d) && in_range(d, min, max)
    }
    pub open spec fn answers_inverse(&self, r: Seq<Result<NodeID>>, s: NodeID, min: usize, max: Bound<usize>) -> bool {
        once(r) && forall|t: NodeID| #![trigger listed(r, t)] listed(r, t) <==> exists|d: int| #![trigger self.steps(t, s, d)] self.steps(t, s, d) && in_range(d, min, max)
    }
    /// a slice of the chain with exactly the positions in the range answers the query
    proof fn lemma_part(&self, r: Seq<Result<NodeID>>, s: NodeID, a: int, b: int, min: usize, max: Bound<usize>)
        requires
            self.wf(), self.node_to_pos.view().dom().contains(s),
            ({ let p = self.node_to_pos.view()[s]; let c = self.node_chains.view()[p.root]@;
               &&& 0 <= a <= b <= c.len()
               &&& oks(r, c.subrange(a, b))
               &&& forall|d: int| #![trigger in_range(d, min, max)] 0 <= d < c.len() - p.pos.v() ==> (in_range(d, min, max) <==> a <= p.pos.v() + d < b)
               &&& (a < b ==> a >= p.pos.v()) }),
        ensures self.answers(r, s, min, max),
    {
        let p = self.node_to_pos.view()[s];
        let c = self.node_chains.view()[p.root]@;
        self.lemma_steps(s);
        assert(self.at(p.root, p.pos.v() as int, s));
        self.lemma_once(r, p.root, a, b);
        assert forall|t: NodeID| #![trigger listed(r, t)] listed(r, t) <==> exists|d: int| #![trigger self.steps(s, t, d)] self.steps(s, t, d) && in_range(d, min, max) by {
            if listed(r, t) {
                let i = choose|i: int| #![trigger r[i]] 0 <= i < r.len() && r[i] == Ok::<NodeID, GraphAnnisCoreError>(t);
                let d = a + i - p.pos.v();
                assert(c[a + i] == t);
                assert(self.at(p.root, p.pos.v() + d, t));
                assert(self.steps(s, t, d) && in_range(d, min, max));
            }
            if exists|d: int| #![trigger self.steps(s, t, d)] self.steps(s, t, d) && in_range(d, min, max) {
                let d = choose|d: int| #![trigger self.steps(s, t, d)] self.steps(s, t, d) && in_range(d, min, max);
                assert(self.at(p.root, p.pos.v() + d, t));
                assert(r[p.pos.v() + d - a] == Ok::<NodeID, GraphAnnisCoreError>(t));
            }
        }
    }
    proof fn lemma_part_inverse(&self, r: Seq<Result<NodeID>>, s: NodeID, a: int, b: int, min: usize, max: Bound<usize>)
        requires
            self.wf(), self.node_to_pos.view().dom().contains(s),
            ({ let p = self.node_to_pos.view()[s]; let c = self.node_chains.view()[p.root]@;
               &&& 0 <= a <= b <= c.len()
               &&& oks(r, c.subrange(a, b))
               &&& forall|d: int| #![trigger in_range(d, min, max)] 0 <= d <= p.pos.v() ==> (in_range(d, min, max) <==> a <= p.pos.v() - d < b)
               &&& b <= p.pos.v() + 1 }),
        ensures self.answers_inverse(r, s, min, max),
    {
        let p = self.node_to_pos.view()[s];
        let c = self.node_chains.view()[p.root]@;
        self.lemma_steps(s);
        assert(self.at(p.root, p.pos.v() as int, s));
        self.lemma_once(r, p.root, a, b);
        assert forall|t: NodeID| #![trigger listed(r, t)] listed(r, t) <==> exists|d: int| #![trigger self.steps(t, s, d)] self.steps(t, s, d) && in_range(d, min, max) by {
            if listed(r, t) {
                let i = choose|i: int| #![trigger r[i]] 0 <= i < r.len() && r[i] == Ok::<NodeID, GraphAnnisCoreError>(t);
                let d = p.pos.v() - (a + i);
                assert(c[a + i] == t);
                assert(self.at(p.root, p.pos.v() - d, t));
                assert(self.steps(t, s, d) && in_range(d, min, max));
            }
            if exists|d: int| #![trigger self.steps(t, s, d)] self.steps(t, s, d) && in_range(d, min, max) {
                let d = choose|d: int| #![trigger self.steps(t, s, d)] self.steps(t, s, d) && in_range(d, min, max);
                assert(self.at(p.root, p.pos.v() - d, t));
                assert(r[p.pos.v() - d - a] == Ok::<NodeID, GraphAnnisCoreError>(t));
            }
        }
    }
    proof fn lemma_once(&self, r: Seq<Result<NodeID>>, root: NodeID, a: int, b: int)
        requires self.wf(), self.node_chains.view().dom().contains(root), 0 <= a <= b <= self.node_chains.view()[root]@.len(), oks(r, self.node_chains.view()[root]@.subrange(a, b)),
        ensures once(r),
    {
        let c = self.node_chains.view()[root]@;
        assert forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i < j < r.len() implies r[i] != r[j] by {
            assert(self.at(root, a + i, c[a + i]));
            assert(self.at(root, a + j, c[a + j]));
        }
    }

//@inlined zero
//@fn src=core/src/graph/storage/linear.rs item=LinearGraphStorage::clear
//@spec
    ensures ret.is_ok() ==> final(self).wf() && final(self).node_chains.view() == Map::<NodeID, Vec<NodeID>>::empty() && final(self).node_to_pos.view() == Map::<NodeID, RelativePosition<PosT>>::empty() && final(self).annos.view() == AnnoMap::empty(),
//@end
//@fn src=core/src/graph/storage/linear.rs item="EdgeContainer for LinearGraphStorage::get_outgoing_edges"
//@rewrite Box<dyn Iterator<Item = Result<NodeID>> \+ 'a> => Vec<Result<NodeID>>
//@rewrite <'a> =>
//@rewrite &'a self => &self
//@rewrite Box::from\(std::iter::once\(Ok\(chain\[next_pos\]\)\)\) => once_node(chain[next_pos])
//@rewrite Box::from\(std::iter::empty\(\)\) => Vec::new()
//@spec
    requires self.wf(),
    ensures once(ret@), forall|t: NodeID| #![trigger listed(ret@, t)] listed(ret@, t) <==> self.has(node, t),
//@at fn_start
    proof { self.lemma_steps(node); self.lemma_at(node); }
//@end
//@fn src=core/src/graph/storage/linear.rs item="EdgeContainer for LinearGraphStorage::get_ingoing_edges"
//@rewrite Box<dyn Iterator<Item = Result<NodeID>> \+ 'a> => Vec<Result<NodeID>>
//@rewrite <'a> =>
//@rewrite &'a self => &self
//@rewrite Box::from\(std::iter::once\(Ok\(chain\[previous_pos\]\)\)\) => once_node(chain[previous_pos])
//@rewrite Box::from\(std::iter::empty\(\)\) => Vec::new()
//@spec
    requires self.wf(),
    ensures once(ret@), forall|s: NodeID| #![trigger listed(ret@, s)] listed(ret@, s) <==> self.has(s, node),
//@at fn_start
    proof { self.lemma_steps(node); self.lemma_at(node); if self.node_to_pos.view().dom().contains(node) { assert(self.at(self.node_to_pos.view()[node].root, self.node_to_pos.view()[node].pos.v() as int, node)); } }
//@end
//@fn src=core/src/graph/storage/linear.rs item="EdgeContainer for LinearGraphStorage::has_ingoing_edges"
//@rewrite \.map\(\|pos\| !pos\.pos\.is_zero\(\)\) => .map(|pos: &RelativePosition<PosT>| -> (r: bool) ensures r == (pos.pos.v() != 0) { !pos.pos.is_zero() })
//@spec
    requires self.wf(),
    ensures ret matches Ok(b) ==> b == (exists|s: NodeID| #[trigger] self.has(s, node)),
//@at fn_start
    proof {
        self.lemma_steps(node); self.lemma_at(node);
        if self.node_to_pos.view().dom().contains(node) {
            let p = self.node_to_pos.view()[node];
            assert(self.at(p.root, p.pos.v() as int, node));
            if p.pos.v() > 0 { let s = self.node_chains.view()[p.root]@[p.pos.v() - 1]; assert(self.at(p.root, p.pos.v() - 1, s)); assert(self.has(s, node)); }
        }
    }
//@end
//@fn src=core/src/graph/storage/linear.rs item="GraphStorage for LinearGraphStorage::find_connected"
//@rewrite Box<dyn Iterator<Item = Result<NodeID>> \+ 'a> => Vec<Result<NodeID>>
//@rewrite <'a> =>
//@rewrite &'a self => &self
//@rewrite? std::ops::Bound => Bound
//@rewrite Box::new\(chain\[min_distance\.\.\]\.iter\(\)\.map\(\|n\| Ok\(\*n\)\)\) => part(chain, min_distance, chain.len())
//@rewrite Box::new\(chain\[min_distance\.\.max_distance\]\.iter\(\)\.map\(\|n\| Ok\(\*n\)\)\) => part(chain, min_distance, max_distance)
//@rewrite Box::new\(std::iter::empty\(\)\) => Vec::new()
//@rewrite? std::cmp::min\(chain\.len\(\), max_distance\) => (if chain.len() <= max_distance { chain.len() } else { max_distance })
//@spec
    requires self.wf(),
    ensures self.answers(ret@, source, min_distance, max_distance),
//@at fn_start
    let ghost mn = min_distance;
    let ghost mx = max_distance;
    proof {
        self.lemma_steps(source); self.lemma_at(source); assert(self.steps(source, source, 0));
        if self.node_to_pos.view().dom().contains(source) {
            let p = self.node_to_pos.view()[source];
            assert(self.at(p.root, p.pos.v() as int, source));
            assert forall|r: Seq<Result<NodeID>>, a: int, b: int| #![trigger oks(r, self.node_chains.view()[p.root]@.subrange(a, b))]
                ({ let c = self.node_chains.view()[p.root]@;
               &&& 0 <= a <= b <= c.len()
               &&& oks(r, c.subrange(a, b))
               &&& forall|d: int| #![trigger in_range(d, mn, mx)] 0 <= d < c.len() - p.pos.v() ==> (in_range(d, mn, mx) <==> a <= p.pos.v() + d < b)
               &&& (a < b ==> a >= p.pos.v()) }) implies self.answers(r, source, mn, mx) by { self.lemma_part(r, source, a, b, mn, mx); }
            assert(oks(Seq::empty(), self.node_chains.view()[p.root]@.subrange(0, 0)));
        }
    }
//@end
//@fn src=core/src/graph/storage/linear.rs item="GraphStorage for LinearGraphStorage::find_connected_inverse"
//@rewrite Box<dyn Iterator<Item = Result<NodeID>> \+ 'a> => Vec<Result<NodeID>>
//@rewrite <'a> =>
//@rewrite &'a self => &self
//@rewrite? std::ops::Bound => Bound
//@rewrite Box::new\(chain\[max_distance\.\.=min_distance\]\.iter\(\)\.map\(\|n\| Ok\(\*n\)\)\) => part(chain, max_distance, min_distance + 1)
//@rewrite Box::new\(std::iter::empty\(\)\) => Vec::new()
//@spec
    requires self.wf(),
    ensures self.answers_inverse(ret@, source, min_distance, max_distance),
//@at fn_start
    let ghost mn = min_distance;
    let ghost mx = max_distance;
    proof {
        self.lemma_steps(source); self.lemma_at(source); assert(self.steps(source, source, 0));
        if self.node_to_pos.view().dom().contains(source) {
            let p = self.node_to_pos.view()[source];
            assert(self.at(p.root, p.pos.v() as int, source));
            assert forall|r: Seq<Result<NodeID>>, a: int, b: int| #![trigger oks(r, self.node_chains.view()[p.root]@.subrange(a, b))]
                ({ let c = self.node_chains.view()[p.root]@;
               &&& 0 <= a <= b <= c.len()
               &&& oks(r, c.subrange(a, b))
               &&& forall|d: int| #![trigger in_range(d, mn, mx)] 0 <= d <= p.pos.v() ==> (in_range(d, mn, mx) <==> a <= p.pos.v() - d < b)
               &&& b <= p.pos.v() + 1 }) implies self.answers_inverse(r, source, mn, mx) by { self.lemma_part_inverse(r, source, a, b, mn, mx); }
            assert(oks(Seq::empty(), self.node_chains.view()[p.root]@.subrange(0, 0)));
        }
    }
//@end
//@fn src=core/src/graph/storage/linear.rs item="GraphStorage for LinearGraphStorage::distance"
//@rewrite source_pos\.pos <= target_pos\.pos => source_pos.pos.num_le(&target_pos.pos)
//@rewrite target_pos\.pos\.clone\(\) - source_pos\.pos\.clone\(\) => target_pos.pos.num_sub(&source_pos.pos)
//@spec
    requires self.wf(),
    ensures ret.is_ok(), ret matches Ok(Some(d)) ==> self.steps(source, target, d as int), ret matches Ok(None) ==> forall|d: int| !#[trigger] self.steps(source, target, d),
//@at fn_start
    proof { self.lemma_steps(source); self.lemma_at(source); assert(self.steps(source, source, 0)); self.lemma_at(target); self.lemma_steps(target); if self.node_to_pos.view().dom().contains(target) { let p = self.node_to_pos.view()[target]; assert(self.at(p.root, p.pos.v() as int, target)); } }
//@end
//@fn src=core/src/graph/storage/linear.rs item="GraphStorage for LinearGraphStorage::is_connected"
//@rewrite source_pos\.pos <= target_pos\.pos => source_pos.pos.num_le(&target_pos.pos)
//@rewrite target_pos\.pos\.clone\(\) - source_pos\.pos\.clone\(\) => target_pos.pos.num_sub(&source_pos.pos)
//@rewrite? std::ops::Bound => Bound
//@spec
    requires self.wf(),
    ensures ret matches Ok(b) && b == (exists|d: int| #![trigger self.steps(source, target, d)] self.steps(source, target, d) && in_range(d, min_distance, max_distance)),
//@at fn_start
    proof {
        self.lemma_steps(source); self.lemma_at(source); assert(self.steps(source, source, 0));
        assert(in_range(0, 0, max_distance) || !in_range(0, 0, max_distance));
        if source == target { assert(self.steps(source, target, 0)); assert(forall|d: int| #[trigger] self.steps(source, target, d) ==> d == 0) by { self.lemma_same(source); } }
        self.lemma_at(target); self.lemma_steps(target); if self.node_to_pos.view().dom().contains(target) {
            let p = self.node_to_pos.view()[target];
            assert(self.at(p.root, p.pos.v() as int, target));
            if self.node_to_pos.view().dom().contains(source) { let q = self.node_to_pos.view()[source]; assert forall|d: int| #![trigger self.steps(source, target, d)] self.steps(source, target, d) implies d == p.pos.v() - q.pos.v() by { assert(self.at(q.root, q.pos.v() + d, target)); } assert(self.steps(source, target, p.pos.v() - q.pos.v()) <==> q.root == p.root && q.pos.v() <= p.pos.v()); }
        }
    }
//@end
    proof fn lemma_at(&self, s: NodeID)
        requires self.wf(),
        ensures self.node_to_pos.view().dom().contains(s) ==> ({ let p = self.node_to_pos.view()[s];
            self.at(p.root, p.pos.v() as int, s) && self.node_chains.view().dom().contains(p.root) && p.pos.v() < self.node_chains.view()[p.root]@.len() && self.node_chains.view()[p.root]@.len() <= usize::MAX }),
    {
        if self.node_to_pos.view().dom().contains(s) { let p = self.node_to_pos.view()[s]; assert(self.at(p.root, p.pos.v() as int, s)); let c = self.node_chains.view()[p.root]; assert(c@.len() == vstd::std_specs::vec::spec_vec_len(&c)); }
    }
    proof fn lemma_same(&self, s: NodeID)
        requires self.wf(),
        ensures forall|d: int| #[trigger] self.steps(s, s, d) ==> d == 0,
    {
        self.lemma_steps(s);
        if self.node_to_pos.view().dom().contains(s) { let p = self.node_to_pos.view()[s]; assert(self.at(p.root, p.pos.v() as int, s)); }
    }

    /// the state after the chains of the first i roots and the first m nodes of the next one were copied
    #[verifier::opaque]
    pub open spec fn built(&self, g: &dyn GraphStorage, rs: Seq<NodeID>, i: int, m: int) -> bool {
        &&& forall|n: NodeID| #![trigger self.node_to_pos.view().dom().contains(n)] self.node_to_pos.view().dom().contains(n) ==> ({
                let p = self.node_to_pos.view()[n];
                among(rs, i, p.root, p.pos.v() as int, m) && p.pos.v() < g.chain(p.root).len() && g.chain(p.root)[p.pos.v() as int] == n })
        &&& forall|j: int, x: int| #![trigger g.chain(rs[j])[x]] (0 <= j < i || (j == i && x < m)) && j < rs.len() && 0 <= x < g.chain(rs[j]).len() ==> self.node_to_pos.view().dom().contains(g.chain(rs[j])[x])
        &&& forall|j: int| #![trigger rs[j]] 0 <= j < i ==> self.node_chains.view().dom().contains(rs[j]) && self.node_chains.view()[rs[j]]@ == g.chain(rs[j])
        &&& forall|r: NodeID| #![trigger self.node_chains.view().dom().contains(r)] self.node_chains.view().dom().contains(r) ==> exists|j: int| #![trigger rs[j]] 0 <= j < i && rs[j] == r
        &&& forall|e: Edge, k: AnnoKey| #![trigger self.annos.view().dom().contains((e, k))] self.annos.view().dom().contains((e, k)) <==> g.edge_annos().dom().contains((e, k)) && self.node_to_pos.view().dom().contains(e.source)
        &&& forall|e: Edge, k: AnnoKey| #![trigger self.annos.view()[(e, k)]] self.annos.view().dom().contains((e, k)) ==> self.annos.view()[(e, k)] == g.edge_annos()[(e, k)]
    }
    /// the whole component was copied
    proof fn lemma_built(&self, g: &dyn GraphStorage, rs: Seq<NodeID>)
        requires
            self.built(g, rs, rs.len() as int, 0),
            forall|n: NodeID| #![trigger rs.contains(n)] rs.contains(n) <==> g.roots().contains(n),
        ensures
            self.wf(),
            forall|s: NodeID, t: NodeID| #![trigger self.has(s, t)] self.has(s, t) <==> g.out_seq(s).contains(t),
            self.annos.view() =~= g.edge_annos(),
            forall|r: NodeID| #![trigger self.node_chains.view().dom().contains(r)] self.node_chains.view().dom().contains(r) <==> g.roots().contains(r),
    {
        linear_shape(g); reveal(shape); reveal(LinearGraphStorage::built);
        assert forall|r: NodeID| #![trigger self.node_chains.view().dom().contains(r)] self.node_chains.view().dom().contains(r) <==> g.roots().contains(r) by {
            if g.roots().contains(r) { assert(rs.contains(r)); let j = choose|j: int| 0 <= j < rs.len() && rs[j] == r; assert(rs[j] == r); }
            if self.node_chains.view().dom().contains(r) { let j = choose|j: int| #![trigger rs[j]] 0 <= j < rs.len() && rs[j] == r; assert(rs.contains(r)); }
        }
        assert forall|r: NodeID| #![trigger self.node_chains.view()[r]] g.roots().contains(r) implies self.node_chains.view()[r]@ == g.chain(r) by {
            assert(rs.contains(r)); let j = choose|j: int| 0 <= j < rs.len() && rs[j] == r; assert(rs[j] == r);
        }
        assert forall|n: NodeID| #![trigger self.node_to_pos.view().dom().contains(n)] self.node_to_pos.view().dom().contains(n) implies self.at(self.node_to_pos.view()[n].root, self.node_to_pos.view()[n].pos.v() as int, n) by {
            let p = self.node_to_pos.view()[n];
            let j = choose|j: int| #![trigger rs[j]] 0 <= j < rs.len() && rs[j] == p.root;
            assert(rs.contains(p.root)); assert(g.roots().contains(p.root)); assert(self.node_chains.view().dom().contains(p.root));
        }
        assert forall|r: NodeID, i: int, n: NodeID| #![trigger self.at(r, i, n)] self.at(r, i, n) implies self.node_to_pos.view().dom().contains(n) && self.node_to_pos.view()[n].root == r && self.node_to_pos.view()[n].pos.v() == i by {
            assert(g.roots().contains(r)); assert(rs.contains(r));
            let j = choose|j: int| 0 <= j < rs.len() && rs[j] == r;
            assert(g.chain(rs[j])[i] == n);
            let p = self.node_to_pos.view()[n];
            let q = choose|j: int| #![trigger rs[j]] 0 <= j < rs.len() && rs[j] == p.root;
            assert(rs.contains(p.root)); assert(g.roots().contains(p.root));
            assert(g.chain(p.root)[p.pos.v() as int] == n);
        }
        assert forall|s: NodeID, t: NodeID| #![trigger self.has(s, t)] self.has(s, t) <==> g.out_seq(s).contains(t) by {
            self.lemma_steps(s);
            if self.has(s, t) {
                assert(self.node_to_pos.view().dom().contains(s));
                let p = self.node_to_pos.view()[s];
                assert(self.at(p.root, p.pos.v() as int, s));
                assert(g.roots().contains(p.root));
                assert(g.chain(p.root)[p.pos.v() as int] == s);
                assert(g.out_seq(s)[0] == t);
            }
            if g.out_seq(s).contains(t) {
                let (r, i) = choose|r: NodeID, i: int| #![trigger g.chain(r)[i]] g.roots().contains(r) && 0 <= i < g.chain(r).len() && g.chain(r)[i] == s;
                assert(g.chain(r)[i] == s);
                assert(self.node_chains.view()[r]@ == g.chain(r));
                assert(self.at(r, i, s));
                assert(self.at(r, i + 1, t));
            }
        }
        assert forall|e: Edge, k: AnnoKey| #![trigger g.edge_annos().dom().contains((e, k))] g.edge_annos().dom().contains((e, k)) implies self.node_to_pos.view().dom().contains(e.source) by {
            assert(g.out_seq(e.source).contains(e.target));
            assert(self.has(e.source, e.target));
            self.lemma_steps(e.source);
        }
        assert forall|ek: (Edge, AnnoKey)| #![trigger self.annos.view().dom().contains(ek)] self.annos.view().dom().contains(ek) <==> g.edge_annos().dom().contains(ek) by { let (e, k) = ek; assert(self.annos.view().dom().contains((e, k)) <==> g.edge_annos().dom().contains((e, k))); }
        assert forall|ek: (Edge, AnnoKey)| #![trigger self.annos.view()[ek]] self.annos.view().dom().contains(ek) implies self.annos.view()[ek] == g.edge_annos()[ek] by { let (e, k) = ek; assert(self.annos.view()[(e, k)] == g.edge_annos()[(e, k)]); }
    }
    /// adding the node at position m of the chain of root i
    proof fn lemma_step(a: Self, b: Self, g: &dyn GraphStorage, rs: Seq<NodeID>, i: int, m: int, p: RelativePosition<PosT>)
        requires
            a.built(g, rs, i, m), 0 <= i < rs.len(), rs.no_duplicates(),
            forall|n: NodeID| #![trigger rs.contains(n)] rs.contains(n) <==> g.roots().contains(n),
            0 <= m < g.chain(rs[i]).len(),
            b.node_chains == a.node_chains,
            p.root == rs[i], p.pos.v() == m,
            b.node_to_pos.view() == a.node_to_pos.view().insert(g.chain(rs[i])[m], p),
            annos_added(a.annos.view(), b.annos.view(), g, g.chain(rs[i])[m]),
        ensures b.built(g, rs, i, m + 1),
    {
        linear_shape(g); reveal(shape); reveal(LinearGraphStorage::built);
        let x = g.chain(rs[i])[m];
        assert(rs.contains(rs[i]));
        assert forall|n: NodeID| #![trigger b.node_to_pos.view().dom().contains(n)] b.node_to_pos.view().dom().contains(n) implies ({
                let p = b.node_to_pos.view()[n];
                among(rs, i, p.root, p.pos.v() as int, m + 1) && p.pos.v() < g.chain(p.root).len() && g.chain(p.root)[p.pos.v() as int] == n }) by {
            if n != x { assert(a.node_to_pos.view().dom().contains(n)); }
        }
        assert forall|j: int, y: int| #![trigger g.chain(rs[j])[y]] (0 <= j < i || (j == i && y < m + 1)) && j < rs.len() && 0 <= y < g.chain(rs[j]).len() implies b.node_to_pos.view().dom().contains(g.chain(rs[j])[y]) by {
            if j == i && y == m { } else { assert(a.node_to_pos.view().dom().contains(g.chain(rs[j])[y])); }
        }
    }
    proof fn lemma_frame(a: Self, b: Self, g: &dyn GraphStorage, rs: Seq<NodeID>, i: int, m: int)
        requires a.built(g, rs, i, m), a.node_to_pos.view() == b.node_to_pos.view(), a.node_chains.view() == b.node_chains.view(), a.annos.view() == b.annos.view(),
        ensures b.built(g, rs, i, m),
    { reveal(LinearGraphStorage::built); }
    proof fn lemma_next_root(a: Self, b: Self, g: &dyn GraphStorage, rs: Seq<NodeID>, i: int, c: Vec<NodeID>)
        requires
            a.built(g, rs, i, g.chain(rs[i]).len() as int), 0 <= i < rs.len(), rs.no_duplicates(), c@ == g.chain(rs[i]),
            b.node_to_pos == a.node_to_pos, b.annos == a.annos, b.node_chains.view() == a.node_chains.view().insert(rs[i], c),
        ensures b.built(g, rs, i + 1, 0),
    {
        reveal(LinearGraphStorage::built);
        assert forall|n: NodeID| #![trigger b.node_to_pos.view().dom().contains(n)] b.node_to_pos.view().dom().contains(n) implies ({
                let p = b.node_to_pos.view()[n];
                among(rs, i + 1, p.root, p.pos.v() as int, 0) && p.pos.v() < g.chain(p.root).len() && g.chain(p.root)[p.pos.v() as int] == n }) by {
            assert(a.node_to_pos.view().dom().contains(n));
            let p = b.node_to_pos.view()[n];
            if rs[i] == p.root { assert(0 <= i < i + 1 && rs[i] == p.root); }
        }
        assert forall|r: NodeID| #![trigger b.node_chains.view().dom().contains(r)] b.node_chains.view().dom().contains(r) implies exists|j: int| #![trigger rs[j]] 0 <= j < i + 1 && rs[j] == r by {
            if r == rs[i] { assert(rs[i] == r); } else { assert(a.node_chains.view().dom().contains(r)); let j = choose|j: int| #![trigger rs[j]] 0 <= j < i && rs[j] == r; assert(rs[j] == r); }
        }
        assert forall|j: int| #![trigger rs[j]] 0 <= j < i + 1 implies b.node_chains.view().dom().contains(rs[j]) && b.node_chains.view()[rs[j]]@ == g.chain(rs[j]) by { }
    }
//@fn src=core/src/graph/storage/linear.rs item=LinearGraphStorage::copy_edge_annos_for_node
//@rewrite for target in out_edges => for target in it: out_edges
//@rewrite for a in edge_annos => for a in it2: edge_annos
//@spec
    ensures
        ret.is_ok() ==> final(self).node_to_pos == old(self).node_to_pos && final(self).node_chains == old(self).node_chains && annos_added(old(self).annos.view(), final(self).annos.view(), orig, source_node),
//@at before_loop 0
    let ghost a0 = self.annos.view();
    let ghost outs = out_edges@;
//@loop 0
    invariant
        self.node_to_pos == old(self).node_to_pos, self.node_chains == old(self).node_chains,
        a0 == old(self).annos.view(),
        it.seq() == outs, lists(outs, orig.out_seq(source_node)),
        forall|i: int| #![trigger outs[i]] 0 <= i < it.index() ==> outs[i] is Ok,
        part_added(a0, self.annos.view(), orig, source_node, it.index()),
//@at loop_start 0
    let ghost b0 = self.annos.view();
    let ghost k0 = it.index() as int;
//@at before_loop 1
    let ghost ea = edge_annos@;
    proof { assert(target == orig.out_seq(source_node)[k0]); assert(!(forall|k: AnnoKey| !#[trigger] orig.edge_annos().dom().contains((e, k))) || true); }
//@loop 1
    invariant
        self.node_to_pos == old(self).node_to_pos, self.node_chains == old(self).node_chains,
        a0 == old(self).annos.view(),
        it2.seq() == ea, lists_annos(ea, orig.edge_annos(), e), e.source == source_node, e.target == target,
        forall|f: Edge, k: AnnoKey| #![trigger self.annos.view().dom().contains((f, k))] self.annos.view().dom().contains((f, k)) <==> b0.dom().contains((f, k)) || (f == e && exists|i: int| #![trigger ea[i]] 0 <= i < it2.index() && ea[i].key == k),
        forall|f: Edge, k: AnnoKey| #![trigger self.annos.view()[(f, k)]] self.annos.view().dom().contains((f, k)) ==> self.annos.view()[(f, k)] == (if f == e && exists|i: int| #![trigger ea[i]] 0 <= i < it2.index() && ea[i].key == k { orig.edge_annos()[(f, k)] } else { b0[(f, k)] }),
//@at after_loop 1
    proof {
        let o = orig.out_seq(source_node);
        assert forall|x: NodeID| #![trigger o.take(k0 + 1).contains(x)] o.take(k0 + 1).contains(x) <==> o.take(k0).contains(x) || x == target by { lemma_take(o, k0, x); }
        assert forall|k: AnnoKey| #![trigger orig.edge_annos().dom().contains((e, k))] orig.edge_annos().dom().contains((e, k)) <==> exists|i: int| #![trigger ea[i]] 0 <= i < ea.len() && ea[i].key == k by { }
    }
//@at after_loop 0
    proof { lemma_anno_edges(orig); assert(orig.out_seq(source_node).take(outs.len() as int) =~= orig.out_seq(source_node)); }
//@end
//@fn src=core/src/graph/storage/linear.rs item="GraphStorage for LinearGraphStorage::copy"
//@rewrite let roots: Result<FxHashSet<NodeID>> = orig\.root_nodes\(\)\.collect\(\) => let roots: Result<Vec<NodeID>> = orig.collect_root_nodes()
//@rewrite for root_node in &roots => for root_node in it: roots.iter()
//@rewrite for step in dfs => for step in it2: dfs
//@rewrite? orig\.as_edgecontainer\(\) => orig
//@rewrite? orig\.get_statistics\(\)\.cloned\(\) => stats_cloned(orig.get_statistics())
//@rewrite chain\.shrink_to_fit\(\); =>
//@rewrite? chain\.len\(\) => chain.len()
//@spec
    requires forall|r: NodeID| #![trigger orig.chain(r)] orig.roots().contains(r) ==> orig.chain(r).len() - 1 <= PosT::max(),
    ensures
        ret.is_ok() ==> final(self).wf()
            && (forall|s: NodeID, t: NodeID| #![trigger final(self).has(s, t)] final(self).has(s, t) <==> orig.out_seq(s).contains(t))
            && (forall|r: NodeID| #![trigger final(self).node_chains.view().dom().contains(r)] final(self).node_chains.view().dom().contains(r) <==> orig.roots().contains(r))
            && final(self).annos.view() == orig.edge_annos(),
//@at before_loop 0
    let ghost rs = roots@;
    proof { assert(self.built(orig, rs, 0, 0)) by { reveal(LinearGraphStorage::built); } }
//@loop 0
    invariant
        it.seq().len() == rs.len(), forall|i: int| #![trigger it.seq()[i]] 0 <= i < rs.len() ==> *it.seq()[i] == rs[i],
        rs.no_duplicates(),
        forall|n: NodeID| #![trigger rs.contains(n)] rs.contains(n) <==> orig.roots().contains(n),
        forall|r: NodeID| #![trigger orig.chain(r)] orig.roots().contains(r) ==> orig.chain(r).len() - 1 <= PosT::max(),
        self.built(orig, rs, it.index() as int, 0),
//@at loop_start 0
    let ghost i0 = it.index() as int;
    let ghost s0 = *self;
    let ghost c0 = orig.chain(rs[i0]);
    proof { assert(*root_node == rs[i0]); assert(rs.contains(rs[i0])); lemma_root(orig, rs[i0]); }
//@at before_loop 1
    let ghost steps = dfs@;
    proof { Self::lemma_step(s0, *self, orig, rs, i0, 0, self.node_to_pos.view()[*root_node]); assert(chain@ =~= c0.subrange(0, 1)); }
//@loop 1
    invariant
        rs.no_duplicates(), 0 <= i0 < rs.len(), *root_node == rs[i0], c0 == orig.chain(rs[i0]), c0.len() <= usize::MAX, orig.roots().contains(rs[i0]), c0.len() >= 2,
        forall|n: NodeID| #![trigger rs.contains(n)] rs.contains(n) <==> orig.roots().contains(n),
        c0.len() - 1 <= PosT::max(),
        it2.seq() == steps, steps.len() == c0.len() - 1,
        forall|i: int| #![trigger steps[i]] 0 <= i < steps.len() ==> (steps[i] matches Ok(s) ==> s.node == c0[i + 1] && s.distance == i + 1),
        chain@ == c0.subrange(0, it2.index() + 1),
        self.built(orig, rs, i0, it2.index() + 1),
//@at loop_start 1
    let ghost s1 = *self;
    let ghost k1 = it2.index() as int;
//@at loop_end 1
    proof { Self::lemma_step(s1, *self, orig, rs, i0, k1 + 1, self.node_to_pos.view()[step.node]); assert(chain@ =~= c0.subrange(0, k1 + 2)); }
//@at after_loop 1
    let ghost s2 = *self;
    let ghost c2 = chain;
    proof { assert(chain@ =~= c0); }
//@at loop_end 0
    proof { Self::lemma_next_root(s2, *self, orig, rs, i0, c2); }
//@at after_loop 0
    let ghost s3 = *self;
//@at fn_end
    proof { Self::lemma_frame(s3, *self, orig, rs, rs.len() as int, 0); self.lemma_built(orig, rs); }
//@end
}
proof fn lemma_take(s: Seq<NodeID>, n: int, x: NodeID)
    requires 0 <= n < s.len(),
    ensures s.take(n + 1).contains(x) <==> s.take(n).contains(x) || x == s[n],
{
    let a = s.take(n + 1);
    let b = s.take(n);
    if a.contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; if i < n { assert(b[i] == x); } }
    if b.contains(x) { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; assert(a[i] == x); }
    if x == s[n] { assert(a[n] == x); }
}
/// r is one of the first i roots, or the next one and the position is before m
pub open spec fn among(rs: Seq<NodeID>, i: int, r: NodeID, pos: int, m: int) -> bool {
    (exists|j: int| #![trigger rs[j]] 0 <= j < i && j < rs.len() && rs[j] == r) || (0 <= i < rs.len() && rs[i] == r && pos < m)
}
/// b is a plus the annotations of the first n outgoing edges of the node in g
pub open spec fn part_added(a: AnnoMap, b: AnnoMap, g: &dyn GraphStorage, node: NodeID, n: int) -> bool {
    &&& forall|e: Edge, k: AnnoKey| #![trigger b.dom().contains((e, k))] b.dom().contains((e, k)) <==> a.dom().contains((e, k)) || (e.source == node && g.edge_annos().dom().contains((e, k)) && g.out_seq(node).take(n).contains(e.target))
    &&& forall|e: Edge, k: AnnoKey| #![trigger b[(e, k)]] b.dom().contains((e, k)) ==> b[(e, k)] == (if e.source == node && g.edge_annos().dom().contains((e, k)) && g.out_seq(node).take(n).contains(e.target) { g.edge_annos()[(e, k)] } else { a[(e, k)] })
}
/// b is a plus the annotations of all outgoing edges of the node in g
pub open spec fn annos_added(a: AnnoMap, b: AnnoMap, g: &dyn GraphStorage, node: NodeID) -> bool {
    &&& forall|e: Edge, k: AnnoKey| #![trigger b.dom().contains((e, k))] b.dom().contains((e, k)) <==> a.dom().contains((e, k)) || (e.source == node && g.edge_annos().dom().contains((e, k)))
    &&& forall|e: Edge, k: AnnoKey| #![trigger b[(e, k)]] b.dom().contains((e, k)) ==> b[(e, k)] == (if e.source == node && g.edge_annos().dom().contains((e, k)) { g.edge_annos()[(e, k)] } else { a[(e, k)] })
}
}
