// Verus unit: the writable adjacency list storage on disk
#![allow(unused)]
use vstd::prelude::*;
verus! {
//@include graphlib.inc

// ---- data types -------------------------------------------------------------------------------
//@item src=core/src/types.rs item="struct AnnoKey"
//@item src=core/src/types.rs item="struct Annotation"
//@item src=core/src/types.rs item="struct Edge"
impl Clone for Edge { fn clone(&self) -> (r: Edge) ensures r == *self { Edge { source: self.source, target: self.target } } }
impl Edge {
//@fn src=core/src/types.rs item=Edge::inverse
//@spec
    ensures ret.source == self.target, ret.target == self.source,
//@end
}
#[verifier::external_body]
pub struct GraphStatistic { x: u8 }

// ---- contracts assumed for dependencies ---------------------------------------------------------
/// core/src/util/disk_collections.rs (its own contract is the subject of P08)
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct DiskMap<K, V> { x: K, y: V }
pub struct RangeIter { pub v: Vec<Result<(Edge, bool)>> }
impl RangeIter {
    #[verifier::external_body]
    pub fn map_ok<F: Fn((Edge, bool)) -> NodeID>(self, f: F) -> (r: Vec<Result<NodeID>>)
        requires forall|x: (Edge, bool)| call_requires(f, (x,)),
        ensures (forall|x: (Edge, bool), y: NodeID| call_ensures(f, (x,), y) ==> y == x.0.target) ==> mapped(self.v@, r@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Result<(Edge, bool)>>)
        ensures r is None <==> old(self).v@.len() == 0, r matches Some(x) ==> x == old(self).v@[0],
    { unimplemented!() }
}
pub struct Range { pub lo: Edge, pub hi: Edge, pub inclusive: bool }
pub open spec fn edge_le(a: Edge, b: Edge) -> bool { a.source < b.source || (a.source == b.source && a.target <= b.target) }
pub open spec fn in_range(r: Range, e: Edge) -> bool { edge_le(r.lo, e) && edge_le(e, r.hi) && (r.inclusive || e != r.hi) }
pub open spec fn range_of(m: Set<Edge>, x: Range, v: Seq<Result<(Edge, bool)>>) -> bool {
    &&& forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> (v[i] matches Ok(y) ==> m.contains(y.0) && in_range(x, y.0))
    &&& (forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> v[i] is Ok) ==>
        forall|e: Edge| #![trigger m.contains(e)] m.contains(e) && in_range(x, e) ==> exists|i: int| #![trigger v[i]] 0 <= i < v.len() && v[i]->Ok_0.0 == e
}
/// the targets of the listed edges
pub open spec fn mapped(v: Seq<Result<(Edge, bool)>>, r: Seq<Result<NodeID>>) -> bool {
    &&& v.len() == r.len()
    &&& forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> match r[i] { Ok(y) => v[i] is Ok && y == v[i]->Ok_0.0.target, Err(_) => v[i] is Err }
}
proof fn lemma_row(m: Set<Edge>, x: Range, n: NodeID, v: Seq<Result<(Edge, bool)>>, r: Seq<Result<NodeID>>)
    requires range_of(m, x, v), mapped(v, r), x.lo == edge(n, 0), x.hi == edge(n, u64::MAX), x.inclusive,
    ensures lists_all(r, |t: NodeID| m.contains(edge(n, t))),
{
    let p = |t: NodeID| m.contains(edge(n, t));
    assert forall|i: int| #![trigger r[i]] 0 <= i < r.len() implies (r[i] matches Ok(y) ==> p(y)) by {
        if let Ok(y) = r[i] { assert(v[i]->Ok_0.0 == edge(n, y)); }
    }
    if forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> r[i] is Ok {
        assert forall|i: int| #![trigger v[i]] 0 <= i < v.len() implies v[i] is Ok by { assert(r[i] is Ok); }
        assert forall|t: NodeID| #![trigger p(t)] p(t) implies exists|i: int| #![trigger r[i]] 0 <= i < r.len() && r[i] == Ok::<NodeID, GraphAnnisCoreError>(t) by {
            let e = edge(n, t);
            assert(m.contains(e) && in_range(x, e));
            let i = choose|i: int| #![trigger v[i]] 0 <= i < v.len() && v[i]->Ok_0.0 == e;
            assert(r[i] == Ok::<NodeID, GraphAnnisCoreError>(t));
        }
    }
}
proof fn lemma_rows(m: Set<Edge>, n: NodeID)
    ensures forall|x: Range, v: Seq<Result<(Edge, bool)>>, r: Seq<Result<NodeID>>| #![trigger range_of(m, x, v), mapped(v, r)]
        range_of(m, x, v) && mapped(v, r) && x.lo == edge(n, 0) && x.hi == edge(n, u64::MAX) && x.inclusive ==> lists_all(r, |t: NodeID| m.contains(edge(n, t))),
{
    assert forall|x: Range, v: Seq<Result<(Edge, bool)>>, r: Seq<Result<NodeID>>| #![trigger range_of(m, x, v), mapped(v, r)]
        range_of(m, x, v) && mapped(v, r) && x.lo == edge(n, 0) && x.hi == edge(n, u64::MAX) && x.inclusive implies lists_all(r, |t: NodeID| m.contains(edge(n, t))) by { lemma_row(m, x, n, v, r); }
}
impl DiskMap<Edge, bool> {
    pub uninterp spec fn view(&self) -> Set<Edge>;
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self).view() == Set::<Edge>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: Edge, v: bool) -> (r: Result<()>) ensures r.is_ok() ==> final(self).view() == old(self).view().insert(k) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &Edge) -> (r: Result<Option<bool>>) ensures r.is_ok() ==> final(self).view() == old(self).view().remove(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &Edge) -> (r: Result<Option<bool>>) ensures r matches Ok(x) ==> (x is Some <==> self.view().contains(*k)) { unimplemented!() }
    #[verifier::external_body]
    pub fn range(&self, x: Range) -> (r: RangeIter)
        ensures
            range_of(self.view(), x, r.v@),
    { unimplemented!() }
}
pub type AnnoMap = Map<(Edge, AnnoKey), String>;
/// the annotation storages (their own contracts are the subject of P06 and P07)
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct AnnoStorageImpl<T> { x: T }
impl AnnoStorageImpl<Edge> {
    pub uninterp spec fn view(&self) -> AnnoMap;
    #[verifier::external_body]
    pub fn insert(&mut self, item: Edge, anno: Annotation) -> (r: Result<()>)
        ensures r.is_ok() ==> final(self).view() == old(self).view().insert((item, anno.key), anno.val),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_item(&mut self, item: &Edge) -> (r: Result<bool>)
        ensures r.is_ok() ==> final(self).view() == without(old(self).view(), *item),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_annotation_for_item(&mut self, item: &Edge, key: &AnnoKey) -> (r: Result<Option<String>>)
        ensures r.is_ok() ==> final(self).view() == old(self).view().remove((*item, *key)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) -> (r: Result<()>) ensures r.is_ok() ==> final(self).view() == AnnoMap::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn calculate_statistics(&mut self) -> (r: Result<()>) ensures final(self).view() == old(self).view() { unimplemented!() }
}
pub open spec fn without(m: AnnoMap, e: Edge) -> AnnoMap { m.restrict(m.dom().filter(|k: (Edge, AnnoKey)| k.0 != e)) }


// ---- specification ----------------------------------------------------------------------------
pub open spec fn edge(s: NodeID, t: NodeID) -> Edge { Edge { source: s, target: t } }
//@item src=core/src/graph/storage/disk_adjacency.rs item="struct DiskAdjacencyListStorage"
//@rewrite (?m)^    (\w+): => pub $1:
impl DiskAdjacencyListStorage {
    pub open spec fn has(&self, s: NodeID, t: NodeID) -> bool { self.edges.view().contains(edge(s, t)) }
    pub open spec fn wf(&self) -> bool {
        &&& forall|s: NodeID, t: NodeID| #![trigger self.edges.view().contains(edge(s, t))] #![trigger self.inverse_edges.view().contains(edge(t, s))]
            self.edges.view().contains(edge(s, t)) <==> self.inverse_edges.view().contains(edge(t, s))
        &&& forall|s: NodeID| !#[trigger] self.has(s, s)
        &&& forall|e: Edge, k: AnnoKey| #![trigger self.annos.view().dom().contains((e, k))] self.annos.view().dom().contains((e, k)) ==> self.has(e.source, e.target)
    }
}
/// r lists exactly the nodes x with p(x), unless reading failed
pub open spec fn lists_all(r: Seq<Result<NodeID>>, p: spec_fn(NodeID) -> bool) -> bool {
    &&& forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> (r[i] matches Ok(x) ==> p(x))
    &&& (forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> r[i] is Ok) ==> forall|x: NodeID| #![trigger p(x)] p(x) ==> exists|i: int| #![trigger r[i]] 0 <= i < r.len() && r[i] == Ok::<NodeID, GraphAnnisCoreError>(x)
}
pub fn bx(v: Vec<Result<NodeID>>) -> (r: Vec<Result<NodeID>>) ensures r == v { v }

//@inlined new
impl DiskAdjacencyListStorage {
//@fn src=core/src/graph/storage/disk_adjacency.rs item=DiskAdjacencyListStorage::clear
//@spec
    ensures ret.is_ok() ==> final(self).wf() && (forall|s: NodeID, t: NodeID| !#[trigger] final(self).has(s, t)) && final(self).annos.view() == AnnoMap::empty() && final(self).stats is None,
//@end
//@fn src=core/src/graph/storage/disk_adjacency.rs item="EdgeContainer for DiskAdjacencyListStorage::get_outgoing_edges"
//@rewrite Box<dyn Iterator<Item = Result<NodeID>> \+ 'a> => Vec<Result<NodeID>>
//@rewrite Box::new\( => bx(
//@rewrite NodeID::MIN => u64::MIN
//@rewrite NodeID::MAX => u64::MAX
//@rewrite \.range\((\w+)\.\.=(\w+)\) => .range(Range { lo: $1, hi: $2, inclusive: true })
//@rewrite? \.range\((\w+)\.\.(\w+)\) => .range(Range { lo: $1, hi: $2, inclusive: false })
//@rewrite \.map_ok\(\|\((\w+), _\)\| ([^)]+)\) => .map_ok(|p: (Edge, bool)| -> (r: NodeID) ensures r == ({ let ($1, _) = p; $2 }) { let ($1, _) = p; $2 })
//@spec
    ensures lists_all(ret@, |t: NodeID| self.edges.view().contains(crate::edge(node, t))),
//@at fn_start
    proof { lemma_rows(self.edges.view(), node); }
//@end
//@fn src=core/src/graph/storage/disk_adjacency.rs item="EdgeContainer for DiskAdjacencyListStorage::get_ingoing_edges"
//@rewrite Box<dyn Iterator<Item = Result<NodeID>> \+ 'a> => Vec<Result<NodeID>>
//@rewrite Box::new\( => bx(
//@rewrite NodeID::MIN => u64::MIN
//@rewrite NodeID::MAX => u64::MAX
//@rewrite \.range\((\w+)\.\.=(\w+)\) => .range(Range { lo: $1, hi: $2, inclusive: true })
//@rewrite? \.range\((\w+)\.\.(\w+)\) => .range(Range { lo: $1, hi: $2, inclusive: false })
//@rewrite \.map_ok\(\|\((\w+), _\)\| ([^)]+)\) => .map_ok(|p: (Edge, bool)| -> (r: NodeID) ensures r == ({ let ($1, _) = p; $2 }) { let ($1, _) = p; $2 })
//@spec
    ensures lists_all(ret@, |t: NodeID| self.inverse_edges.view().contains(crate::edge(node, t))),
//@at fn_start
    proof { lemma_rows(self.inverse_edges.view(), node); }
//@end
//@fn src=core/src/graph/storage/disk_adjacency.rs item="EdgeContainer for DiskAdjacencyListStorage::has_outgoing_edges"
//@rewrite NodeID::MIN => u64::MIN
//@rewrite NodeID::MAX => u64::MAX
//@rewrite \.range\((\w+)\.\.=(\w+)\) => .range(Range { lo: $1, hi: $2, inclusive: true })
//@rewrite? \.range\((\w+)\.\.(\w+)\) => .range(Range { lo: $1, hi: $2, inclusive: false })
//@spec
    ensures ret matches Ok(b) ==> b == (exists|t: NodeID| #[trigger] self.has(node, t)),
//@at fn_start
    proof {
        assert forall|x: Range, v: Seq<Result<(Edge, bool)>>| #![trigger range_of(self.edges.view(), x, v)]
            range_of(self.edges.view(), x, v) && x.lo == crate::edge(node, 0) && x.hi == crate::edge(node, u64::MAX) && x.inclusive
            implies (v.len() == 0 ==> forall|t: NodeID| !#[trigger] self.has(node, t)) && (v.len() > 0 && v[0] is Ok ==> exists|t: NodeID| #[trigger] self.has(node, t)) by {
            if v.len() > 0 && v[0] is Ok { assert(v[0]->Ok_0.0 == crate::edge(node, v[0]->Ok_0.0.target)); assert(self.has(node, v[0]->Ok_0.0.target)); }
            if v.len() == 0 { assert forall|t: NodeID| !#[trigger] self.has(node, t) by { let e = crate::edge(node, t); assert(self.edges.view().contains(e) ==> in_range(x, e)); } }
        }
    }
//@end
//@fn src=core/src/graph/storage/disk_adjacency.rs item="WriteableGraphStorage for DiskAdjacencyListStorage::add_edge"
//@spec
    requires old(self).wf(),
    ensures
        ret.is_ok() ==> final(self).wf(),
        ret.is_ok() ==> forall|s: NodeID, t: NodeID| #![trigger final(self).has(s, t)] final(self).has(s, t) <==> old(self).has(s, t) || (s == edge.source && t == edge.target && s != t),
        final(self).annos.view() == old(self).annos.view(),
        ret.is_ok() && edge.source != edge.target ==> final(self).stats is None,
//@at fn_start
    let ghost s0 = *self;
//@at before_call Ok 0
    proof {
        assert forall|s: NodeID, t: NodeID| #![trigger self.has(s, t)] self.has(s, t) <==> s0.has(s, t) || (s == edge.source && t == edge.target && s != t) by { assert(!s0.has(s, s)); }
        lemma_keep(s0, *self);
    }
//@end
//@fn src=core/src/graph/storage/disk_adjacency.rs item="WriteableGraphStorage for DiskAdjacencyListStorage::add_edge_annotation"
//@spec
    requires old(self).wf(),
    ensures
        ret.is_ok() ==> final(self).wf(),
        forall|s: NodeID, t: NodeID| #![trigger final(self).has(s, t)] final(self).has(s, t) <==> old(self).has(s, t),
        ret.is_ok() ==> final(self).annos.view() == (if old(self).has(edge.source, edge.target) { old(self).annos.view().insert((edge, anno.key), anno.val) } else { old(self).annos.view() }),
//@at fn_start
    let ghost s0 = *self;
    proof { assert(edge == crate::edge(edge.source, edge.target)); }
//@at before_call Ok 0
    proof { lemma_keep(s0, *self); }
//@end
//@fn src=core/src/graph/storage/disk_adjacency.rs item="WriteableGraphStorage for DiskAdjacencyListStorage::delete_edge"
//@spec
    requires old(self).wf(),
    ensures
        ret.is_ok() ==> final(self).wf(),
        ret.is_ok() ==> forall|s: NodeID, t: NodeID| #![trigger final(self).has(s, t)] final(self).has(s, t) <==> old(self).has(s, t) && !(s == edge.source && t == edge.target),
        ret.is_ok() ==> final(self).annos.view() == without(old(self).annos.view(), *edge),
//@at fn_start
    let ghost s0 = *self;
    proof { assert(*edge == crate::edge(edge.source, edge.target)); }
//@at before_call Ok 0
    proof { lemma_keep(s0, *self);
        assert forall|s: NodeID, t: NodeID| #![trigger self.has(s, t)] self.has(s, t) <==> s0.has(s, t) && !(s == edge.source && t == edge.target) by { }
        assert forall|x: Edge, k: AnnoKey| #![trigger self.annos.view().dom().contains((x, k))] self.annos.view().dom().contains((x, k)) implies self.has(x.source, x.target) by {
            assert(s0.annos.view().dom().contains((x, k)));
            assert(s0.has(x.source, x.target));
            assert(x == crate::edge(x.source, x.target));
        }
    }
//@end
//@fn src=core/src/graph/storage/disk_adjacency.rs item="WriteableGraphStorage for DiskAdjacencyListStorage::delete_edge_annotation"
//@spec
    requires old(self).wf(),
    ensures
        ret.is_ok() ==> final(self).wf(),
        forall|s: NodeID, t: NodeID| #![trigger final(self).has(s, t)] final(self).has(s, t) <==> old(self).has(s, t),
        ret.is_ok() ==> final(self).annos.view() == old(self).annos.view().remove((*edge, *anno_key)),
//@at fn_start
    let ghost s0 = *self;
//@at before_call Ok 0
    proof { lemma_keep(s0, *self); }
//@end
//@fn src=core/src/graph/storage/disk_adjacency.rs item="WriteableGraphStorage for DiskAdjacencyListStorage::delete_node"
//@rewrite std::collections::LinkedList::<Edge>::new\(\) => Vec::<Edge>::new()
//@rewrite \.push_back\( => .push(
//@spec
    requires old(self).wf(),
    ensures
        ret.is_ok() ==> final(self).wf(),
        ret.is_ok() ==> forall|s: NodeID, t: NodeID| #![trigger final(self).has(s, t)] final(self).has(s, t) <==> old(self).has(s, t) && s != node && t != node,
        ret.is_ok() ==> forall|e: Edge, k: AnnoKey| #![trigger final(self).annos.view().dom().contains((e, k))] final(self).annos.view().dom().contains((e, k)) <==> old(self).annos.view().dom().contains((e, k)) && e.source != node && e.target != node,
        ret.is_ok() ==> forall|e: Edge, k: AnnoKey| #![trigger final(self).annos.view()[(e, k)]] final(self).annos.view().dom().contains((e, k)) ==> final(self).annos.view()[(e, k)] == old(self).annos.view()[(e, k)],
//@at fn_start
    let ghost s0 = *self;
//@forname 0 it
//@loop 0
    invariant
        *self == s0,
        lists_all(it.seq(), |t: NodeID| s0.edges.view().contains(crate::edge(node, t))),
        forall|i: int| #![trigger it.seq()[i]] 0 <= i < it.index() ==> it.seq()[i] is Ok,
        forall|i: int| #![trigger to_delete@[i]] 0 <= i < to_delete@.len() ==> to_delete@[i].source == node,
        forall|i: int| #![trigger it.seq()[i]] 0 <= i < it.index() ==> to_delete@.contains(crate::edge(node, it.seq()[i]->Ok_0)),
//@at loop_start 0
    let ghost t0 = to_delete@;
//@at loop_end 0
    proof { lemma_pushed(t0, to_delete@); }
//@at after_loop 0
    let ghost d0 = to_delete@;
    proof {
        assert forall|t: NodeID| #![trigger s0.has(node, t)] s0.has(node, t) implies d0.contains(crate::edge(node, t)) by { let p = |t: NodeID| s0.edges.view().contains(crate::edge(node, t)); assert(p(t)); }
    }
//@forname 1 it
//@loop 1
    invariant
        *self == s0,
        lists_all(it.seq(), |t: NodeID| s0.inverse_edges.view().contains(crate::edge(node, t))),
        forall|i: int| #![trigger it.seq()[i]] 0 <= i < it.index() ==> it.seq()[i] is Ok,
        forall|i: int| #![trigger to_delete@[i]] 0 <= i < to_delete@.len() ==> to_delete@[i].source == node || to_delete@[i].target == node,
        forall|i: int| #![trigger it.seq()[i]] 0 <= i < it.index() ==> to_delete@.contains(crate::edge(it.seq()[i]->Ok_0, node)),
        forall|t: NodeID| #![trigger s0.has(node, t)] s0.has(node, t) ==> to_delete@.contains(crate::edge(node, t)),
//@at loop_start 1
    let ghost t0 = to_delete@;
//@at loop_end 1
    proof { lemma_pushed(t0, to_delete@); }
//@at before_loop 2
    let ghost del = to_delete@;
    proof {
        assert forall|s: NodeID, t: NodeID| #![trigger s0.has(s, t)] s0.has(s, t) && (s == node || t == node) implies del.contains(crate::edge(s, t)) by {
            if s != node { let p = |t: NodeID| s0.inverse_edges.view().contains(crate::edge(node, t)); assert(p(s)); }
        }
        assert forall|i: int| #![trigger del[i]] 0 <= i < del.len() implies del[i].source == node || del[i].target == node by { }
    }
//@forname 2 it
//@loop 2
    invariant
        self.wf(), it.seq() == del,
        forall|s: NodeID, t: NodeID| #![trigger self.has(s, t)] self.has(s, t) <==> s0.has(s, t) && !del.take(it.index()).contains(crate::edge(s, t)),
        forall|x: Edge, k: AnnoKey| #![trigger self.annos.view().dom().contains((x, k))] self.annos.view().dom().contains((x, k)) <==> s0.annos.view().dom().contains((x, k)) && !del.take(it.index()).contains(x),
        forall|x: Edge, k: AnnoKey| #![trigger self.annos.view()[(x, k)]] self.annos.view().dom().contains((x, k)) ==> self.annos.view()[(x, k)] == s0.annos.view()[(x, k)],
//@at loop_start 2
    let ghost i0 = it.index();
//@at loop_end 2
    proof {
        assert(del.take(i0 + 1) =~= del.take(i0).push(e));
        assert forall|x: Edge| #![trigger del.take(i0 + 1).contains(x)] del.take(i0 + 1).contains(x) <==> del.take(i0).contains(x) || x == e by {
            let p = del.take(i0); let q = p.push(e);
            if p.contains(x) { let j = choose|j: int| 0 <= j < p.len() && p[j] == x; assert(q[j] == x); }
            if x == e { assert(q[p.len() as int] == x); }
        }
    }
//@at after_loop 2
    proof {
        assert(del.take(del.len() as int) =~= del);
        assert forall|x: Edge, k: AnnoKey| #![trigger self.annos.view().dom().contains((x, k))] self.annos.view().dom().contains((x, k)) <==> s0.annos.view().dom().contains((x, k)) && x.source != node && x.target != node by {
            if s0.annos.view().dom().contains((x, k)) { assert(s0.has(x.source, x.target)); assert(crate::edge(x.source, x.target) == x); }
        }
    }
//@end
}
/// whatever was pushed last, the earlier entries are still there
proof fn lemma_pushed(v: Seq<Edge>, w: Seq<Edge>)
    requires w.len() > 0, w == v.push(w.last()),
    ensures w.contains(w.last()), forall|x: Edge| #![trigger w.contains(x)] v.contains(x) ==> w.contains(x),
{
    assert(w[w.len() - 1] == w.last());
    assert forall|x: Edge| #![trigger w.contains(x)] v.contains(x) implies w.contains(x) by { let i = choose|i: int| 0 <= i < v.len() && v[i] == x; assert(w[i] == x); }
}
proof fn lemma_keep(a: DiskAdjacencyListStorage, b: DiskAdjacencyListStorage)
    requires a.wf(),
    ensures
        forall|s: NodeID| !#[trigger] a.has(s, s),
        b.edges == a.edges && b.inverse_edges == a.inverse_edges
        && (forall|x: Edge, k: AnnoKey| #![trigger b.annos.view().dom().contains((x, k))] b.annos.view().dom().contains((x, k)) ==> a.annos.view().dom().contains((x, k)) || a.has(x.source, x.target)) ==> b.wf(),
{
    if b.edges == a.edges && b.inverse_edges == a.inverse_edges
        && (forall|x: Edge, k: AnnoKey| #![trigger b.annos.view().dom().contains((x, k))] b.annos.view().dom().contains((x, k)) ==> a.annos.view().dom().contains((x, k)) || a.has(x.source, x.target)) {
        assert forall|s: NodeID| !#[trigger] b.has(s, s) by { assert(!a.has(s, s)); }
        assert forall|e: Edge, k: AnnoKey| #![trigger b.annos.view().dom().contains((e, k))] b.annos.view().dom().contains((e, k)) implies b.has(e.source, e.target) by {
            assert(a.has(e.source, e.target));
        }
    }
}
fn main() {}
} // verus!
