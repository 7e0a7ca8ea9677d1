// Verus unit: writable adjacency list storages (in memory and on disk)
#![allow(unused)]
use vstd::prelude::*;
verus! {
//@include graphlib.inc

// ---- data types -------------------------------------------------------------------------------
//@item src=core/src/types.rs item="struct AnnoKey"
//@item src=core/src/types.rs item="struct Annotation"
//@item src=core/src/types.rs item="struct Edge"
impl Clone for Edge { fn clone(&self) -> (r: Edge) ensures r == *self { Edge { source: self.source, target: self.target } } }
impl Edge {
//@fn src=core/src/types.rs item=Edge::inverse
//@spec
    ensures ret.source == self.target, ret.target == self.source,
//@end
}
#[verifier::external_body]
pub struct GraphStatistic { x: u8 }

// ---- contracts assumed for dependencies ---------------------------------------------------------
/// std HashMap
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { x: std::collections::HashMap<K, V> }
impl<K, V> HashMap<K, Vec<V>> {
    pub uninterp spec fn view(&self) -> Map<K, Seq<V>>;
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r.view() == Map::<K, Seq<V>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self).view() == Map::<K, Seq<V>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&Vec<V>>)
        ensures r is None <==> !self.view().dom().contains(*k), r matches Some(v) ==> v@ == self.view()[*k],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut Vec<V>>)
        ensures
            r is None <==> !old(self).view().dom().contains(*k),
            r is None ==> final(self).view() == old(self).view(),
            r matches Some(v) ==> v@ == old(self).view()[*k] && final(self).view() == old(self).view().insert(*k, final(v)@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn entry_or_default(&mut self, k: K) -> (r: &mut Vec<V>)
        ensures
            r@ == (if old(self).view().dom().contains(k) { old(self).view()[k] } else { Seq::<V>::empty() }),
            final(self).view() == old(self).view().insert(k, final(r)@),
    { unimplemented!() }
}
/// slice::binary_search on a sorted list
#[verifier::external_body]
pub fn vec_binary_search(v: &Vec<NodeID>, x: &NodeID) -> (r: std::result::Result<usize, usize>)
    requires strictly_sorted(v@),
    ensures
        r matches Ok(i) ==> i < v@.len() && v@[i as int] == *x,
        r matches Err(i) ==> i <= v@.len() && (forall|j: int| 0 <= j < i ==> v@[j] < *x) && (forall|j: int| i <= j < v@.len() ==> v@[j] > *x),
{ v.binary_search(x) }
pub fn vec_contains(v: &Vec<NodeID>, x: &NodeID) -> (r: bool) ensures r == v@.contains(*x) {
    let mut i = 0;
    while i < v.len() invariant i <= v.len(), forall|j: int| 0 <= j < i ==> v@[j] != *x, decreases v.len() - i {
        if v[i] == *x { assert(v@[i as int] == *x); return true; }
        i = i + 1;
    }
    false
}
pub type AnnoMap = Map<(Edge, AnnoKey), String>;
/// the annotation storages (their own contracts are the subject of P06 and P07)
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct AnnoStorageImpl<T> { x: T }
impl AnnoStorageImpl<Edge> {
    pub uninterp spec fn view(&self) -> AnnoMap;
    #[verifier::external_body]
    pub fn insert(&mut self, item: Edge, anno: Annotation) -> (r: Result<()>)
        ensures r.is_ok() ==> final(self).view() == old(self).view().insert((item, anno.key), anno.val),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_item(&mut self, item: &Edge) -> (r: Result<bool>)
        ensures r.is_ok() ==> final(self).view() == without(old(self).view(), *item),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_annotation_for_item(&mut self, item: &Edge, key: &AnnoKey) -> (r: Result<Option<String>>)
        ensures r.is_ok() ==> final(self).view() == old(self).view().remove((*item, *key)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) -> (r: Result<()>) ensures r.is_ok() ==> final(self).view() == AnnoMap::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn calculate_statistics(&mut self) -> (r: Result<()>) ensures final(self).view() == old(self).view() { unimplemented!() }
}
pub open spec fn without(m: AnnoMap, e: Edge) -> AnnoMap { m.restrict(m.dom().filter(|k: (Edge, AnnoKey)| k.0 != e)) }

/// the read access to another storage which is copied
pub trait EdgeAnnotationStorage {
    spec fn annos(&self) -> AnnoMap;
    fn get_annotations_for_item(&self, item: &Edge) -> (r: Result<Vec<Annotation>>)
        ensures r matches Ok(v) ==> lists_annos(v@, self.annos(), *item);
}
pub open spec fn lists_annos(v: Seq<Annotation>, m: AnnoMap, e: Edge) -> bool {
    &&& forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> m.dom().contains((e, v[i].key)) && m[(e, v[i].key)] == v[i].val
    &&& forall|k: AnnoKey| #![trigger m.dom().contains((e, k))] m.dom().contains((e, k)) ==> exists|i: int| #![trigger v[i]] 0 <= i < v.len() && v[i].key == k
}
pub trait NodeAnnotationStorage { }
/// n is one of the first k listed nodes
pub open spec fn among(r: Seq<Result<NodeID>>, k: int, n: NodeID) -> bool { exists|i: int| #![trigger r[i]] 0 <= i < k && i < r.len() && r[i] == Ok::<NodeID, GraphAnnisCoreError>(n) }
pub trait GraphStorage {
    spec fn out_seq(&self, n: NodeID) -> Seq<NodeID>;
    fn get_outgoing_edges(&self, node: NodeID) -> (r: Vec<Result<NodeID>>)
        ensures lists(r@, self.out_seq(node));
    spec fn edge_annos(&self) -> AnnoMap;
    fn get_anno_storage(&self) -> (r: &dyn EdgeAnnotationStorage) ensures r.annos() == self.edge_annos();
    fn source_nodes(&self) -> (r: Vec<Result<NodeID>>)
        ensures
            forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> (r@[i] matches Ok(x) ==> self.out_seq(x).len() > 0),
            (forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> r@[i] is Ok) ==> forall|n: NodeID| #![trigger self.out_seq(n)] self.out_seq(n).len() > 0 ==> among(r@, r@.len() as int, n);
    fn get_statistics(&self) -> Option<&GraphStatistic>;
}
#[verifier::external_body]
pub fn stats_cloned(s: Option<&GraphStatistic>) -> (r: Option<GraphStatistic>) ensures r is Some <==> s is Some { unimplemented!() }

// ---- specification ----------------------------------------------------------------------------
pub open spec fn strictly_sorted(s: Seq<NodeID>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> s[i] < s[j] }
pub open spec fn list(m: Map<NodeID, Seq<NodeID>>, n: NodeID) -> Seq<NodeID> { if m.dom().contains(n) { m[n] } else { Seq::empty() } }
pub open spec fn edge(s: NodeID, t: NodeID) -> Edge { Edge { source: s, target: t } }

//@item src=core/src/graph/storage/adjacencylist.rs item="struct AdjacencyListStorage"
//@rewrite (?m)^    (\w+): => pub $1:

//@inlined new
impl AdjacencyListStorage {
    /// the edges listed at their sources
    pub open spec fn has(&self, s: NodeID, t: NodeID) -> bool { list(self.edges.view(), s).contains(t) }
    pub open spec fn wf(&self) -> bool {
        &&& forall|n: NodeID| #![trigger list(self.edges.view(), n)] strictly_sorted(list(self.edges.view(), n))
        &&& forall|n: NodeID| #![trigger list(self.inverse_edges.view(), n)] strictly_sorted(list(self.inverse_edges.view(), n))
        &&& forall|s: NodeID, t: NodeID| #![trigger list(self.edges.view(), s).contains(t)] #![trigger list(self.inverse_edges.view(), t).contains(s)]
            list(self.edges.view(), s).contains(t) <==> list(self.inverse_edges.view(), t).contains(s)
        &&& forall|s: NodeID| !#[trigger] self.has(s, s)
        &&& forall|e: Edge, k: AnnoKey| #![trigger self.annos.view().dom().contains((e, k))] self.annos.view().dom().contains((e, k)) ==> self.has(e.source, e.target)
    }
}
proof fn lemma_insert_sorted(s: Seq<NodeID>, i: int, x: NodeID)
    requires strictly_sorted(s), 0 <= i <= s.len(), forall|j: int| 0 <= j < i ==> s[j] < x, forall|j: int| i <= j < s.len() ==> s[j] > x,
    ensures strictly_sorted(s.insert(i, x)), forall|y: NodeID| #![trigger s.insert(i, x).contains(y)] s.insert(i, x).contains(y) <==> s.contains(y) || y == x,
        !s.contains(x),
{
    let t = s.insert(i, x);
    assert forall|y: NodeID| #![trigger t.contains(y)] t.contains(y) <==> s.contains(y) || y == x by {
        if s.contains(y) { let j = choose|j: int| 0 <= j < s.len() && s[j] == y; if j < i { assert(t[j] == y); } else { assert(t[j + 1] == y); } }
        if y == x { assert(t[i] == x); }
        if t.contains(y) { let j = choose|j: int| 0 <= j < t.len() && t[j] == y; if j < i { assert(s[j] == y); } else if j > i { assert(s[j - 1] == y); } }
    }
}
proof fn lemma_remove_sorted(s: Seq<NodeID>, i: int)
    requires strictly_sorted(s), 0 <= i < s.len(),
    ensures strictly_sorted(s.remove(i)), forall|y: NodeID| #![trigger s.remove(i).contains(y)] s.remove(i).contains(y) <==> s.contains(y) && y != s[i],
{
    let t = s.remove(i);
    assert forall|y: NodeID| #![trigger t.contains(y)] t.contains(y) <==> s.contains(y) && y != s[i] by {
        if s.contains(y) && y != s[i] { let j = choose|j: int| 0 <= j < s.len() && s[j] == y; if j < i { assert(t[j] == y); } else { assert(t[j - 1] == y); } }
        if t.contains(y) { let j = choose|j: int| 0 <= j < t.len() && t[j] == y; if j < i { assert(s[j] == y); } else { assert(s[j + 1] == y); } }
    }
}

// ---- the code ---------------------------------------------------------------------------------
impl AdjacencyListStorage {
//@fn src=core/src/graph/storage/adjacencylist.rs item=AdjacencyListStorage::clear
//@spec
    ensures ret.is_ok() ==> final(self).wf() && (forall|s: NodeID, t: NodeID| !#[trigger] final(self).has(s, t)) && final(self).annos.view() == AnnoMap::empty() && final(self).stats is None,
//@end
//@fn src=core/src/graph/storage/adjacencylist.rs item="EdgeContainer for AdjacencyListStorage::has_outgoing_edges"
//@spec
    ensures ret matches Ok(b) ==> b == (exists|t: NodeID| #[trigger] self.has(node, t)),
//@at fn_start
    proof { let l = list(self.edges.view(), node); if l.len() > 0 { assert(l.contains(l[0])); assert(self.has(node, l[0])); } }
//@end
//@fn src=core/src/graph/storage/adjacencylist.rs item="WriteableGraphStorage for AdjacencyListStorage::add_edge"
//@rewrite \.entry\(([^()]*)\)\s*\.or_default\(\) => .entry_or_default($1)
//@rewrite (\w+)\.binary_search\( => vec_binary_search(&*$1, 
//@spec
    requires old(self).wf(),
    ensures
        ret.is_ok(),
        final(self).wf(),
        forall|s: NodeID, t: NodeID| #![trigger final(self).has(s, t)] final(self).has(s, t) <==> old(self).has(s, t) || (s == edge.source && t == edge.target && s != t),
        final(self).annos.view() == old(self).annos.view(),
        edge.source != edge.target ==> final(self).stats is None,
//@at fn_start
    let ghost s0 = *self;
    proof {
        assert(strictly_sorted(list(s0.edges.view(), edge.source)));
        assert(strictly_sorted(list(s0.inverse_edges.view(), edge.target)));
        lemma_insert_all();
    }
//@at before_call Ok 0
    proof {
        assert(!s0.has(edge.source, edge.source));
        lemma_add(s0, *self, edge);
    }
//@end
//@fn src=core/src/graph/storage/adjacencylist.rs item="WriteableGraphStorage for AdjacencyListStorage::add_edge_annotation"
//@rewrite (\w+)\.contains\(&edge\.target\) => vec_contains($1, &edge.target)
//@spec
    requires old(self).wf(),
    ensures
        ret.is_ok() ==> final(self).wf(),
        forall|s: NodeID, t: NodeID| #![trigger final(self).has(s, t)] final(self).has(s, t) <==> old(self).has(s, t),
        final(self).edges == old(self).edges, final(self).inverse_edges == old(self).inverse_edges, final(self).stats == old(self).stats,
        ret.is_ok() ==> final(self).annos.view() == (if old(self).has(edge.source, edge.target) { old(self).annos.view().insert((edge, anno.key), anno.val) } else { old(self).annos.view() }),
//@at fn_start
    let ghost s0 = *self;
//@at before_call Ok 0
    proof { lemma_same(s0, *self); }
//@end
//@fn src=core/src/graph/storage/adjacencylist.rs item="WriteableGraphStorage for AdjacencyListStorage::delete_edge"
//@rewrite (\w+)\.binary_search\( => vec_binary_search(&*$1, 
//@spec
    requires old(self).wf(),
    ensures
        ret.is_ok() ==> final(self).wf(),
        ret.is_ok() ==> forall|s: NodeID, t: NodeID| #![trigger final(self).has(s, t)] final(self).has(s, t) <==> old(self).has(s, t) && !(s == edge.source && t == edge.target),
        ret.is_ok() ==> final(self).annos.view() == without(old(self).annos.view(), *edge),
//@at fn_start
    let ghost s0 = *self;
    proof {
        assert(strictly_sorted(list(s0.edges.view(), edge.source)));
        assert(strictly_sorted(list(s0.inverse_edges.view(), edge.target)));
        lemma_remove_all();
    }
//@at before_call Ok 0
    proof { lemma_del(s0, *self, *edge); }
//@end
//@fn src=core/src/graph/storage/adjacencylist.rs item="WriteableGraphStorage for AdjacencyListStorage::delete_edge_annotation"
//@spec
    requires old(self).wf(),
    ensures
        ret.is_ok() ==> final(self).wf(),
        forall|s: NodeID, t: NodeID| #![trigger final(self).has(s, t)] final(self).has(s, t) <==> old(self).has(s, t),
        ret.is_ok() ==> final(self).annos.view() == old(self).annos.view().remove((*edge, *anno_key)),
//@at fn_start
    let ghost s0 = *self;
//@at before_call Ok 0
    proof { lemma_same(s0, *self); }
//@end
//@fn src=core/src/graph/storage/adjacencylist.rs item="WriteableGraphStorage for AdjacencyListStorage::delete_node"
//@rewrite std::collections::LinkedList::<Edge>::new\(\) => Vec::<Edge>::new()
//@rewrite \.push_back\( => .push(
//@spec
    requires old(self).wf(),
    ensures
        ret.is_ok() ==> final(self).wf(),
        ret.is_ok() ==> forall|s: NodeID, t: NodeID| #![trigger final(self).has(s, t)] final(self).has(s, t) <==> old(self).has(s, t) && s != node && t != node,
        ret.is_ok() ==> forall|e: Edge, k: AnnoKey| #![trigger final(self).annos.view().dom().contains((e, k))] final(self).annos.view().dom().contains((e, k)) <==> old(self).annos.view().dom().contains((e, k)) && e.source != node && e.target != node,
        ret.is_ok() ==> forall|e: Edge, k: AnnoKey| #![trigger final(self).annos.view()[(e, k)]] final(self).annos.view().dom().contains((e, k)) ==> final(self).annos.view()[(e, k)] == old(self).annos.view()[(e, k)],
//@at fn_start
    let ghost s0 = *self;
    let ghost out = list(self.edges.view(), node);
    let ghost inc = list(self.inverse_edges.view(), node);
//@forname 0 it
//@loop 0
    invariant
        *self == s0,
        it.seq().len() == out.len(), forall|i: int| #![trigger it.seq()[i]] 0 <= i < out.len() ==> *it.seq()[i] == out[i],
        to_delete@.len() == it.index(),
        forall|i: int| #![trigger to_delete@[i]] 0 <= i < it.index() ==> to_delete@[i] == crate::edge(node, out[i]),
//@forname 1 it
//@loop 1
    invariant
        *self == s0,
        it.seq().len() == inc.len(), forall|i: int| #![trigger it.seq()[i]] 0 <= i < inc.len() ==> *it.seq()[i] == inc[i],
        to_delete@.len() == out.len() + it.index(),
        forall|i: int| #![trigger to_delete@[i]] 0 <= i < out.len() ==> to_delete@[i] == crate::edge(node, out[i]),
        forall|i: int| #![trigger to_delete@[i]] out.len() <= i < out.len() + it.index() ==> to_delete@[i] == crate::edge(inc[i - out.len()], node),
//@at before_loop 2
    let ghost del = to_delete@;
    proof {
        assert(del.len() == out.len() + inc.len());
        assert forall|s: NodeID, t: NodeID| #![trigger s0.has(s, t)] s0.has(s, t) && (s == node || t == node) implies del.contains(crate::edge(s, t)) by {
            if s == node { let i = choose|i: int| 0 <= i < out.len() && out[i] == t; assert(del[i] == crate::edge(s, t)); }
            else { assert(inc.contains(s)); let i = choose|i: int| 0 <= i < inc.len() && inc[i] == s; assert(del[i + out.len()] == crate::edge(s, t)); }
        }
        assert forall|i: int| #![trigger del[i]] 0 <= i < del.len() implies del[i].source == node || del[i].target == node by { }
    }
//@forname 2 it
//@loop 2
    invariant
        self.wf(), it.seq() == del,
        forall|s: NodeID, t: NodeID| #![trigger self.has(s, t)] self.has(s, t) <==> s0.has(s, t) && !del.take(it.index()).contains(crate::edge(s, t)),
        forall|x: Edge, k: AnnoKey| #![trigger self.annos.view().dom().contains((x, k))] self.annos.view().dom().contains((x, k)) <==> s0.annos.view().dom().contains((x, k)) && !del.take(it.index()).contains(x),
        forall|x: Edge, k: AnnoKey| #![trigger self.annos.view()[(x, k)]] self.annos.view().dom().contains((x, k)) ==> self.annos.view()[(x, k)] == s0.annos.view()[(x, k)],
//@at loop_start 2
    let ghost i0 = it.index();
//@at loop_end 2
    proof {
        assert(del.take(i0 + 1) =~= del.take(i0).push(e));
        assert forall|x: Edge| #![trigger del.take(i0 + 1).contains(x)] del.take(i0 + 1).contains(x) <==> del.take(i0).contains(x) || x == e by {
            let p = del.take(i0); let q = p.push(e);
            if p.contains(x) { let j = choose|j: int| 0 <= j < p.len() && p[j] == x; assert(q[j] == x); }
            if x == e { assert(q[p.len() as int] == x); }
        }
    }
//@at after_loop 2
    proof {
        assert(del.take(del.len() as int) =~= del);
        assert forall|x: Edge, k: AnnoKey| #![trigger self.annos.view().dom().contains((x, k))] self.annos.view().dom().contains((x, k)) <==> s0.annos.view().dom().contains((x, k)) && x.source != node && x.target != node by {
            if s0.annos.view().dom().contains((x, k)) { assert(s0.has(x.source, x.target)); assert(crate::edge(x.source, x.target) == x); }
        }
    }
//@end
//@fn src=core/src/graph/storage/adjacencylist.rs item="GraphStorage for AdjacencyListStorage::copy"
//@rewrite orig\.get_statistics\(\)\.cloned\(\) => stats_cloned(orig.get_statistics())
//@spec
    requires source_ok(orig),
    ensures
        ret.is_ok() ==> final(self).wf(),
        ret.is_ok() ==> forall|s: NodeID, t: NodeID| #![trigger final(self).has(s, t)] final(self).has(s, t) <==> orig.out_seq(s).contains(t),
        ret.is_ok() ==> forall|s: NodeID, t: NodeID, k: AnnoKey| #![trigger final(self).annos.view().dom().contains((crate::edge(s, t), k))]
            (final(self).annos.view().dom().contains((crate::edge(s, t), k)) <==> orig.edge_annos().dom().contains((crate::edge(s, t), k)) && orig.out_seq(s).contains(t))
            && (final(self).annos.view().dom().contains((crate::edge(s, t), k)) ==> final(self).annos.view()[(crate::edge(s, t), k)] == orig.edge_annos()[(crate::edge(s, t), k)]),
//@forname 0 it
//@loop 0
    invariant
        self.wf(), source_ok(orig),
        forall|i: int| #![trigger it.seq()[i]] 0 <= i < it.index() ==> it.seq()[i] is Ok,
        forall|s: NodeID, t: NodeID| #![trigger self.has(s, t)] self.has(s, t) <==> orig.out_seq(s).contains(t) && among(it.seq(), it.index(), s),
        copied(self.annos.view(), orig.edge_annos(), *self),
//@at loop_start 0
    let ghost s0 = *self;
    let ghost i0 = it.index();
//@at loop_end 0
    proof {
        let o = orig.out_seq(source);
        assert(o.take(o.len() as int) =~= o);
        assert(it.seq()[i0] == Ok::<NodeID, GraphAnnisCoreError>(source));
        assert forall|n: NodeID| #![trigger among(it.seq(), i0 + 1, n)] among(it.seq(), i0 + 1, n) <==> among(it.seq(), i0, n) || n == source by { }
    }
//@forname 1 jt
//@loop 1
    invariant
        self.wf(), source_ok(orig), lists(jt.seq(), orig.out_seq(source)),
        forall|s: NodeID, t: NodeID| #![trigger self.has(s, t)] self.has(s, t) <==> s0.has(s, t) || (s == source && orig.out_seq(s).take(jt.index()).contains(t)),
        copied(self.annos.view(), orig.edge_annos(), *self),
//@at loop_start 1
    let ghost s1 = *self;
    let ghost j0 = jt.index();
//@at loop_end 1
    proof {
        let o = orig.out_seq(source);
        assert forall|s: NodeID, t: NodeID| #![trigger self.has(s, t)] self.has(s, t) <==> s1.has(s, t) || (s == source && t == target) by { assert(self.has(s, t) == s2.has(s, t)); }
        assert(o.take(j0 + 1) =~= o.take(j0).push(target));
        assert forall|x: NodeID| #![trigger o.take(j0 + 1).contains(x)] o.take(j0 + 1).contains(x) <==> o.take(j0).contains(x) || x == target by {
            let p = o.take(j0); let q = o.take(j0 + 1);
            if p.contains(x) { let j = choose|j: int| 0 <= j < p.len() && p[j] == x; assert(q[j] == x); }
            if x == target { assert(q[p.len() as int] == x); }
        }
    }
//@at before_call clone 0
    proof { let o = orig.out_seq(source); assert(o[j0] == target); assert(o.contains(target)); assert(!orig.out_seq(source).contains(source)); assert(target != source); }
//@at before_loop 2
    let ghost s2 = *self;
//@forname 2 kt
//@loop 2
    invariant
        self.wf(), self.edges == s2.edges, s2.has(source, target), e == crate::edge(source, target),
        lists_annos(kt.seq(), orig.edge_annos(), e),
        forall|x: Edge, k: AnnoKey| #![trigger self.annos.view().dom().contains((x, k))] self.annos.view().dom().contains((x, k)) <==> s2.annos.view().dom().contains((x, k)) || (x == e && exists|i: int| #![trigger kt.seq()[i]] 0 <= i < kt.index() && kt.seq()[i].key == k),
        forall|x: Edge, k: AnnoKey| #![trigger self.annos.view().dom().contains((x, k))] self.annos.view().dom().contains((x, k)) ==> orig.edge_annos().dom().contains((x, k)) && self.annos.view()[(x, k)] == orig.edge_annos()[(x, k)],
//@at after_loop 0
    proof {
        assert forall|s: NodeID, t: NodeID| #![trigger self.has(s, t)] self.has(s, t) <==> orig.out_seq(s).contains(t) by {
            if orig.out_seq(s).contains(t) { assert(orig.out_seq(s).len() > 0); }
        }
    }
//@at before_call get_statistics 0
    let ghost s9 = *self;
//@at before_call Ok 0
    proof { lemma_same(s9, *self); assert forall|s: NodeID, t: NodeID| #![trigger self.has(s, t)] self.has(s, t) <==> orig.out_seq(s).contains(t) by { assert(self.has(s, t) == s9.has(s, t)); } }
//@end
}
/// the storage which is copied lists edges of other nodes only
pub open spec fn source_ok(o: &dyn GraphStorage) -> bool { forall|s: NodeID| !#[trigger] o.out_seq(s).contains(s) }
/// all annotations of the edges held so far, and only those
pub open spec fn copied(m: AnnoMap, o: AnnoMap, g: AdjacencyListStorage) -> bool {
    &&& forall|x: Edge, k: AnnoKey| #![trigger m.dom().contains((x, k))] m.dom().contains((x, k)) ==> o.dom().contains((x, k)) && m[(x, k)] == o[(x, k)]
    &&& forall|x: Edge, k: AnnoKey| #![trigger o.dom().contains((x, k))] o.dom().contains((x, k)) && g.has(x.source, x.target) ==> m.dom().contains((x, k))
}
proof fn lemma_same(a: AdjacencyListStorage, b: AdjacencyListStorage)
    requires a.wf(), a.edges == b.edges, a.inverse_edges == b.inverse_edges,
        forall|x: Edge, k: AnnoKey| #![trigger b.annos.view().dom().contains((x, k))] b.annos.view().dom().contains((x, k)) ==> a.annos.view().dom().contains((x, k)) || a.has(x.source, x.target),
    ensures b.wf(),
{
    assert forall|s: NodeID| !#[trigger] b.has(s, s) by { assert(!a.has(s, s)); }
    assert forall|e: Edge, k: AnnoKey| #![trigger b.annos.view().dom().contains((e, k))] b.annos.view().dom().contains((e, k)) implies b.has(e.source, e.target) by {
        assert(a.has(e.source, e.target));
    }
}
proof fn lemma_insert_all()
    ensures forall|s: Seq<NodeID>, i: int, x: NodeID| #![trigger s.insert(i, x)] strictly_sorted(s) && 0 <= i <= s.len() && (forall|j: int| 0 <= j < i ==> s[j] < x) && (forall|j: int| i <= j < s.len() ==> s[j] > x)
        ==> strictly_sorted(s.insert(i, x)) && !s.contains(x) && forall|y: NodeID| #![trigger s.insert(i, x).contains(y)] s.insert(i, x).contains(y) <==> s.contains(y) || y == x,
{
    assert forall|s: Seq<NodeID>, i: int, x: NodeID| #![trigger s.insert(i, x)] strictly_sorted(s) && 0 <= i <= s.len() && (forall|j: int| 0 <= j < i ==> s[j] < x) && (forall|j: int| i <= j < s.len() ==> s[j] > x)
        implies strictly_sorted(s.insert(i, x)) && !s.contains(x) && forall|y: NodeID| #![trigger s.insert(i, x).contains(y)] s.insert(i, x).contains(y) <==> s.contains(y) || y == x by { lemma_insert_sorted(s, i, x); }
}
proof fn lemma_remove_all()
    ensures forall|s: Seq<NodeID>, i: int| #![trigger s.remove(i)] strictly_sorted(s) && 0 <= i < s.len() ==> strictly_sorted(s.remove(i)) && forall|y: NodeID| #![trigger s.remove(i).contains(y)] s.remove(i).contains(y) <==> s.contains(y) && y != s[i],
{
    assert forall|s: Seq<NodeID>, i: int| #![trigger s.remove(i)] strictly_sorted(s) && 0 <= i < s.len() implies strictly_sorted(s.remove(i)) && forall|y: NodeID| #![trigger s.remove(i).contains(y)] s.remove(i).contains(y) <==> s.contains(y) && y != s[i] by { lemma_remove_sorted(s, i); }
}
/// both directions hold the additional edge, every other list is the old one
pub open spec fn plus(a: Map<NodeID, Seq<NodeID>>, b: Map<NodeID, Seq<NodeID>>, s: NodeID, t: NodeID) -> bool {
    &&& forall|n: NodeID| #![trigger list(b, n)] n != s ==> list(b, n) == list(a, n)
    &&& strictly_sorted(list(b, s))
    &&& forall|y: NodeID| #![trigger list(b, s).contains(y)] list(b, s).contains(y) <==> list(a, s).contains(y) || y == t
}
pub open spec fn minus(a: Map<NodeID, Seq<NodeID>>, b: Map<NodeID, Seq<NodeID>>, s: NodeID, t: NodeID) -> bool {
    &&& forall|n: NodeID| #![trigger list(b, n)] n != s ==> list(b, n) == list(a, n)
    &&& strictly_sorted(list(b, s))
    &&& forall|y: NodeID| #![trigger list(b, s).contains(y)] list(b, s).contains(y) <==> list(a, s).contains(y) && y != t
}
proof fn lemma_add(a: AdjacencyListStorage, b: AdjacencyListStorage, e: Edge)
    requires a.wf(), e.source != e.target ==> plus(a.edges.view(), b.edges.view(), e.source, e.target) && plus(a.inverse_edges.view(), b.inverse_edges.view(), e.target, e.source),
        e.source == e.target ==> a.edges.view() == b.edges.view() && a.inverse_edges.view() == b.inverse_edges.view(),
        a.annos.view() == b.annos.view(),
    ensures b.wf(),
        forall|s: NodeID, t: NodeID| #![trigger b.has(s, t)] b.has(s, t) <==> a.has(s, t) || (s == e.source && t == e.target && s != t),
{
    assert forall|n: NodeID| #![trigger list(b.edges.view(), n)] strictly_sorted(list(b.edges.view(), n)) by { assert(strictly_sorted(list(a.edges.view(), n))); }
    assert forall|n: NodeID| #![trigger list(b.inverse_edges.view(), n)] strictly_sorted(list(b.inverse_edges.view(), n)) by { assert(strictly_sorted(list(a.inverse_edges.view(), n))); }
    assert forall|s: NodeID, t: NodeID| #![trigger b.has(s, t)] b.has(s, t) <==> a.has(s, t) || (s == e.source && t == e.target && s != t) by { assert(!a.has(s, s)); }
    assert forall|s: NodeID| !#[trigger] b.has(s, s) by { assert(!a.has(s, s)); }
    assert forall|s: NodeID, t: NodeID| #![trigger list(b.edges.view(), s).contains(t)] #![trigger list(b.inverse_edges.view(), t).contains(s)]
            list(b.edges.view(), s).contains(t) <==> list(b.inverse_edges.view(), t).contains(s) by {
        assert(list(a.edges.view(), s).contains(t) <==> list(a.inverse_edges.view(), t).contains(s));
    }
}
proof fn lemma_del(a: AdjacencyListStorage, b: AdjacencyListStorage, e: Edge)
    requires a.wf(), minus(a.edges.view(), b.edges.view(), e.source, e.target), minus(a.inverse_edges.view(), b.inverse_edges.view(), e.target, e.source),
        b.annos.view() == without(a.annos.view(), e),
    ensures b.wf(),
        forall|s: NodeID, t: NodeID| #![trigger b.has(s, t)] b.has(s, t) <==> a.has(s, t) && !(s == e.source && t == e.target),
{
    assert forall|n: NodeID| #![trigger list(b.edges.view(), n)] strictly_sorted(list(b.edges.view(), n)) by { assert(strictly_sorted(list(a.edges.view(), n))); }
    assert forall|n: NodeID| #![trigger list(b.inverse_edges.view(), n)] strictly_sorted(list(b.inverse_edges.view(), n)) by { assert(strictly_sorted(list(a.inverse_edges.view(), n))); }
    assert forall|s: NodeID, t: NodeID| #![trigger b.has(s, t)] b.has(s, t) <==> a.has(s, t) && !(s == e.source && t == e.target) by { }
    assert forall|s: NodeID| !#[trigger] b.has(s, s) by { assert(!a.has(s, s)); }
    assert forall|s: NodeID, t: NodeID| #![trigger list(b.edges.view(), s).contains(t)] #![trigger list(b.inverse_edges.view(), t).contains(s)]
            list(b.edges.view(), s).contains(t) <==> list(b.inverse_edges.view(), t).contains(s) by {
        assert(list(a.edges.view(), s).contains(t) <==> list(a.inverse_edges.view(), t).contains(s));
    }
    assert forall|x: Edge, k: AnnoKey| #![trigger b.annos.view().dom().contains((x, k))] b.annos.view().dom().contains((x, k)) implies b.has(x.source, x.target) by {
        assert(a.annos.view().dom().contains((x, k)));
        assert(x != e);
    }
}
fn main() {}
} // verus!
