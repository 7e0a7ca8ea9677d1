// Verus unit: the statistics of both writable storages are truthful
#![allow(unused)]
use vstd::prelude::*;
use std::ops::Bound;
verus! {
global size_of usize == 8;
//@include graphlib.inc
//@include dfslib.inc
//@item src=core/src/graph/storage/mod.rs item="struct GraphStatistic"

// ---- specification ------------------------------------------------------------------------------
pub type Pair = (NodeID, NodeID);
pub open spec fn is_edge(c: &dyn EdgeContainer, a: NodeID, b: NodeID) -> bool { c.out_seq(a).contains(b) }
pub open spec fn on_edge(c: &dyn EdgeContainer, n: NodeID) -> bool { exists|m: NodeID| #![trigger is_edge(c, n, m)] #![trigger is_edge(c, m, n)] is_edge(c, n, m) || is_edge(c, m, n) }
pub open spec fn has_in(c: &dyn EdgeContainer, n: NodeID) -> bool { exists|m: NodeID| #[trigger] is_edge(c, m, n) }
pub open spec fn has_out(c: &dyn EdgeContainer, n: NodeID) -> bool { exists|m: NodeID| #[trigger] is_edge(c, n, m) }
pub open spec fn is_root(c: &dyn EdgeContainer, n: NodeID) -> bool { has_out(c, n) && !has_in(c, n) }
/// the component contains a cycle: a walk from a node to itself
pub open spec fn cyclic(c: &dyn EdgeContainer) -> bool { exists|p: Seq<NodeID>| closed_walk(c, p) }
pub open spec fn closed_walk(c: &dyn EdgeContainer, p: Seq<NodeID>) -> bool { walk(c, false, p) && p.len() >= 2 && p[0] == p.last() }
/// no node has two ingoing edges
pub open spec fn single_parents(c: &dyn EdgeContainer) -> bool {
    forall|a: NodeID, b: NodeID, t: NodeID| #![trigger is_edge(c, a, t), is_edge(c, b, t)] is_edge(c, a, t) && is_edge(c, b, t) ==> a == b
}
pub open spec fn node_set(c: &dyn EdgeContainer, s: Set<NodeID>) -> bool { forall|n: NodeID| #![trigger s.contains(n)] s.contains(n) <==> on_edge(c, n) }
pub open spec fn root_set(c: &dyn EdgeContainer, s: Set<NodeID>) -> bool { forall|n: NodeID| #![trigger s.contains(n)] s.contains(n) <==> is_root(c, n) }
pub open spec fn reached(c: &dyn EdgeContainer, p: Seq<NodeID>, n: NodeID) -> bool { walk(c, false, p) && is_root(c, p[0]) && p.last() == n }
/// what the statistics of a component say about its edges
pub open spec fn truthful(s: &GraphStatistic, c: &dyn EdgeContainer) -> bool {
    &&& exists|ns: Set<NodeID>| node_set(c, ns) && s.nodes == ns.len()
    &&& exists|rs: Set<NodeID>| root_set(c, rs) && s.root_nodes == rs.len()
    &&& s.cyclic == cyclic(c)
    &&& s.rooted_tree == (!cyclic(c) && single_parents(c))
    &&& largest_degree(c, s.max_fan_out as int)
    &&& !cyclic(c) ==> longest_walk(c, s.max_depth as int)
    &&& cyclic(c) ==> s.max_depth == 0
}
/// m is the largest number of outgoing edges of a node
pub open spec fn largest_degree(c: &dyn EdgeContainer, m: int) -> bool {
    &&& forall|n: NodeID| #![trigger c.out_seq(n)] c.out_seq(n).len() <= m
    &&& m == 0 || exists|n: NodeID| #![trigger c.out_seq(n)] c.out_seq(n).len() == m
}
/// m is the length of the longest walk (one for a component without edges)
pub open spec fn longest_walk(c: &dyn EdgeContainer, m: int) -> bool {
    &&& forall|p: Seq<NodeID>| #![trigger walk(c, false, p)] walk(c, false, p) ==> p.len() - 1 <= m
    &&& m == 1 || exists|p: Seq<NodeID>| #![trigger walk(c, false, p)] walk(c, false, p) && p.len() - 1 == m
}

// ---- walks --------------------------------------------------------------------------------------
proof fn lemma_sub_walk(c: &dyn EdgeContainer, q: Seq<NodeID>, i: int, j: int)
    requires walk(c, false, q), 0 <= i < j <= q.len(),
    ensures walk(c, false, q.subrange(i, j)),
{
    let p = q.subrange(i, j);
    assert forall|k: int| #![trigger p[k + 1]] 0 <= k < p.len() - 1 implies nexts(c, false, p[k]).contains(p[k + 1]) by { assert(q[i + k + 1] == p[k + 1]); assert(nexts(c, false, q[i + k]).contains(q[(i + k) + 1])); }
}
proof fn lemma_join(c: &dyn EdgeContainer, p: Seq<NodeID>, q: Seq<NodeID>)
    requires walk(c, false, p), walk(c, false, q), p.last() == q[0],
    ensures walk(c, false, p + q.skip(1)), (p + q.skip(1)).last() == q.last(), (p + q.skip(1))[0] == p[0], (p + q.skip(1)).len() == p.len() + q.len() - 1,
        forall|i: int| 0 <= i < q.len() ==> (p + q.skip(1))[p.len() - 1 + i] == #[trigger] q[i],
{
    let r = p + q.skip(1);
    assert forall|k: int| #![trigger r[k + 1]] 0 <= k < r.len() - 1 implies nexts(c, false, r[k]).contains(r[k + 1]) by {
        if k + 1 < p.len() { assert(p[k + 1] == r[k + 1]); } else {
            let j = k + 1 - p.len();
            assert(r[k + 1] == q[j + 1]);
            assert(r[k] == q[j]);
        }
    }
}
proof fn lemma_twice_is_cycle(c: &dyn EdgeContainer, q: Seq<NodeID>)
    requires walk(c, false, q), !q.no_duplicates(),
    ensures cyclic(c),
{
    let (i, j) = choose|i: int, j: int| 0 <= i < q.len() && 0 <= j < q.len() && i != j && q[i] == q[j];
    let (i, j) = if i < j { (i, j) } else { (j, i) };
    lemma_sub_walk(c, q, i, j + 1);
    let p = q.subrange(i, j + 1);
    assert(p[0] == q[i] && p.last() == q[j]);
    assert(closed_walk(c, p));
}
proof fn lemma_cut(c: &dyn EdgeContainer, q: Seq<NodeID>) -> (r: Seq<NodeID>)
    requires walk(c, false, q), !q.no_duplicates(),
    ensures closes(c, false, r), r[0] == q[0],
    decreases q.len(),
{
    if q.drop_last().no_duplicates() { q } else {
        let h = q.drop_last();
        assert(h.len() > 0);
        assert(h =~= q.subrange(0, q.len() - 1));
        lemma_sub_walk(c, q, 0, q.len() - 1);
        lemma_cut(c, h)
    }
}
proof fn lemma_walk_nodes(c: &dyn EdgeContainer, ns: Set<NodeID>, p: Seq<NodeID>)
    requires walk(c, false, p), p.len() >= 2, node_set(c, ns),
    ensures forall|i: int| #![trigger p[i]] 0 <= i < p.len() ==> ns.contains(p[i]),
{
    assert forall|i: int| #![trigger p[i]] 0 <= i < p.len() implies ns.contains(p[i]) by {
        if i + 1 < p.len() { assert(nexts(c, false, p[i]).contains(p[i + 1])); assert(is_edge(c, p[i], p[i + 1])); } else { let k = i - 1; assert(nexts(c, false, p[k]).contains(p[k + 1])); assert(is_edge(c, p[k], p[k + 1])); }
    }
}
proof fn lemma_short(c: &dyn EdgeContainer, ns: Set<NodeID>, p: Seq<NodeID>)
    requires walk(c, false, p), p.len() >= 2, node_set(c, ns), p.no_duplicates(),
    ensures p.len() <= ns.len(),
{
    lemma_walk_nodes(c, ns, p);
    p.unique_seq_to_set();
    assert(p.to_set().subset_of(ns)) by {
        assert forall|x: NodeID| p.to_set().contains(x) implies ns.contains(x) by { let i = choose|i: int| 0 <= i < p.len() && p[i] == x; assert(ns.contains(p[i])); }
    }
    vstd::set_lib::lemma_len_subset(p.to_set(), ns);
}
/// a node that no root reaches is the end of arbitrarily long walks
proof fn lemma_back(c: &dyn EdgeContainer, n: NodeID, k: nat) -> (p: Seq<NodeID>)
    requires on_edge(c, n), forall|p: Seq<NodeID>| !reached(c, p, n), k > 0,
    ensures walk(c, false, p), p.last() == n, p.len() == k,
    decreases k,
{
    if k == 1 { seq![n] } else {
        let q = lemma_back(c, n, (k - 1) as nat);
        assert(!reached(c, q, n));
        let f = q[0];
        if q.len() >= 2 { assert(nexts(c, false, q[0]).contains(q[0int + 1])); assert(is_edge(c, f, q[1])); }
        assert(has_in(c, f)) by {
            if !has_in(c, f) {
                if q.len() == 1 { assert(f == n); let m = choose|m: NodeID| #![trigger is_edge(c, n, m)] #![trigger is_edge(c, m, n)] is_edge(c, n, m) || is_edge(c, m, n); }
                assert(has_out(c, f));
                assert(is_root(c, f));
            }
        }
        let m = choose|m: NodeID| #[trigger] is_edge(c, m, f);
        let p = seq![m] + q;
        assert forall|i: int| #![trigger p[i + 1]] 0 <= i < p.len() - 1 implies nexts(c, false, p[i]).contains(p[i + 1]) by {
            if i > 0 { let j = i - 1; assert(p[i + 1] == q[j + 1]); assert(p[i] == q[j]); } else { assert(p[1] == f); }
        }
        p
    }
}
proof fn lemma_unreached(c: &dyn EdgeContainer, ns: Set<NodeID>, n: NodeID)
    requires node_set(c, ns), on_edge(c, n), forall|p: Seq<NodeID>| !reached(c, p, n),
    ensures cyclic(c),
{
    let p = lemma_back(c, n, ns.len() + 2);
    if p.no_duplicates() { lemma_short(c, ns, p); }
    lemma_twice_is_cycle(c, p);
}

// ---- what the searches from the roots record ----------------------------------------------------
pub open spec fn noted(p: Seq<NodeID>, visited: Set<NodeID>, depth: int) -> bool { visited.contains(p.last()) && p.len() - 1 <= depth }
/// every path from this root is recorded
pub open spec fn searched(c: &dyn EdgeContainer, root: NodeID, visited: Set<NodeID>, depth: int, found: bool) -> bool {
    &&& forall|p: Seq<NodeID>| #![trigger walk(c, false, p)] walk(c, false, p) && p.no_duplicates() && p[0] == root && p.len() - 1 <= usize::MAX ==> noted(p, visited, depth)
    &&& forall|q: Seq<NodeID>| #![trigger closes(c, false, q)] closes(c, false, q) && q[0] == root && q.len() - 1 <= usize::MAX ==> found
}
pub open spec fn only_reached(c: &dyn EdgeContainer, visited: Set<NodeID>) -> bool { forall|x: NodeID| #![trigger visited.contains(x)] visited.contains(x) ==> exists|p: Seq<NodeID>| reached(c, p, x) }
pub open spec fn attained(c: &dyn EdgeContainer, depth: int) -> bool { depth == 1 || exists|p: Seq<NodeID>| #![trigger walk(c, false, p)] walk(c, false, p) && p.len() - 1 == depth }
proof fn lemma_complete(c: &dyn EdgeContainer, ns: Set<NodeID>, rs: Set<NodeID>, visited: Set<NodeID>, depth: int, found: bool)
    requires
        node_set(c, ns), root_set(c, rs), ns.len() <= usize::MAX, depth >= 1,
        forall|r: NodeID| #![trigger rs.contains(r)] rs.contains(r) ==> searched(c, r, visited, depth, found),
        only_reached(c, visited), attained(c, depth), found ==> cyclic(c),
    ensures
        cyclic(c) == (found || visited.len() < ns.len()),
        !cyclic(c) ==> longest_walk(c, depth),
{
    assert forall|x: NodeID| visited.contains(x) implies ns.contains(x) by {
        let p = choose|p: Seq<NodeID>| reached(c, p, x);
        if p.len() >= 2 { lemma_walk_nodes(c, ns, p); assert(ns.contains(p[p.len() - 1])); } else { assert(p[0] == x); let m = choose|m: NodeID| #[trigger] is_edge(c, x, m); }
    }
    assert(visited.subset_of(ns));
    vstd::set_lib::lemma_len_subset(visited, ns);
    if !cyclic(c) {
        assert forall|n: NodeID| ns.contains(n) implies visited.contains(n) && exists|p: Seq<NodeID>| reached(c, p, n) by {
            if forall|p: Seq<NodeID>| !reached(c, p, n) { lemma_unreached(c, ns, n); }
            let p = choose|p: Seq<NodeID>| reached(c, p, n);
            if !p.no_duplicates() { lemma_twice_is_cycle(c, p); }
            if p.len() >= 2 { lemma_short(c, ns, p); }
            assert(rs.contains(p[0]));
            assert(noted(p, visited, depth));
        }
        assert(ns =~= visited);
        assert forall|p: Seq<NodeID>| #![trigger walk(c, false, p)] walk(c, false, p) implies p.len() - 1 <= depth by {
            if p.len() >= 2 {
                lemma_walk_nodes(c, ns, p);
                let u = choose|u: Seq<NodeID>| reached(c, u, p[0]);
                lemma_join(c, u, p);
                let w = u + p.skip(1);
                if !w.no_duplicates() { lemma_twice_is_cycle(c, w); }
                lemma_short(c, ns, w);
                assert(rs.contains(w[0]));
                assert(noted(w, visited, depth));
            }
        }
    } else if visited.len() == ns.len() {
        vstd::set_lib::lemma_subset_equality(visited, ns);
        let w = choose|w: Seq<NodeID>| closed_walk(c, w);
        lemma_walk_nodes(c, ns, w);
        assert(visited.contains(w[0]));
        let u = choose|u: Seq<NodeID>| reached(c, u, w[0]);
        lemma_join(c, u, w);
        let q = u + w.skip(1);
        assert(q[u.len() - 1] == w[0]);
        assert(q[u.len() - 1 + (w.len() - 1)] == w[w.len() - 1]);
        assert(!q.no_duplicates());
        let r = lemma_cut(c, q);
        let h = r.drop_last();
        assert(h.len() >= 1);
        if h.len() >= 2 { assert(h =~= r.subrange(0, r.len() - 1)); lemma_sub_walk(c, r, 0, r.len() - 1); lemma_short(c, ns, h); }
        assert(rs.contains(r[0]));
        assert(found);
    }
}

// ---- reading all edges --------------------------------------------------------------------------
pub open spec fn is_src(ps: Seq<Pair>, n: NodeID) -> bool { exists|i: int| #![trigger ps[i]] 0 <= i < ps.len() && ps[i].0 == n }
pub open spec fn is_tgt(ps: Seq<Pair>, n: NodeID) -> bool { exists|i: int| #![trigger ps[i]] 0 <= i < ps.len() && ps[i].1 == n }
pub open spec fn once(ps: Seq<Pair>) -> bool { forall|i: int, j: int| #![trigger ps[i], ps[j]] 0 <= i < j < ps.len() ==> ps[i].1 != ps[j].1 }
/// what is known after reading these edges
pub open spec fn summary(ps: Seq<Pair>, roots: Set<NodeID>, all: Set<NodeID>, inc: Set<NodeID>, tree: bool) -> bool {
    &&& forall|n: NodeID| #![trigger roots.contains(n)] roots.contains(n) <==> is_src(ps, n)
    &&& forall|n: NodeID| #![trigger all.contains(n)] all.contains(n) <==> is_src(ps, n) || is_tgt(ps, n)
    &&& tree ==> forall|n: NodeID| #![trigger inc.contains(n)] inc.contains(n) <==> is_tgt(ps, n)
    &&& tree <==> once(ps)
}
proof fn lemma_summary(ps: Seq<Pair>, e: Pair, roots: Set<NodeID>, all: Set<NodeID>, inc: Set<NodeID>, tree: bool, inc2: Set<NodeID>, tree2: bool)
    requires summary(ps, roots, all, inc, tree),
        tree2 == (tree && !inc.contains(e.1)),
        tree2 ==> inc2 == inc.insert(e.1),
    ensures summary(ps.push(e), roots.insert(e.0), all.insert(e.0).insert(e.1), inc2, tree2),
{
    let qs = ps.push(e);
    assert(qs[ps.len() as int] == e);
    assert forall|i: int| 0 <= i < ps.len() implies #[trigger] qs[i] == ps[i] by { }
    assert forall|n: NodeID| is_src(qs, n) <==> is_src(ps, n) || n == e.0 by {
        if is_src(ps, n) { let i = choose|i: int| #![trigger ps[i]] 0 <= i < ps.len() && ps[i].0 == n; assert(qs[i].0 == n); }
        if is_src(qs, n) && n != e.0 { let i = choose|i: int| #![trigger qs[i]] 0 <= i < qs.len() && qs[i].0 == n; assert(ps[i].0 == n); }
    }
    assert forall|n: NodeID| is_tgt(qs, n) <==> is_tgt(ps, n) || n == e.1 by {
        if is_tgt(ps, n) { let i = choose|i: int| #![trigger ps[i]] 0 <= i < ps.len() && ps[i].1 == n; assert(qs[i].1 == n); }
        if is_tgt(qs, n) && n != e.1 { let i = choose|i: int| #![trigger qs[i]] 0 <= i < qs.len() && qs[i].1 == n; assert(ps[i].1 == n); }
    }
    if tree {
        if is_tgt(ps, e.1) { let i = choose|i: int| #![trigger ps[i]] 0 <= i < ps.len() && ps[i].1 == e.1; assert(qs[i].1 == qs[ps.len() as int].1); }
        else { assert(once(qs)) by { assert forall|i: int, j: int| #![trigger qs[i], qs[j]] 0 <= i < j < qs.len() implies qs[i].1 != qs[j].1 by { if j == ps.len() { assert(ps[i].1 != e.1); } else { assert(ps[i].1 != ps[j].1); } } } }
    } else {
        let (i, j) = choose|i: int, j: int| #![trigger ps[i], ps[j]] 0 <= i < j < ps.len() && ps[i].1 == ps[j].1;
        assert(qs[i].1 == qs[j].1);
    }
}
proof fn lemma_tgt_push(ps: Seq<Pair>, e: Pair)
    ensures forall|n: NodeID| #![trigger is_tgt(ps.push(e), n)] is_tgt(ps.push(e), n) <==> is_tgt(ps, n) || n == e.1,
{
    let qs = ps.push(e);
    assert(qs[ps.len() as int] == e);
    assert forall|n: NodeID| #![trigger is_tgt(qs, n)] is_tgt(qs, n) <==> is_tgt(ps, n) || n == e.1 by {
        if is_tgt(ps, n) { let i = choose|i: int| #![trigger ps[i]] 0 <= i < ps.len() && ps[i].1 == n; assert(qs[i].1 == n); }
        if is_tgt(qs, n) && n != e.1 { let i = choose|i: int| #![trigger qs[i]] 0 <= i < qs.len() && qs[i].1 == n; assert(ps[i].1 == n); }
    }
}
pub open spec fn all_edges(ps: Seq<Pair>, c: &dyn EdgeContainer) -> bool {
    &&& ps.no_duplicates()
    &&& forall|a: NodeID, b: NodeID| #![trigger is_edge(c, a, b)] #![trigger ps.contains((a, b))] ps.contains((a, b)) <==> is_edge(c, a, b)
}
proof fn lemma_ends(c: &dyn EdgeContainer, ps: Seq<Pair>)
    requires all_edges(ps, c),
    ensures
        forall|n: NodeID| #![trigger is_src(ps, n)] is_src(ps, n) <==> has_out(c, n),
        forall|n: NodeID| #![trigger is_tgt(ps, n)] is_tgt(ps, n) <==> has_in(c, n),
{
    assert forall|n: NodeID| #![trigger is_src(ps, n)] is_src(ps, n) <==> has_out(c, n) by {
        if is_src(ps, n) { let i = choose|i: int| #![trigger ps[i]] 0 <= i < ps.len() && ps[i].0 == n; assert(ps.contains((n, ps[i].1))); }
        if has_out(c, n) { let m = choose|m: NodeID| #[trigger] is_edge(c, n, m); assert(ps.contains((n, m))); let i = choose|i: int| 0 <= i < ps.len() && ps[i] == (n, m); assert(ps[i].0 == n); }
    }
    assert forall|n: NodeID| #![trigger is_tgt(ps, n)] is_tgt(ps, n) <==> has_in(c, n) by {
        if is_tgt(ps, n) { let i = choose|i: int| #![trigger ps[i]] 0 <= i < ps.len() && ps[i].1 == n; assert(ps.contains((ps[i].0, n))); }
        if has_in(c, n) { let m = choose|m: NodeID| #[trigger] is_edge(c, m, n); assert(ps.contains((m, n))); let i = choose|i: int| 0 <= i < ps.len() && ps[i] == (m, n); assert(ps[i].1 == n); }
    }
}
/// all edges have been read: the sets are the ones of the component
proof fn lemma_read(c: &dyn EdgeContainer, ps: Seq<Pair>, roots: Set<NodeID>, all: Set<NodeID>, inc: Set<NodeID>, tree: bool)
    requires summary(ps, roots, all, inc, tree), all_edges(ps, c),
    ensures
        node_set(c, all), tree == single_parents(c),
        forall|n: NodeID| #![trigger roots.contains(n)] roots.contains(n) <==> has_out(c, n),
        forall|n: NodeID| #![trigger is_tgt(ps, n)] is_tgt(ps, n) <==> has_in(c, n),
{
    lemma_ends(c, ps);
    assert forall|n: NodeID| on_edge(c, n) <==> has_in(c, n) || has_out(c, n) by { }
    if tree {
        assert forall|a: NodeID, b: NodeID, t: NodeID| #![trigger is_edge(c, a, t), is_edge(c, b, t)] is_edge(c, a, t) && is_edge(c, b, t) implies a == b by {
            assert(ps.contains((a, t)) && ps.contains((b, t)));
            let i = choose|i: int| 0 <= i < ps.len() && ps[i] == (a, t);
            let j = choose|j: int| 0 <= j < ps.len() && ps[j] == (b, t);
            if i < j { assert(ps[i].1 != ps[j].1); } else if j < i { assert(ps[j].1 != ps[i].1); }
        }
    } else {
        let (i, j) = choose|i: int, j: int| #![trigger ps[i], ps[j]] 0 <= i < j < ps.len() && ps[i].1 == ps[j].1;
        assert(ps.contains((ps[i].0, ps[i].1)) && ps.contains((ps[j].0, ps[i].1)));
        assert(is_edge(c, ps[i].0, ps[i].1) && is_edge(c, ps[j].0, ps[i].1));
        assert(ps[i] != ps[j]);
    }
}

// ---- contracts assumed for dependencies ---------------------------------------------------------
/// std BTreeSet of node IDs
#[verifier::external_body]
pub struct NodeIDSet { x: std::collections::BTreeSet<NodeID> }
impl NodeIDSet {
    pub uninterp spec fn view(&self) -> Set<NodeID>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.view() == Set::<NodeID>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, x: NodeID) -> (r: bool) ensures final(self).view() == old(self).view().insert(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, x: &NodeID) -> (r: bool) ensures final(self).view() == old(self).view().remove(*x) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, x: &NodeID) -> (r: bool) ensures r == self.view().contains(*x) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.view().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.view().len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn list(&self) -> (r: Vec<NodeID>) ensures forall|x: NodeID| #![trigger self.view().contains(x)] self.view().contains(x) <==> r@.contains(x) { unimplemented!() }
}
/// numbers of visits below 2^31 (i32 in the code)
#[verifier::external_body]
pub fn one_more(n: i32) -> i32 { n + 1 }
#[verifier::external_body]
pub fn visits_per_node(visits: i32, nodes: usize) -> f64 { f64::from(visits) / (nodes as f64) }
#[verifier::external_body]
pub fn average(sum: usize, nodes: usize) -> f64 { (sum as f64) / (nodes as f64) }
#[verifier::external_body]
pub fn sum_of(v: &Vec<usize>) -> usize { v.iter().sum() }
#[verifier::external_body]
pub fn sort_unstable(v: &mut Vec<usize>)
    ensures final(v)@.len() == old(v)@.len(), forall|i: int, j: int| 0 <= i <= j < final(v)@.len() ==> final(v)@[i] <= final(v)@[j],
        forall|x: usize| #![trigger old(v)@.contains(x)] #![trigger final(v)@.contains(x)] old(v)@.contains(x) <==> final(v)@.contains(x),
{ unimplemented!() }
pub fn last_of(v: &Vec<usize>) -> (r: Option<&usize>) ensures v@.len() == 0 ==> r is None, v@.len() > 0 ==> r == Some(&v@.last()) { if v.len() == 0 { None } else { Some(&v[v.len() - 1]) } }
pub fn larger(a: usize, b: usize) -> (r: usize) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct AnnoStorageImpl<T> { x: T }
//@item src=core/src/types.rs item="struct Edge"
impl AnnoStorageImpl<Edge> {
    #[verifier::external_body]
    pub fn calculate_statistics(&mut self) -> (r: Result<()>) { unimplemented!() }
}

// ---- the storage in memory ----------------------------------------------------------------------
pub mod mem {
use super::*;
/// std HashMap
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { x: std::collections::HashMap<K, V> }
impl HashMap<NodeID, Vec<NodeID>> {
    pub uninterp spec fn view(&self) -> Map<NodeID, Seq<NodeID>>;
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.view().dom().len() == 0) { unimplemented!() }
    /// the entries, each key once
    #[verifier::external_body]
    pub fn entries(&self) -> (r: Vec<(NodeID, &Vec<NodeID>)>) ensures lists_entries(r@, self.view()) { unimplemented!() }
    #[verifier::external_body]
    pub fn values(&self) -> (r: Vec<&Vec<NodeID>>) ensures exists|e: Seq<(NodeID, &Vec<NodeID>)>| values_of(e, r@, self.view()) { unimplemented!() }
}
pub open spec fn values_of(e: Seq<(NodeID, &Vec<NodeID>)>, r: Seq<&Vec<NodeID>>, m: Map<NodeID, Seq<NodeID>>) -> bool {
    lists_entries(e, m) && e.len() == r.len() && forall|i: int| #![trigger r[i]] 0 <= i < e.len() ==> r[i] == e[i].1
}
pub open spec fn lists_entries(r: Seq<(NodeID, &Vec<NodeID>)>, m: Map<NodeID, Seq<NodeID>>) -> bool {
    &&& forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> m.dom().contains(r[i].0) && m[r[i].0] == r[i].1@
    &&& forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i < j < r.len() ==> r[i].0 != r[j].0
    &&& forall|n: NodeID| #![trigger m.dom().contains(n)] m.dom().contains(n) ==> exists|i: int| #![trigger r[i]] 0 <= i < r.len() && r[i].0 == n
}
//@item src=core/src/graph/storage/adjacencylist.rs item="struct AdjacencyListStorage"
//@rewrite (?m)^    (pub )?(\w+): => pub ${2}:

pub open spec fn outs(m: Map<NodeID, Seq<NodeID>>, n: NodeID) -> Seq<NodeID> { if m.dom().contains(n) { m[n] } else { seq![] } }
/// this storage as the edge container the search reads (get_outgoing_edges: unit adjacency)
pub uninterp spec fn container<'a>(m: Map<NodeID, Seq<NodeID>>) -> &'a dyn EdgeContainer;
pub broadcast axiom fn axiom_container(m: Map<NodeID, Seq<NodeID>>, n: NodeID)
    ensures #[trigger] container(m).out_seq(n) == outs(m, n);
/// edges are stored once (kept by every operation: unit adjacency)
pub open spec fn wf(s: AdjacencyListStorage) -> bool { forall|n: NodeID| #![trigger s.edges.view()[n]] s.edges.view().dom().contains(n) ==> s.edges.view()[n].no_duplicates() }
pub open spec fn largest(v: Seq<usize>, m: Map<NodeID, Seq<NodeID>>) -> bool {
    &&& forall|n: NodeID| #![trigger m[n]] m.dom().contains(n) ==> v.len() > 0 && m[n].len() <= v.last()
    &&& v.len() > 0 ==> exists|n: NodeID| #![trigger m[n]] m.dom().contains(n) && m[n].len() == v.last()
}
/// the numbers are the ones of the entries
pub open spec fn lengths(f: Seq<usize>, m: Map<NodeID, Seq<NodeID>>) -> bool {
    &&& forall|n: NodeID| #![trigger m[n]] m.dom().contains(n) ==> exists|i: int| #![trigger f[i]] 0 <= i < f.len() && f[i] == m[n].len()
    &&& forall|x: usize| #![trigger f.contains(x)] f.contains(x) ==> exists|n: NodeID| #![trigger m[n]] m.dom().contains(n) && m[n].len() == x
}
proof fn lemma_lengths(e: Seq<(NodeID, &Vec<NodeID>)>, f: Seq<usize>, m: Map<NodeID, Seq<NodeID>>)
    requires lists_entries(e, m), f.len() == e.len(), forall|i: int| #![trigger f[i]] 0 <= i < f.len() ==> f[i] == e[i].1@.len(),
    ensures lengths(f, m),
{
    assert forall|n: NodeID| #![trigger m[n]] m.dom().contains(n) implies exists|i: int| #![trigger f[i]] 0 <= i < f.len() && f[i] == m[n].len() by {
        let i = choose|i: int| #![trigger e[i]] 0 <= i < e.len() && e[i].0 == n; assert(f[i] == m[n].len());
    }
    assert forall|x: usize| #![trigger f.contains(x)] f.contains(x) implies exists|n: NodeID| #![trigger m[n]] m.dom().contains(n) && m[n].len() == x by {
        let i = choose|i: int| 0 <= i < f.len() && f[i] == x; assert(f[i] == e[i].1@.len()); assert(m[e[i].0].len() == x);
    }
}
//@fn src=core/src/graph/storage/adjacencylist.rs item=get_fan_outs
//@rewrite fan_outs\.sort_unstable\(\) => sort_unstable(&mut fan_outs)
//@rewrite for outgoing in it: edges\.values\(\) => let vals = edges.values(); let ghost ents = choose|e: Seq<(NodeID, &Vec<NodeID>)>| values_of(e, vals@, edges.view()); for outgoing in it: vals
//@spec
    ensures largest(ret@, edges.view()),
//@forname 0 it
//@loop 0
    invariant it.seq() == vals@, values_of(ents, vals@, edges.view()),
        fan_outs@.len() == it.index(),
        forall|i: int| #![trigger fan_outs@[i]] 0 <= i < it.index() ==> fan_outs@[i] == ents[i].1@.len(),
//@at after_loop 0
    proof { lemma_lengths(ents, fan_outs@, edges.view()); }
//@at before_call sort_unstable 0
    let ghost f0 = fan_outs@;
    proof { if edges.view().dom().len() == 0 { assert(edges.view().dom() =~= Set::empty()); } }
//@at fn_end
    proof { if f0.len() > 0 { assert(fan_outs@.contains(fan_outs@.last())); }
        assert forall|n: NodeID| #![trigger edges.view()[n]] edges.view().dom().contains(n) implies fan_outs@.len() > 0 && edges.view()[n].len() <= fan_outs@.last() by {
            let i = choose|i: int| #![trigger f0[i]] 0 <= i < f0.len() && f0[i] == edges.view()[n].len();
            assert(f0.contains(f0[i])); assert(fan_outs@.contains(f0[i]));
        }
    }
//@end
pub open spec fn row(e: (NodeID, &Vec<NodeID>)) -> Seq<Pair> { Seq::new(e.1@.len(), |j: int| (e.0, e.1@[j])) }
/// the edges of the first k entries
pub open spec fn pairs_of(e: Seq<(NodeID, &Vec<NodeID>)>, k: int) -> Seq<Pair>
    decreases k,
{
    if k <= 0 { seq![] } else { pairs_of(e, k - 1) + row(e[k - 1]) }
}
proof fn lemma_pairs(e: Seq<(NodeID, &Vec<NodeID>)>, m: Map<NodeID, Seq<NodeID>>, k: int)
    requires lists_entries(e, m), 0 <= k <= e.len(), forall|n: NodeID| #![trigger m[n]] m.dom().contains(n) ==> m[n].no_duplicates(),
    ensures
        pairs_of(e, k).no_duplicates(),
        forall|a: NodeID, b: NodeID| #![trigger pairs_of(e, k).contains((a, b))] pairs_of(e, k).contains((a, b)) <==> exists|i: int| #![trigger e[i]] 0 <= i < k && e[i].0 == a && e[i].1@.contains(b),
    decreases k,
{
    if k > 0 {
        lemma_pairs(e, m, k - 1);
        let p = pairs_of(e, k - 1); let r = row(e[k - 1]); let q = pairs_of(e, k);
        assert(q =~= p + r);
        let l = e[k - 1].1@;
        assert(m[e[k - 1].0] == l && l.no_duplicates());
        assert forall|a: NodeID, b: NodeID| #![trigger q.contains((a, b))] q.contains((a, b)) <==> exists|i: int| #![trigger e[i]] 0 <= i < k && e[i].0 == a && e[i].1@.contains(b) by {
            if q.contains((a, b)) {
                let x = choose|x: int| 0 <= x < q.len() && q[x] == (a, b);
                if x < p.len() { assert(p[x] == (a, b)); assert(p.contains((a, b))); } else { assert(r[x - p.len()] == (a, b)); assert(l[x - p.len()] == b); assert(e[k - 1].0 == a && e[k - 1].1@.contains(b)); }
            }
            if exists|i: int| #![trigger e[i]] 0 <= i < k && e[i].0 == a && e[i].1@.contains(b) {
                let i = choose|i: int| #![trigger e[i]] 0 <= i < k && e[i].0 == a && e[i].1@.contains(b);
                if i < k - 1 { assert(p.contains((a, b))); let x = choose|x: int| 0 <= x < p.len() && p[x] == (a, b); assert(q[x] == (a, b)); }
                else { let x = choose|x: int| 0 <= x < l.len() && l[x] == b; assert(r[x] == (a, b)); assert(q[p.len() + x] == (a, b)); }
            }
        }
        assert forall|x: int, y: int| 0 <= x < q.len() && 0 <= y < q.len() && x != y implies q[x] != q[y] by {
            if x >= p.len() && y >= p.len() { assert(q[x] == r[x - p.len()] && q[y] == r[y - p.len()]); assert(l[x - p.len()] != l[y - p.len()]); }
            else if x < p.len() && y < p.len() { assert(q[x] == p[x] && q[y] == p[y]); }
            else {
                let (u, v) = if x < p.len() { (x, y) } else { (y, x) };
                assert(q[u] == p[u] && q[v] == r[v - p.len()]);
                if q[u] == q[v] {
                    let (a, b) = q[u];
                    assert(p.contains((a, b)));
                    let i = choose|i: int| #![trigger e[i]] 0 <= i < k - 1 && e[i].0 == a && e[i].1@.contains(b);
                    assert(e[i].0 != e[k - 1].0);
                }
            }
        }
    }
}
proof fn lemma_all_pairs(e: Seq<(NodeID, &Vec<NodeID>)>, m: Map<NodeID, Seq<NodeID>>)
    requires lists_entries(e, m), forall|n: NodeID| #![trigger m[n]] m.dom().contains(n) ==> m[n].no_duplicates(),
    ensures all_edges(pairs_of(e, e.len() as int), container(m)),
{
    broadcast use axiom_container;
    lemma_pairs(e, m, e.len() as int);
    let c = container(m);
    let ps = pairs_of(e, e.len() as int);
    assert forall|a: NodeID, b: NodeID| #![trigger is_edge(c, a, b)] #![trigger ps.contains((a, b))] ps.contains((a, b)) <==> is_edge(c, a, b) by {
        assert(c.out_seq(a) == outs(m, a));
        if is_edge(c, a, b) { let i = choose|i: int| #![trigger e[i]] 0 <= i < e.len() && e[i].0 == a; assert(e[i].1@.contains(b)); }
    }
}
proof fn lemma_degree(v: Seq<usize>, m: Map<NodeID, Seq<NodeID>>)
    requires largest(v, m),
    ensures largest_degree(container(m), if v.len() > 0 { v.last() as int } else { 0 }),
{
    broadcast use axiom_container;
    let c = container(m);
    assert forall|n: NodeID| #![trigger c.out_seq(n)] c.out_seq(n).len() <= (if v.len() > 0 { v.last() as int } else { 0 }) by { if m.dom().contains(n) { assert(m[n].len() <= v.last()); } }
    if v.len() > 0 { let n = choose|n: NodeID| #![trigger m[n]] m.dom().contains(n) && m[n].len() == v.last(); assert(c.out_seq(n).len() == v.last()); }
}
impl AdjacencyListStorage {
    #[verifier::external_body]
    pub fn as_container(&self) -> (r: &dyn EdgeContainer) ensures r == container(self.edges.view()) { unimplemented!() }

#[verifier::exec_allows_no_decreases_clause]
//@fn src=core/src/graph/storage/adjacencylist.rs item="WriteableGraphStorage for AdjacencyListStorage::calculate_statistics"
//@rewrite BTreeSet<NodeID> => NodeIDSet
//@rewrite BTreeSet::new\(\) => NodeIDSet::new()
//@rewrite for \(source, outgoing\) in &self\.edges => let ents = self.edges.entries(); let mut ei: usize = 0; while ei < ents.len()
//@rewrite for target in it: outgoing => for target in it: outgoing.iter()
//@rewrite for outgoing in it: self\.edges\.values\(\) => let vals = self.edges.values(); let ghost es = choose|e: Seq<(NodeID, &Vec<NodeID>)>| values_of(e, vals@, m); proof { lemma_all_pairs(es, m); } for outgoing in it: vals
//@rewrite for target in jt: outgoing => for target in jt: outgoing.iter()
//@rewrite fan_outs\.iter\(\)\.sum\(\) => sum_of(&fan_outs)
//@rewrite? fan_outs\.last\(\) => last_of(&fan_outs)
//@rewrite for root_node in it: &roots => let rl = roots.list(); for root_node in it: rl.iter()
//@rewrite CycleSafeDFS::new\(self, => CycleSafeDFS::new(self.as_container(),
//@rewrite for step in &mut dfs => while let Some(step) = dfs.next()
//@rewrite number_of_visits \+= 1 => number_of_visits = one_more(number_of_visits)
//@rewrite? std::cmp::max\( => larger(
//@rewrite f64::from\(number_of_visits\) / \(stats\.nodes as f64\) => visits_per_node(number_of_visits, stats.nodes)
//@rewrite \(sum_fan_out as f64\) / \(stats\.nodes as f64\) => average(sum_fan_out, stats.nodes)
//@spec
    requires wf(*old(self)),
    ensures ret is Ok ==> final(self).edges.view() == old(self).edges.view() && final(self).inverse_edges.view() == old(self).inverse_edges.view()
        && final(self).stats is Some && truthful(&final(self).stats->0, container(final(self).edges.view())),
//@at fn_start
    let ghost m = self.edges.view();
    let ghost c = container(m);
    let ghost mut ns = Set::<NodeID>::empty(); let ghost mut r0 = Set::<NodeID>::empty();
//@loop 0
    invariant
        ei <= ents@.len(), lists_entries(ents@, m), m == self.edges.view(), self.inverse_edges.view() == old(self).inverse_edges.view(),
        forall|n: NodeID| #![trigger m[n]] m.dom().contains(n) ==> m[n].no_duplicates(),
        summary(pairs_of(ents@, ei as int), roots.view(), all_nodes.view(), has_incoming_edge.view(), stats.rooted_tree),
        stats.max_depth == 1, stats.max_fan_out == 0, !stats.cyclic,
//@at loop_start 0
    let source = &ents[ei].0; let outgoing = ents[ei].1; ei = ei + 1;
    let ghost base = pairs_of(ents@, ei - 1); let ghost r = row(ents@[ei - 1]);
    let ghost mut gr = roots.view(); let ghost mut ga = all_nodes.view();
    proof { assert(pairs_of(ents@, ei as int) =~= base + r); if outgoing@.len() == 0 { assert(base + r =~= base); } assert(base + r.take(0) =~= base); }
//@forname 1 it
//@loop 1
    invariant
        it.seq() == outgoing@.map_values(|x: NodeID| &x), r == row((*source, outgoing)),
        summary(base + r.take(it.index()), gr, ga, has_incoming_edge.view(), stats.rooted_tree),
        roots.view() =~= gr.insert(*source), all_nodes.view() =~= ga.insert(*source),
        it.index() > 0 ==> gr.contains(*source) && ga.contains(*source),
        stats.max_depth == 1, stats.max_fan_out == 0, !stats.cyclic,
//@at loop_start 1
    let ghost inc0 = has_incoming_edge.view(); let ghost tree0 = stats.rooted_tree; let ghost jx = it.index();
//@at loop_end 1
    proof {
        let e = (*source, *target);
        assert(r[jx] == e);
        assert((base + r.take(jx)).push(e) =~= base + r.take(jx + 1));
        lemma_summary(base + r.take(jx), e, gr, ga, inc0, tree0, has_incoming_edge.view(), stats.rooted_tree);
        gr = gr.insert(*source); ga = ga.insert(*source).insert(*target);
    }
//@at after_loop 1
    proof { assert(r.take(r.len() as int) =~= r); assert(roots.view() =~= gr && all_nodes.view() =~= ga); }
//@at after_loop 0
    proof {
        lemma_all_pairs(ents@, m);
        lemma_read(c, pairs_of(ents@, ents@.len() as int), roots.view(), all_nodes.view(), has_incoming_edge.view(), stats.rooted_tree);
        ns = all_nodes.view(); r0 = roots.view();
    }
//@forname 2 it
//@loop 2
    invariant
        it.seq() == vals@, values_of(es, vals@, m),
        forall|n: NodeID| #![trigger roots.view().contains(n)] roots.view().contains(n) <==> r0.contains(n) && !is_tgt(pairs_of(es, it.index()), n),
//@at loop_start 2
    let ghost ix = it.index(); let ghost base2 = pairs_of(es, ix); let ghost rw = row(es[ix]);
    proof { assert(pairs_of(es, ix + 1) =~= base2 + rw); assert(base2 + rw.take(0) =~= base2); }
//@forname 3 jt
//@loop 3
    invariant
        jt.seq() == outgoing@.map_values(|x: NodeID| &x), rw == row((es[ix].0, outgoing)),
        forall|n: NodeID| #![trigger roots.view().contains(n)] roots.view().contains(n) <==> r0.contains(n) && !is_tgt(base2 + rw.take(jt.index()), n),
//@at loop_start 3
    let ghost jx = jt.index();
//@at loop_end 3
    proof {
        let e = (es[ix].0, *target);
        assert(rw[jx] == e);
        assert((base2 + rw.take(jx)).push(e) =~= base2 + rw.take(jx + 1));
        lemma_tgt_push(base2 + rw.take(jx), e);
    }
//@at after_loop 3
    proof { assert(rw.take(rw.len() as int) =~= rw); }
//@at after_loop 2
    proof { lemma_ends(c, pairs_of(es, es.len() as int)); assert(root_set(c, roots.view())); }
//@at before_call get_fan_outs 0
    proof {
        if m.dom().len() == 0 {
            assert(m.dom() =~= Set::empty());
            assert forall|n: NodeID| roots.view().contains(n) implies is_root(c, n) by { broadcast use axiom_container; assert(c.out_seq(n) == outs(m, n)); }
            assert forall|n: NodeID| is_root(c, n) implies roots.view().contains(n) by { }
        }
        assert(root_set(c, roots.view()));
    }
//@at before_call is_empty 4
    let ghost rs1 = roots.view();
    proof {
        lemma_degree(fan_outs@, m);
        if roots.view().len() == 0 && ns.len() > 0 {
            assert(roots.view() =~= Set::empty());
            let n = ns.choose();
            assert(ns.contains(n));
            assert forall|p: Seq<NodeID>| !reached(c, p, n) by { if reached(c, p, n) { assert(roots.view().contains(p[0])); } }
            lemma_unreached(c, ns, n);
        }
    }
//@forname 4 it
//@at before_loop 4
    let ghost s4 = stats;
//@loop 4
    invariant
        it.seq() == rl@.map_values(|x: NodeID| &x), c == container(self.edges.view()), m == self.edges.view(), self.inverse_edges.view() == old(self).inverse_edges.view(),
        root_set(c, roots.view()), forall|x: NodeID| #![trigger roots.view().contains(x)] roots.view().contains(x) <==> rl@.contains(x),
        forall|k: int| #![trigger rl@[k]] 0 <= k < it.index() ==> searched(c, rl@[k], visited.view(), stats.max_depth as int, stats.cyclic),
        only_reached(c, visited.view()), attained(c, stats.max_depth as int), stats.cyclic ==> cyclic(c), stats.max_depth >= 1,
        stats.nodes == s4.nodes, stats.root_nodes == s4.root_nodes, stats.rooted_tree == s4.rooted_tree, stats.max_fan_out == s4.max_fan_out,
//@at loop_start 4
    let ghost kx = it.index(); let ghost v5 = visited.view(); let ghost d5 = stats.max_depth as int;
    proof { assert(rl@[kx] == *root_node); assert(rl@.contains(rl@[kx])); assert(roots.view().contains(rl@[kx])); assert(is_root(c, *root_node)); }
//@loop 5
    invariant
        super::wf(dfs), dfs.container == c, !dfs.inverse, dfs.min_distance == 0, dfs.max_distance == usize::MAX, is_root(c, *root_node),
        c == container(self.edges.view()), m == self.edges.view(), self.inverse_edges.view() == old(self).inverse_edges.view(),
        forall|p: Seq<NodeID>| #![trigger walk(c, false, p)] walk(c, false, p) && p.no_duplicates() && p[0] == *root_node && p.len() - 1 <= usize::MAX ==> pending(dfs, p) || noted(p, visited.view(), stats.max_depth as int),
        forall|p: Seq<NodeID>| #![trigger pending(dfs, p)] pending(dfs, p) ==> p[0] == *root_node,
        forall|q: Seq<NodeID>| #![trigger closes(c, false, q)] closes(c, false, q) && q[0] == *root_node && q.len() - 1 <= usize::MAX ==> closing(dfs, q) || dfs.cycle_detected,
        dfs.cycle_detected ==> has_cycle(c, false),
        v5.subset_of(visited.view()), d5 <= stats.max_depth,
        only_reached(c, visited.view()), attained(c, stats.max_depth as int), stats.cyclic ==> cyclic(c), stats.max_depth >= 1,
        stats.nodes == s4.nodes, stats.root_nodes == s4.root_nodes, stats.rooted_tree == s4.rooted_tree, stats.max_fan_out == s4.max_fan_out,
    ensures
        forall|p: Seq<NodeID>| !pending(dfs, p), forall|q: Seq<NodeID>| !closing(dfs, q),
//@at before_call insert 4
    let ghost v6 = visited.view();
    proof {
        assert(exists|q: Seq<NodeID>| #![trigger walk(c, false, q)] walk(c, false, q) && q[0] == *root_node && q.last() == step.node && q.len() == step.distance + 1);
        let q = choose|q: Seq<NodeID>| #![trigger walk(c, false, q)] walk(c, false, q) && q[0] == *root_node && q.last() == step.node && q.len() == step.distance + 1;
        assert(reached(c, q, step.node));
    }
//@at after_loop 5
    proof {
        if dfs.cycle_detected { let q = choose|q: Seq<NodeID>| walk(c, false, q) && !q.no_duplicates(); lemma_twice_is_cycle(c, q); }
    }
//@at loop_end 4
    proof {
        assert forall|k: int| #![trigger rl@[k]] 0 <= k < kx + 1 implies searched(c, rl@[k], visited.view(), stats.max_depth as int, stats.cyclic) by {
            if k < kx {
                assert forall|p: Seq<NodeID>| #![trigger walk(c, false, p)] walk(c, false, p) && p.no_duplicates() && p[0] == rl@[k] && p.len() - 1 <= usize::MAX implies noted(p, visited.view(), stats.max_depth as int) by {
                    assert(noted(p, v5, d5));
                }
            }
        }
    }
//@at after_loop 4
    proof {
        assert forall|r: NodeID| #![trigger roots.view().contains(r)] roots.view().contains(r) implies searched(c, r, visited.view(), stats.max_depth as int, stats.cyclic) by { assert(rl@.contains(r)); }
        lemma_complete(c, ns, roots.view(), visited.view(), stats.max_depth as int, stats.cyclic);
    }
//@at fn_end
    proof { let st = self.stats->0; assert(node_set(c, ns) && st.nodes == ns.len()); assert(root_set(c, rs1) && st.root_nodes == rs1.len()); assert(largest_degree(c, st.max_fan_out as int));
        assert(st.cyclic == cyclic(c)); }
//@end
}
}

// ---- the storage on disk ------------------------------------------------------------------------
pub mod disk {
use super::*;
/// core/src/util/disk_collections.rs (its own contract is the subject of P08)
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct DiskMap<K, V> { x: K, y: V }
impl DiskMap<Edge, bool> {
    pub uninterp spec fn view(&self) -> Set<Edge>;
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: Result<bool>) ensures r matches Ok(b) ==> b == (self.view().len() == 0) { unimplemented!() }
    /// the entries, each key once
    #[verifier::external_body]
    pub fn iter(&self) -> (r: Result<Vec<Result<(Edge, bool)>>>) ensures r matches Ok(v) ==> lists_keys(v@, keys(self.view())) { unimplemented!() }
}
pub open spec fn lists_keys(v: Seq<Result<(Edge, bool)>>, k: Seq<Edge>) -> bool {
    v.len() == k.len() && forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> (v[i] matches Ok(x) ==> x.0 == k[i])
}
pub uninterp spec fn keys(s: Set<Edge>) -> Seq<Edge>;
pub broadcast axiom fn axiom_keys(s: Set<Edge>)
    ensures (#[trigger] keys(s)).no_duplicates(), forall|e: Edge| #![trigger s.contains(e)] s.contains(e) <==> keys(s).contains(e);
pub open spec fn pair(e: Edge) -> Pair { (e.source, e.target) }
pub open spec fn pairs_of(k: Seq<Edge>) -> Seq<Pair> { Seq::new(k.len(), |i: int| pair(k[i])) }
pub uninterp spec fn container<'a>(s: Set<Edge>) -> &'a dyn EdgeContainer;
/// this storage as the edge container the search reads (get_outgoing_edges: unit diskadj)
pub broadcast axiom fn axiom_container(s: Set<Edge>, a: NodeID)
    ensures (#[trigger] container(s).out_seq(a)).no_duplicates(), forall|b: NodeID| #![trigger container(s).out_seq(a).contains(b)] container(s).out_seq(a).contains(b) <==> s.contains(Edge { source: a, target: b });
proof fn lemma_all_pairs(s: Set<Edge>)
    ensures all_edges(pairs_of(keys(s)), container(s)),
{
    broadcast use axiom_keys, axiom_container;
    let k = keys(s); let ps = pairs_of(k); let c = container(s);
    assert forall|i: int, j: int| 0 <= i < ps.len() && 0 <= j < ps.len() && i != j implies ps[i] != ps[j] by { assert(k[i] != k[j]); }
    assert forall|a: NodeID, b: NodeID| #![trigger is_edge(c, a, b)] #![trigger ps.contains((a, b))] ps.contains((a, b)) <==> is_edge(c, a, b) by {
        let e = Edge { source: a, target: b };
        assert(c.out_seq(a).contains(b) <==> s.contains(e));
        assert(s.contains(e) <==> k.contains(e));
        if ps.contains((a, b)) { let i = choose|i: int| 0 <= i < ps.len() && ps[i] == (a, b); assert(ps[i] == pair(k[i])); assert(k[i].source == a && k[i].target == b); assert(k[i] == e); assert(k.contains(e)); }
        if k.contains(e) { let i = choose|i: int| 0 <= i < k.len() && k[i] == e; assert(ps[i] == (a, b)); }
    }
}
proof fn lemma_no_keys(s: Set<Edge>)
    requires s.len() == 0,
    ensures keys(s).len() == 0,
{ broadcast use axiom_keys; assert(s =~= Set::empty()); if keys(s).len() > 0 { assert(keys(s).contains(keys(s)[0])); assert(s.contains(keys(s)[0])); } }
/// number of edges with this source among the first n
pub open spec fn count(k: Seq<Edge>, n: int, a: NodeID) -> nat
    decreases n,
{
    if n <= 0 { 0 } else { count(k, n - 1, a) + if k[n - 1].source == a { 1nat } else { 0nat } }
}
proof fn lemma_count_bound(k: Seq<Edge>, n: int, a: NodeID)
    requires 0 <= n,
    ensures count(k, n, a) <= n,
    decreases n,
{ if n > 0 { lemma_count_bound(k, n - 1, a); } }
proof fn lemma_count(k: Seq<Edge>, n: int, a: NodeID) -> (t: Seq<NodeID>)
    requires 0 <= n <= k.len(), k.no_duplicates(),
    ensures t.no_duplicates(), t.len() == count(k, n, a), forall|b: NodeID| #![trigger t.contains(b)] t.contains(b) <==> exists|i: int| #![trigger k[i]] 0 <= i < n && k[i].source == a && k[i].target == b,
    decreases n,
{
    if n == 0 { seq![] } else {
        let t = lemma_count(k, n - 1, a);
        if k[n - 1].source != a {
            assert forall|b: NodeID| #![trigger t.contains(b)] t.contains(b) <==> exists|i: int| #![trigger k[i]] 0 <= i < n && k[i].source == a && k[i].target == b by { }
            t
        } else {
            let x = k[n - 1].target;
            let r = t.push(x);
            assert(r[t.len() as int] == x);
            assert forall|b: NodeID| #![trigger r.contains(b)] r.contains(b) <==> exists|i: int| #![trigger k[i]] 0 <= i < n && k[i].source == a && k[i].target == b by {
                if t.contains(b) { let i = choose|i: int| 0 <= i < t.len() && t[i] == b; assert(r[i] == b); }
                if r.contains(b) && b != x { let i = choose|i: int| 0 <= i < r.len() && r[i] == b; assert(t[i] == b); assert(t.contains(b)); }
                if b == x { assert(k[n - 1].target == b); }
            }
            if t.contains(x) {
                let i = choose|i: int| #![trigger k[i]] 0 <= i < n - 1 && k[i].source == a && k[i].target == x;
                assert(k[i] == k[n - 1]);
            }
            r
        }
    }
}
proof fn lemma_out_len(s: Set<Edge>, a: NodeID)
    ensures container(s).out_seq(a).len() == count(keys(s), keys(s).len() as int, a),
{
    broadcast use axiom_keys, axiom_container;
    let k = keys(s); let o = container(s).out_seq(a);
    let t = lemma_count(k, k.len() as int, a);
    o.unique_seq_to_set(); t.unique_seq_to_set();
    assert(o.to_set() =~= t.to_set()) by {
        assert forall|b: NodeID| o.contains(b) <==> t.contains(b) by {
            let e = Edge { source: a, target: b };
            assert(s.contains(e) <==> k.contains(e));
            assert(o.contains(b) <==> s.contains(e));
            if k.contains(e) { let i = choose|i: int| 0 <= i < k.len() && k[i] == e; assert(k[i].source == a && k[i].target == b); }
            if t.contains(b) { let i = choose|i: int| #![trigger k[i]] 0 <= i < k.len() && k[i].source == a && k[i].target == b; assert(k[i] == e); assert(k.contains(e)); }
        }
        assert forall|b: NodeID| o.to_set().contains(b) <==> t.to_set().contains(b) by { assert(o.contains(b) <==> t.contains(b)); }
    }
}
/// std HashMap used as a table of counters
#[verifier::external_body]
pub struct Counters { x: std::collections::HashMap<NodeID, usize> }
impl Counters {
    pub uninterp spec fn view(&self) -> Map<NodeID, usize>;
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r.view() == Map::<NodeID, usize>::empty() { unimplemented!() }
    /// `entry(k).and_modify(|n| *n += 1).or_insert(1)`
    #[verifier::external_body]
    pub fn add_one(&mut self, k: NodeID)
        requires old(self).view().dom().contains(k) ==> old(self).view()[k] < usize::MAX,
        ensures final(self).view() == old(self).view().insert(k, if old(self).view().dom().contains(k) { (old(self).view()[k] + 1) as usize } else { 1usize }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_values(self) -> (r: Vec<usize>)
        ensures
            forall|k: NodeID| #![trigger self.view()[k]] self.view().dom().contains(k) ==> r@.contains(self.view()[k]),
            forall|x: usize| #![trigger r@.contains(x)] r@.contains(x) ==> exists|k: NodeID| #![trigger self.view()[k]] self.view().dom().contains(k) && self.view()[k] == x,
    { unimplemented!() }
}
pub open spec fn counted(m: Map<NodeID, usize>, k: Seq<Edge>, n: int) -> bool {
    forall|a: NodeID| #![trigger m.dom().contains(a)] #![trigger count(k, n, a)] if m.dom().contains(a) { m[a] == count(k, n, a) && m[a] > 0 } else { count(k, n, a) == 0 }
}
pub open spec fn largest(v: Seq<usize>, k: Seq<Edge>) -> bool {
    &&& forall|a: NodeID| #![trigger count(k, k.len() as int, a)] count(k, k.len() as int, a) > 0 ==> v.len() > 0 && count(k, k.len() as int, a) <= v.last()
    &&& v.len() > 0 ==> exists|a: NodeID| #![trigger count(k, k.len() as int, a)] count(k, k.len() as int, a) == v.last()
}
proof fn lemma_degree(v: Seq<usize>, s: Set<Edge>)
    requires largest(v, keys(s)),
    ensures largest_degree(container(s), if v.len() > 0 { v.last() as int } else { 0 }),
{
    let c = container(s); let k = keys(s);
    assert forall|n: NodeID| #![trigger c.out_seq(n)] c.out_seq(n).len() <= (if v.len() > 0 { v.last() as int } else { 0 }) by { lemma_out_len(s, n); }
    if v.len() > 0 { let a = choose|a: NodeID| #![trigger count(k, k.len() as int, a)] count(k, k.len() as int, a) == v.last(); lemma_out_len(s, a); assert(c.out_seq(a).len() == v.last()); }
}
//@fn src=core/src/graph/storage/disk_adjacency.rs item=get_fan_outs
//@rewrite HashMap<NodeID, usize> = HashMap::default => Counters = Counters::default
//@rewrite (?s)fan_outs\s*\.entry\(e\.source\)\s*\.and_modify\(\|num_out\| \*num_out \+= 1\)\s*\.or_insert\(1\) => fan_outs.add_one(e.source)
//@rewrite fan_outs\.into_values\(\)\.collect\(\) => fan_outs.into_values()
//@rewrite fan_outs\.sort_unstable\(\) => sort_unstable(&mut fan_outs)
//@spec
    ensures ret matches Ok(v) ==> largest(v@, keys(edges.view())),
//@at fn_start
    let ghost k = keys(edges.view());
//@forname 0 it
//@loop 0
    invariant lists_keys(it.seq(), k), counted(fan_outs.view(), k, it.index()), k.len() <= usize::MAX,
//@at before_loop 0
    proof { assert(all_edges@.len() == all_edges.len()); assert(k.len() <= usize::MAX); }
//@at loop_start 0
    let ghost ix = it.index();
    let ghost c0 = fan_outs.view();
    proof { assert forall|a: NodeID| #![trigger count(k, ix + 1, a)] count(k, ix + 1, a) == count(k, ix, a) + if k[ix].source == a { 1nat } else { 0nat } by { }
        assert forall|a: NodeID| #![trigger count(k, ix, a)] count(k, ix, a) <= ix by { lemma_count_bound(k, ix, a); } }
//@at loop_end 0
    proof {
        assert(e.source == k[ix].source);
        assert forall|a: NodeID| #![trigger fan_outs.view().dom().contains(a)] #![trigger count(k, ix + 1, a)] if fan_outs.view().dom().contains(a) { fan_outs.view()[a] == count(k, ix + 1, a) && fan_outs.view()[a] > 0 } else { count(k, ix + 1, a) == 0 } by {
            assert(count(k, ix, a) <= ix);
            assert(c0.dom().contains(a) || count(k, ix, a) == 0);
        }
    }
//@at after_loop 0
    proof { assert(counted(fan_outs.view(), k, k.len() as int)); }
//@at before_call into_values 0
    let ghost cs = fan_outs.view();
    proof {
        if edges.view().len() == 0 { lemma_no_keys(edges.view()); assert(k.len() == 0); assert(counted(cs, k, 0)) by { assert(cs =~= Map::empty()); } }
        assert(counted(cs, k, k.len() as int));
    }
//@at before_call sort_unstable 0
    let ghost f0 = fan_outs@;
//@at after_call sort_unstable 0
    proof {
        assert forall|a: NodeID| #![trigger count(k, k.len() as int, a)] count(k, k.len() as int, a) > 0 implies fan_outs@.len() > 0 && count(k, k.len() as int, a) <= fan_outs@.last() by {
            assert(cs.dom().contains(a)); assert(f0.contains(cs[a])); assert(fan_outs@.contains(cs[a]));
        }
        if fan_outs@.len() > 0 { assert(fan_outs@.contains(fan_outs@.last())); assert(f0.contains(fan_outs@.last())); }
    }
//@end
//@item src=core/src/graph/storage/disk_adjacency.rs item="struct DiskAdjacencyListStorage"
//@rewrite (?m)^    (pub )?(\w+): => pub ${2}:

impl DiskAdjacencyListStorage {
    #[verifier::external_body]
    pub fn as_container(&self) -> (r: &dyn EdgeContainer) ensures r == container(self.edges.view()) { unimplemented!() }

#[verifier::exec_allows_no_decreases_clause]
//@fn src=core/src/graph/storage/disk_adjacency.rs item="WriteableGraphStorage for DiskAdjacencyListStorage::calculate_statistics"
//@rewrite BTreeSet<NodeID> => NodeIDSet
//@rewrite BTreeSet::new\(\) => NodeIDSet::new()
//@rewrite fan_outs\.iter\(\)\.sum\(\) => sum_of(&fan_outs)
//@rewrite? fan_outs\.last\(\) => last_of(&fan_outs)
//@rewrite for root_node in it: &roots => let rl = roots.list(); for root_node in it: rl.iter()
//@rewrite CycleSafeDFS::new\(self, => CycleSafeDFS::new(self.as_container(),
//@rewrite for step in &mut dfs => while let Some(step) = dfs.next()
//@rewrite number_of_visits \+= 1 => number_of_visits = one_more(number_of_visits)
//@rewrite? std::cmp::max\( => larger(
//@rewrite f64::from\(number_of_visits\) / \(stats\.nodes as f64\) => visits_per_node(number_of_visits, stats.nodes)
//@rewrite \(sum_fan_out as f64\) / \(stats\.nodes as f64\) => average(sum_fan_out, stats.nodes)
//@spec
    ensures ret is Ok ==> final(self).edges.view() == old(self).edges.view() && final(self).inverse_edges.view() == old(self).inverse_edges.view()
        && final(self).stats is Some && truthful(&final(self).stats->0, container(final(self).edges.view())),
//@at fn_start
    let ghost m = self.edges.view();
    let ghost c = container(m);
    let ghost ks = keys(m);
    let ghost ps = pairs_of(ks);
    let ghost mut ns = Set::<NodeID>::empty(); let ghost mut r0 = Set::<NodeID>::empty();
    proof { lemma_all_pairs(m); lemma_ends(c, ps); assert(ps.take(0) =~= seq![]); }
//@forname 0 it
//@loop 0
    invariant
        lists_keys(it.seq(), ks), ps == pairs_of(ks), m == self.edges.view(), self.inverse_edges.view() == old(self).inverse_edges.view(),
        summary(ps.take(it.index()), roots.view(), all_nodes.view(), has_incoming_edge.view(), stats.rooted_tree),
        stats.max_depth == 1, stats.max_fan_out == 0, !stats.cyclic,
//@at loop_start 0
    let ghost ix = it.index();
    let ghost gr = roots.view(); let ghost ga = all_nodes.view(); let ghost inc0 = has_incoming_edge.view(); let ghost tree0 = stats.rooted_tree;
//@at loop_end 0
    proof {
        assert(ps[ix] == pair(e));
        assert(ps.take(ix).push(pair(e)) =~= ps.take(ix + 1));
        lemma_summary(ps.take(ix), pair(e), gr, ga, inc0, tree0, has_incoming_edge.view(), stats.rooted_tree);
    }
//@at after_loop 0
    proof {
        assert(ps.take(ps.len() as int) =~= ps);
        lemma_read(c, ps, roots.view(), all_nodes.view(), has_incoming_edge.view(), stats.rooted_tree);
        ns = all_nodes.view(); r0 = roots.view();
    }
//@forname 1 it
//@loop 1
    invariant
        lists_keys(it.seq(), ks), ps == pairs_of(ks), m == self.edges.view(),
        forall|n: NodeID| #![trigger roots.view().contains(n)] roots.view().contains(n) <==> r0.contains(n) && !is_tgt(ps.take(it.index()), n),
//@at loop_start 1
    let ghost ix = it.index();
//@at loop_end 1
    proof {
        assert(ps[ix] == pair(e));
        assert(ps.take(ix).push(pair(e)) =~= ps.take(ix + 1));
        lemma_tgt_push(ps.take(ix), pair(e));
    }
//@at after_loop 1
    proof { assert(ps.take(ps.len() as int) =~= ps); assert(root_set(c, roots.view())); }
//@at before_call get_fan_outs 0
    proof {
        if m.len() == 0 {
            assert(m =~= Set::empty());
            assert forall|n: NodeID| roots.view().contains(n) implies is_root(c, n) by { broadcast use axiom_container; assert(has_out(c, n)); let b = choose|b: NodeID| #[trigger] is_edge(c, n, b); assert(c.out_seq(n).contains(b)); }
            assert forall|n: NodeID| is_root(c, n) implies roots.view().contains(n) by { }
        }
        assert(root_set(c, roots.view()));
    }
//@at before_call is_empty 3
    let ghost rs1 = roots.view();
    proof {
        lemma_degree(fan_outs@, m);
        if m.len() > 0 {
            let e = m.choose();
            assert(m.contains(e));
            broadcast use axiom_container;
            assert(c.out_seq(e.source).contains(e.target) <==> m.contains(Edge { source: e.source, target: e.target }));
            assert(is_edge(c, e.source, e.target));
            assert(ns.contains(e.source));
            if ns.len() == 0 { assert(ns =~= Set::empty()); }
        }
        if roots.view().len() == 0 && ns.len() > 0 {
            assert(roots.view() =~= Set::empty());
            let n = ns.choose();
            assert(ns.contains(n));
            assert forall|p: Seq<NodeID>| !reached(c, p, n) by { if reached(c, p, n) { assert(roots.view().contains(p[0])); } }
            lemma_unreached(c, ns, n);
        }
    }
//@forname 2 it
//@at before_loop 2
    let ghost s4 = stats;
//@loop 2
    invariant
        it.seq() == rl@.map_values(|x: NodeID| &x), c == container(self.edges.view()), m == self.edges.view(), self.inverse_edges.view() == old(self).inverse_edges.view(),
        root_set(c, roots.view()), forall|x: NodeID| #![trigger roots.view().contains(x)] roots.view().contains(x) <==> rl@.contains(x),
        forall|k: int| #![trigger rl@[k]] 0 <= k < it.index() ==> searched(c, rl@[k], visited.view(), stats.max_depth as int, stats.cyclic),
        only_reached(c, visited.view()), attained(c, stats.max_depth as int), stats.cyclic ==> cyclic(c), stats.max_depth >= 1,
        stats.nodes == s4.nodes, stats.root_nodes == s4.root_nodes, stats.rooted_tree == s4.rooted_tree, stats.max_fan_out == s4.max_fan_out,
//@at loop_start 2
    let ghost kx = it.index(); let ghost v5 = visited.view(); let ghost d5 = stats.max_depth as int;
    proof { assert(rl@[kx] == *root_node); assert(rl@.contains(rl@[kx])); assert(roots.view().contains(rl@[kx])); assert(is_root(c, *root_node)); }
//@loop 3
    invariant
        super::wf(dfs), dfs.container == c, !dfs.inverse, dfs.min_distance == 0, dfs.max_distance == usize::MAX, is_root(c, *root_node),
        c == container(self.edges.view()), m == self.edges.view(), self.inverse_edges.view() == old(self).inverse_edges.view(),
        forall|p: Seq<NodeID>| #![trigger walk(c, false, p)] walk(c, false, p) && p.no_duplicates() && p[0] == *root_node && p.len() - 1 <= usize::MAX ==> pending(dfs, p) || noted(p, visited.view(), stats.max_depth as int),
        forall|p: Seq<NodeID>| #![trigger pending(dfs, p)] pending(dfs, p) ==> p[0] == *root_node,
        forall|q: Seq<NodeID>| #![trigger closes(c, false, q)] closes(c, false, q) && q[0] == *root_node && q.len() - 1 <= usize::MAX ==> closing(dfs, q) || dfs.cycle_detected,
        dfs.cycle_detected ==> has_cycle(c, false),
        v5.subset_of(visited.view()), d5 <= stats.max_depth,
        only_reached(c, visited.view()), attained(c, stats.max_depth as int), stats.cyclic ==> cyclic(c), stats.max_depth >= 1,
        stats.nodes == s4.nodes, stats.root_nodes == s4.root_nodes, stats.rooted_tree == s4.rooted_tree, stats.max_fan_out == s4.max_fan_out,
    ensures
        forall|p: Seq<NodeID>| !pending(dfs, p), forall|q: Seq<NodeID>| !closing(dfs, q),
//@at before_call insert 4
    let ghost v6 = visited.view();
    proof {
        assert(exists|q: Seq<NodeID>| #![trigger walk(c, false, q)] walk(c, false, q) && q[0] == *root_node && q.last() == step.node && q.len() == step.distance + 1);
        let q = choose|q: Seq<NodeID>| #![trigger walk(c, false, q)] walk(c, false, q) && q[0] == *root_node && q.last() == step.node && q.len() == step.distance + 1;
        assert(reached(c, q, step.node));
    }
//@at after_loop 3
    proof {
        if dfs.cycle_detected { let q = choose|q: Seq<NodeID>| walk(c, false, q) && !q.no_duplicates(); lemma_twice_is_cycle(c, q); }
    }
//@at loop_end 2
    proof {
        assert forall|k: int| #![trigger rl@[k]] 0 <= k < kx + 1 implies searched(c, rl@[k], visited.view(), stats.max_depth as int, stats.cyclic) by {
            if k < kx {
                assert forall|p: Seq<NodeID>| #![trigger walk(c, false, p)] walk(c, false, p) && p.no_duplicates() && p[0] == rl@[k] && p.len() - 1 <= usize::MAX implies noted(p, visited.view(), stats.max_depth as int) by {
                    assert(noted(p, v5, d5));
                }
            }
        }
    }
//@at after_loop 2
    proof {
        assert forall|r: NodeID| #![trigger roots.view().contains(r)] roots.view().contains(r) implies searched(c, r, visited.view(), stats.max_depth as int, stats.cyclic) by { assert(rl@.contains(r)); }
        lemma_complete(c, ns, roots.view(), visited.view(), stats.max_depth as int, stats.cyclic);
    }
//@at fn_end
    proof { let st = self.stats->0; assert(node_set(c, ns) && st.nodes == ns.len()); assert(root_set(c, rs1) && st.root_nodes == rs1.len()); assert(largest_degree(c, st.max_fan_out as int));
        assert(st.cyclic == cyclic(c)); }
//@end
}
}
fn main() {}
} // verus!
