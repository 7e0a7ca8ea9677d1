// Verus unit: a node search narrowed to the source nodes of components delivers exactly the selected nodes among them
#![allow(unused, non_snake_case)]
use vstd::prelude::*;
use std::sync::Arc;
verus! {
//@include searchlib.inc
// ---- searches narrowed to the source nodes of components ----------------------------------------
/// nodes with an outgoing edge in the component (and with this annotation, if its value is given)
pub open spec fn source_in(g: AnnotationGraph, c: Component, e: Option<EdgeAnnoSearchSpec>) -> spec_fn(NodeID) -> bool {
    |n: NodeID| g.storage(c) is Some && match e {
        Some(EdgeAnnoSearchSpec::ExactValue { ns, name, val }) => g.storage(c)->0.edge_annos().src((sv(ns), name@), vopt(val), n),
        _ => g.storage(c)->0.out(n),
    }
}
pub open spec fn vopt(v: Option<String>) -> ValueSearch<Seq<char>> { match v { Some(x) => ValueSearch::Some(x@), None => ValueSearch::Any } }
pub open spec fn sources(g: AnnotationGraph, cs: Seq<Component>, e: Option<EdgeAnnoSearchSpec>) -> spec_fn(NodeID) -> bool {
    |n: NodeID| exists|i: int| #![trigger cs[i]] 0 <= i < cs.len() && (source_in(g, cs[i], e))(n)
}
/// hash set of nodes
#[verifier::external_body]
pub struct NodeSet { x: u8 }
pub open spec fn wanted_edges(s: Seq<Result<EdgeMatch>>, a: EdgeAnnos, e: Option<EdgeAnnoSearchSpec>) -> bool { e matches Some(EdgeAnnoSearchSpec::ExactValue { ns, name, val }) && edge_list(s, a, (sv(ns), name@), vopt(val)) }
/// all nodes with an outgoing edge
pub fn all_sources(it: It<Result<NodeID>>, Ghost(g): Ghost<AnnotationGraph>, Ghost(c): Ghost<Component>, Ghost(e): Ghost<Option<EdgeAnnoSearchSpec>>) -> (r: It<Result<NodeID>>)
    requires g.storage(c) is Some, !(e matches Some(EdgeAnnoSearchSpec::ExactValue { .. })), lists_nodes(it@, g.storage(c)->0.sources()),
    ensures lists_nodes(r@, source_in(g, c, e)),
{ proof { let (p, q) = (g.storage(c)->0.sources(), source_in(g, c, e)); assert forall|n: NodeID| #![trigger p(n)] #![trigger q(n)] p(n) == q(n) by {} } it }
impl It<Result<EdgeMatch>> {
    /// `map_ok`
    pub fn edge_sources<F: Fn(EdgeMatch) -> NodeID>(self, Ghost(g): Ghost<AnnotationGraph>, Ghost(c): Ghost<Component>, Ghost(e): Ghost<Option<EdgeAnnoSearchSpec>>, f: F) -> (r: It<Result<NodeID>>)
        requires forall|x: EdgeMatch| #![trigger call_requires(f, (x,))] call_requires(f, (x,)), forall|x: EdgeMatch, y: NodeID| #![trigger call_ensures(f, (x,), y)] call_ensures(f, (x,), y) ==> y == x.node,
            g.storage(c) is Some, wanted_edges(self@, g.storage(c)->0.edge_annos(), e),
        ensures lists_nodes(r@, source_in(g, c, e)),
    {
        let ghost p = source_in(g, c, e);
        let ghost s = self@;
        let r = self.map_ok(f);
        proof {
            let t = r@;
            assert forall|i: int| #![trigger t[i]] 0 <= i < t.len() implies (t[i] matches Ok(n) ==> p(n)) by { let _ = s[i]; }
            if forall|i: int| #![trigger t[i]] 0 <= i < t.len() ==> t[i] is Ok {
                assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies s[i] is Ok by { let _ = t[i]; }
                assert forall|n: NodeID| #![trigger p(n)] p(n) implies exists|i: int| #![trigger t[i]] 0 <= i < t.len() && t[i] == Ok::<NodeID, GraphAnnisError>(n) by {
                    let i = choose|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i] is Ok && s[i]->Ok_0.node == n;
                    let _ = t[i];
                }
            }
        }
        r
    }
}
impl View for NodeSet { type V = Set<NodeID>; uninterp spec fn view(&self) -> Set<NodeID>; }
impl NodeSet {
    #[verifier::external_body]
    pub fn new() -> (r: NodeSet) ensures r@ == Set::<NodeID>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, n: NodeID) -> (r: bool) ensures r == !old(self)@.contains(n), final(self)@ == old(self)@.insert(n) { unimplemented!() }
}
impl It<Component> {
    #[verifier::external_body]
    pub fn flat_map<B, F: Fn(Component) -> It<B>>(self, f: F) -> (r: It<B>)
        requires forall|c: Component| #![trigger call_requires(f, (c,))] call_requires(f, (c,)),
        ensures forall|j: int| #![trigger r@[j]] 0 <= j < r@.len() ==> exists|i: int, it: It<B>| #![trigger call_ensures(f, (self@[i],), it)] 0 <= i < self@.len() && call_ensures(f, (self@[i],), it) && it@.contains(r@[j]),
            forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() ==> exists|it: It<B>| #![trigger call_ensures(f, (self@[i],), it)] call_ensures(f, (self@[i],), it) && forall|k: int| #![trigger it@[k]] 0 <= k < it@.len() ==> r@.contains(it@[k]),
    { unimplemented!() }
    pub fn flat_nodes<F: Fn(Component) -> It<Result<NodeID>>>(self, Ghost(g): Ghost<AnnotationGraph>, Ghost(e): Ghost<Option<EdgeAnnoSearchSpec>>, f: F) -> (r: It<Result<NodeID>>)
        requires forall|c: Component| #![trigger call_requires(f, (c,))] call_requires(f, (c,)), forall|c: Component, it: It<Result<NodeID>>| #![trigger call_ensures(f, (c,), it)] call_ensures(f, (c,), it) ==> lists_nodes(it@, source_in(g, c, e)),
        ensures lists_nodes(r@, sources(g, self@, e)),
    {
        let ghost s = self@;
        let r = self.flat_map(f);
        proof {
            let (t, p) = (r@, sources(g, s, e));
            assert forall|j: int| #![trigger t[j]] 0 <= j < t.len() implies (t[j] matches Ok(n) ==> p(n)) by {
                let (i, it) = choose|i: int, it: It<Result<NodeID>>| #![trigger call_ensures(f, (s[i],), it)] 0 <= i < s.len() && call_ensures(f, (s[i],), it) && it@.contains(t[j]);
                let k = choose|k: int| 0 <= k < it@.len() && it@[k] == t[j];
                let _ = it@[k];
                if let Ok(n) = t[j] { assert((source_in(g, s[i], e))(n)); }
            }
            if forall|j: int| #![trigger t[j]] 0 <= j < t.len() ==> t[j] is Ok {
                assert forall|n: NodeID| #![trigger p(n)] p(n) implies exists|j: int| #![trigger t[j]] 0 <= j < t.len() && t[j] == Ok::<NodeID, GraphAnnisError>(n) by {
                    let i = choose|i: int| #![trigger s[i]] 0 <= i < s.len() && (source_in(g, s[i], e))(n);
                    let it = choose|it: It<Result<NodeID>>| #![trigger call_ensures(f, (s[i],), it)] call_ensures(f, (s[i],), it) && forall|k: int| #![trigger it@[k]] 0 <= k < it@.len() ==> t.contains(it@[k]);
                    assert forall|k: int| #![trigger it@[k]] 0 <= k < it@.len() implies it@[k] is Ok by { let j = choose|j: int| 0 <= j < t.len() && t[j] == it@[k]; let _ = t[j]; }
                    let k = choose|k: int| #![trigger it@[k]] 0 <= k < it@.len() && it@[k] == Ok::<NodeID, GraphAnnisError>(n);
                    let j = choose|j: int| 0 <= j < t.len() && t[j] == it@[k];
                    let _ = t[j];
                }
            }
        }
        r
    }
}
pub open spec fn nodes_once(s: Seq<Result<NodeID>>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() && s[i] is Ok && s[j] is Ok ==> s[i]->Ok_0 != s[j]->Ok_0 }
/// the first occurrence of each node and all errors of a prefix
pub open spec fn news(s: Seq<Result<NodeID>>, n: int, t: Seq<Result<NodeID>>, seen: Set<NodeID>) -> bool {
    &&& nodes_once(t)
    &&& forall|j: int| #![trigger t[j]] 0 <= j < t.len() ==> s.contains(t[j]) && (t[j] is Ok ==> seen.contains(t[j]->Ok_0))
    &&& forall|i: int| #![trigger s[i]] 0 <= i < n ==> (s[i] is Ok ==> seen.contains(s[i]->Ok_0)) && (s[i] is Err ==> exists|j: int| #![trigger t[j]] 0 <= j < t.len() && t[j] is Err)
    &&& forall|x: NodeID| #![trigger seen.contains(x)] seen.contains(x) ==> t.contains(Ok::<NodeID, GraphAnnisError>(x))
}
impl It<Result<NodeID>> {
    /// `filter_ok` with the nodes that are new in the set
    pub fn filter_new(self, visited_nodes: NodeSet, Ghost(p): Ghost<spec_fn(NodeID) -> bool>) -> (r: It<Result<NodeID>>)
        requires lists_nodes(self@, p), visited_nodes@ == Set::<NodeID>::empty(),
        ensures lists_nodes(r@, p), nodes_once(r@),
    {
        let ghost s = self@;
        let mut it = self;
        let mut seen = visited_nodes;
        let mut out: Vec<Result<NodeID>> = Vec::new();
        let ghost mut n: int = 0;
        loop
            invariant 0 <= n <= s.len(), it@ == s.skip(n), news(s, n, out@, seen@),
            ensures n == s.len(),
            decreases it@.len(),
        {
            let ghost o = out@;
            match it.next() {
                None => { break; }
                Some(x) => {
                    proof { assert(x == s[n]); assert(it@ =~= s.skip(n + 1)); }
                    let keep = match &x { Ok(node) => seen.insert(*node), Err(_) => true };
                    let ghost y = x;
                    if keep { out.push(x); }
                    proof {
                        n = n + 1;
                        let t = out@;
                        if keep {
                            assert(t[o.len() as int] == y);
                            assert forall|z: NodeID| #![trigger seen@.contains(z)] seen@.contains(z) implies t.contains(Ok::<NodeID, GraphAnnisError>(z)) by {
                                if o.contains(Ok::<NodeID, GraphAnnisError>(z)) { let j = choose|j: int| 0 <= j < o.len() && o[j] == Ok::<NodeID, GraphAnnisError>(z); assert(t[j] == o[j]); }
                            }
                            assert forall|j: int| #![trigger t[j]] 0 <= j < t.len() implies s.contains(t[j]) && (t[j] is Ok ==> seen@.contains(t[j]->Ok_0)) by { if j < o.len() { assert(t[j] == o[j]); } }
                            assert forall|i: int| #![trigger s[i]] 0 <= i < n implies (s[i] is Ok ==> seen@.contains(s[i]->Ok_0)) && (s[i] is Err ==> exists|j: int| #![trigger t[j]] 0 <= j < t.len() && t[j] is Err) by {
                                if i < n - 1 && s[i] is Err { let j = choose|j: int| #![trigger o[j]] 0 <= j < o.len() && o[j] is Err; assert(t[j] is Err); }
                            }
                            assert forall|i: int, j: int| #![trigger t[i], t[j]] 0 <= i < j < t.len() && t[i] is Ok && t[j] is Ok implies t[i]->Ok_0 != t[j]->Ok_0 by { assert(t[i] == o[i]); if j < o.len() { assert(t[j] == o[j]); } }
                        } else { assert(seen@ =~= seen@.insert(y->Ok_0)); }
                    }
                }
            }
        }
        proof {
            let t = out@;
            assert forall|j: int| #![trigger t[j]] 0 <= j < t.len() implies (t[j] matches Ok(n) ==> p(n)) by { let i = choose|i: int| 0 <= i < s.len() && s[i] == t[j]; let _ = s[i]; }
            if forall|j: int| #![trigger t[j]] 0 <= j < t.len() ==> t[j] is Ok {
                assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies s[i] is Ok by { if s[i] is Err { let j = choose|j: int| #![trigger t[j]] 0 <= j < t.len() && t[j] is Err; let _ = t[j]; } }
                assert forall|x: NodeID| #![trigger p(x)] p(x) implies exists|j: int| #![trigger t[j]] 0 <= j < t.len() && t[j] == Ok::<NodeID, GraphAnnisError>(x) by {
                    let i = choose|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i] == Ok::<NodeID, GraphAnnisError>(x);
                    assert(seen@.contains(s[i]->Ok_0));
                    let j = choose|j: int| 0 <= j < t.len() && t[j] == Ok::<NodeID, GraphAnnisError>(x);
                    let _ = t[j];
                }
            }
        }
        It { v: out }
    }
}
/// the annotations of a node with this name
pub open spec fn keys_of(a: NodeAnnos, q: QName, n: NodeID, s: Seq<Match>) -> bool {
    &&& forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> s[i].node == n && a.has(q, s[i])
    &&& forall|m: Match| #![trigger a.has(q, m)] m.node == n && a.has(q, m) ==> s.contains(m)
    &&& forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> s[i] != s[j]
}
pub open spec fn key_item(a: NodeAnnos, q: QName, x: Result<NodeID>, y: Result<It<Match>>) -> bool { match x { Ok(n) => y matches Ok(it) ==> keys_of(a, q, n, it@), Err(_) => y is Err } }
pub open spec fn key_lists(a: NodeAnnos, q: QName, s: Seq<Result<NodeID>>, t: Seq<Result<It<Match>>>) -> bool { s.len() == t.len() && forall|i: int| #![trigger t[i]] 0 <= i < t.len() ==> key_item(a, q, s[i], t[i]) }
pub open spec fn all_keys(a: NodeAnnos, q: QName, p: spec_fn(NodeID) -> bool) -> spec_fn(Match) -> bool { |m: Match| a.has(q, m) && p(m.node) }
/// the items of the lists and the errors, in any order (`at`: where an item came from)
pub open spec fn flattened(s: Seq<Result<It<Match>>>, t: Seq<Result<Match>>, at: spec_fn(int) -> (int, int)) -> bool {
    &&& forall|j: int| #![trigger t[j]] 0 <= j < t.len() && t[j] is Ok ==> 0 <= at(j).0 < s.len() && s[at(j).0] is Ok && 0 <= at(j).1 < s[at(j).0]->Ok_0@.len() && s[at(j).0]->Ok_0@[at(j).1] == t[j]->Ok_0
    &&& forall|i: int, j: int| #![trigger t[i], t[j]] 0 <= i < j < t.len() && t[i] is Ok && t[j] is Ok ==> at(i) != at(j)
    &&& forall|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i] is Err ==> exists|j: int| #![trigger t[j]] 0 <= j < t.len() && t[j] is Err
    &&& forall|i: int, k: int| #![trigger s[i]->Ok_0@[k]] 0 <= i < s.len() && s[i] is Ok && 0 <= k < s[i]->Ok_0@.len() ==> t.contains(Ok::<Match, GraphAnnisError>(s[i]->Ok_0@[k]))
}
impl NodeAnnos {
    #[verifier::external_body]
    pub fn get_all_keys_for_item(&self, n: &NodeID, ns: Option<&str>, name: Option<&str>) -> (r: Result<Vec<Arc<AnnoKey>>>)
        ensures r matches Ok(v) ==> name matches Some(name) ==> keys_of(*self, (ov(ns), name@), *n, v@.map_values(|k: Arc<AnnoKey>| Match { node: *n, anno_key: k }))
    { unimplemented!() }
}
/// `into_iter().map(..)` over the keys
pub fn key_matches<F: Fn(Arc<AnnoKey>) -> Match>(v: Vec<Arc<AnnoKey>>, Ghost(n): Ghost<NodeID>, f: F) -> (r: It<Match>)
    requires forall|x: Arc<AnnoKey>| #![trigger call_requires(f, (x,))] call_requires(f, (x,)), forall|x: Arc<AnnoKey>, y: Match| #![trigger call_ensures(f, (x,), y)] call_ensures(f, (x,), y) ==> y == (Match { node: n, anno_key: x }),
    ensures r@ == v@.map_values(|k: Arc<AnnoKey>| Match { node: n, anno_key: k }),
{
    let ghost s = v@;
    let r = It { v }.map(f);
    proof { assert forall|i: int| 0 <= i < s.len() implies r@[i] == s.map_values(|k: Arc<AnnoKey>| Match { node: n, anno_key: k })[i] by { let _ = s[i]; } assert(r@ =~= s.map_values(|k: Arc<AnnoKey>| Match { node: n, anno_key: k })); }
    r
}
impl It<Result<NodeID>> {
    /// `map` to the annotations of the nodes
    pub fn with_keys<F: Fn(Result<NodeID>) -> Result<It<Match>>>(self, Ghost(a): Ghost<NodeAnnos>, Ghost(q): Ghost<QName>, Ghost(p): Ghost<spec_fn(NodeID) -> bool>, f: F) -> (r: It<Result<It<Match>>>)
        requires forall|x: Result<NodeID>| #![trigger call_requires(f, (x,))] call_requires(f, (x,)), forall|x: Result<NodeID>, y: Result<It<Match>>| #![trigger call_ensures(f, (x,), y)] call_ensures(f, (x,), y) ==> key_item(a, q, x, y),
            lists_nodes(self@, p), nodes_once(self@),
        ensures exists|s: Seq<Result<NodeID>>| #![trigger key_lists(a, q, s, r@)] key_lists(a, q, s, r@) && lists_nodes(s, p) && nodes_once(s),
    { let ghost s = self@; let r = self.map(f); proof { let t = r@; assert forall|i: int| #![trigger t[i]] 0 <= i < t.len() implies key_item(a, q, s[i], t[i]) by { let _ = s[i]; } assert(key_lists(a, q, s, t)); } r }
}
pub proof fn lemma_flattened(a: NodeAnnos, q: QName, p: spec_fn(NodeID) -> bool, n: Seq<Result<NodeID>>, s: Seq<Result<It<Match>>>, t: Seq<Result<Match>>, at: spec_fn(int) -> (int, int))
    requires key_lists(a, q, n, s), lists_nodes(n, p), nodes_once(n), flattened(s, t, at),
    ensures delivers(t, all_keys(a, q, p), false),
{
    let w = all_keys(a, q, p);
    assert forall|j: int| #![trigger t[j]] 0 <= j < t.len() implies (t[j] matches Ok(m) ==> w(m)) by {
        if t[j] is Ok { let (i, k) = at(j); assert(key_item(a, q, n[i], s[i])); assert(n[i] is Ok); let l = s[i]->Ok_0@; let _ = l[k]; assert(p(n[i]->Ok_0)); }
    }
    assert forall|i: int, j: int| #![trigger t[i], t[j]] 0 <= i < j < t.len() && t[i] is Ok && t[j] is Ok implies t[i]->Ok_0 != t[j]->Ok_0 by {
        let ((x, k), (y, l)) = (at(i), at(j));
        assert(key_item(a, q, n[x], s[x]) && key_item(a, q, n[y], s[y]));
        let (u, v) = (s[x]->Ok_0@, s[y]->Ok_0@);
        assert(u[k].node == n[x]->Ok_0 && v[l].node == n[y]->Ok_0);
        if x == y { if k < l { let _ = (u[k], u[l]); } else { let _ = (u[l], u[k]); } }
        else if x < y { let _ = (n[x], n[y]); } else { let _ = (n[y], n[x]); }
    }
    if forall|j: int| #![trigger t[j]] 0 <= j < t.len() ==> t[j] is Ok {
        assert forall|i: int| #![trigger n[i]] 0 <= i < n.len() implies n[i] is Ok && s[i] is Ok by {
            assert(key_item(a, q, n[i], s[i]));
            if s[i] is Err { let j = choose|j: int| #![trigger t[j]] 0 <= j < t.len() && t[j] is Err; let _ = t[j]; }
        }
        assert forall|m: Match| #![trigger w(m)] w(m) implies exists|j: int| #![trigger t[j]] 0 <= j < t.len() && t[j] == Ok::<Match, GraphAnnisError>(m) by {
            assert(p(m.node));
            let i = choose|i: int| #![trigger n[i]] 0 <= i < n.len() && n[i] == Ok::<NodeID, GraphAnnisError>(m.node);
            assert(key_item(a, q, n[i], s[i]));
            assert(a.has(q, m));
            let l = s[i]->Ok_0@;
            let k = choose|k: int| 0 <= k < l.len() && l[k] == m;
            assert(s[i]->Ok_0@[k] == m);
            let j = choose|j: int| 0 <= j < t.len() && t[j] == Ok::<Match, GraphAnnisError>(m);
            let _ = t[j];
        }
    }
}
impl It<Result<It<Match>>> {
    #[verifier::external_body]
    pub fn flatten(self) -> (r: (It<Result<Match>>, Ghost<spec_fn(int) -> (int, int)>)) ensures flattened(self@, r.0@, r.1@) { unimplemented!() }
    pub fn flatten_ok(self, Ghost(a): Ghost<NodeAnnos>, Ghost(q): Ghost<QName>, Ghost(p): Ghost<spec_fn(NodeID) -> bool>) -> (r: It<Result<Match>>)
        requires exists|s: Seq<Result<NodeID>>| #![trigger key_lists(a, q, s, self@)] key_lists(a, q, s, self@) && lists_nodes(s, p) && nodes_once(s),
        ensures delivers(r@, all_keys(a, q, p), false),
    {
        let ghost s = self@;
        let ghost n = choose|n: Seq<Result<NodeID>>| #![trigger key_lists(a, q, n, s)] key_lists(a, q, n, s) && lists_nodes(n, p) && nodes_once(n);
        let (r, Ghost(at)) = self.flatten();
        proof { lemma_flattened(a, q, p, n, s, r@, at); }
        r
    }
}
/// result of the conditions
pub open spec fn tested(a: NodeAnnos, c: Seq<Cond>, x: Result<Match>, y: Result<Option<MatchGroup>>) -> bool {
    match x {
        Ok(m) => y matches Ok(o) ==> (o is Some <==> conds_ok(c, a, m)) && (o is Some ==> o->0@ == seq![m]),
        Err(_) => y is Err,
    }
}
pub open spec fn kept(a: NodeAnnos, c: Seq<Cond>, p: spec_fn(Match) -> bool) -> spec_fn(Match) -> bool { |m: Match| p(m) && conds_ok(c, a, m) }
/// as `delivers`, `None` stands for a match that has been dropped
pub open spec fn offers(s: Seq<Result<Option<MatchGroup>>>, p: spec_fn(Match) -> bool) -> bool {
    &&& forall|i: int| #![trigger s[i]] 0 <= i < s.len() && is_match(s[i]) ==> s[i]->Ok_0->0@.len() == 1 && p(s[i]->Ok_0->0@[0])
    &&& (forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> s[i] is Ok) ==> forall|m: Match| #![trigger p(m)] p(m) ==> exists|i: int| #![trigger s[i]] 0 <= i < s.len() && is_match(s[i]) && s[i]->Ok_0->0@[0] == m
    &&& forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() && is_match(s[i]) && is_match(s[j]) ==> s[i]->Ok_0->0@[0] != s[j]->Ok_0->0@[0]
}
pub open spec fn is_match(x: Result<Option<MatchGroup>>) -> bool { x is Ok && x->Ok_0 is Some }
impl It<Result<Match>> {
    /// `map` with the test of all conditions
    pub fn test_all<F: Fn(Result<Match>) -> Result<Option<MatchGroup>>>(self, Ghost(a): Ghost<NodeAnnos>, Ghost(c): Ghost<Seq<Cond>>, Ghost(p): Ghost<spec_fn(Match) -> bool>, f: F) -> (r: It<Result<Option<MatchGroup>>>)
        requires forall|x: Result<Match>| #![trigger call_requires(f, (x,))] call_requires(f, (x,)), forall|x: Result<Match>, y: Result<Option<MatchGroup>>| #![trigger call_ensures(f, (x,), y)] call_ensures(f, (x,), y) ==> tested(a, c, x, y),
            delivers(self@, p, false),
        ensures offers(r@, kept(a, c, p)),
    {
        let ghost s = self@;
        let r = self.map(f);
        proof {
            let (t, w) = (r@, kept(a, c, p));
            assert forall|i: int| #![trigger t[i]] 0 <= i < t.len() implies tested(a, c, s[i], t[i]) by { let _ = s[i]; }
            assert forall|i: int| #![trigger t[i]] 0 <= i < t.len() && is_match(t[i]) implies t[i]->Ok_0->0@.len() == 1 && w(t[i]->Ok_0->0@[0]) by { let _ = s[i]; assert(tested(a, c, s[i], t[i])); }
            if forall|i: int| #![trigger t[i]] 0 <= i < t.len() ==> t[i] is Ok {
                assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies s[i] is Ok by { assert(tested(a, c, s[i], t[i])); }
                assert forall|m: Match| #![trigger w(m)] w(m) implies exists|i: int| #![trigger t[i]] 0 <= i < t.len() && is_match(t[i]) && t[i]->Ok_0->0@[0] == m by {
                    assert(p(m));
                    let i = choose|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i] == Ok::<Match, GraphAnnisError>(m);
                    assert(tested(a, c, s[i], t[i]));
                }
            }
            assert forall|i: int, j: int| #![trigger t[i], t[j]] 0 <= i < j < t.len() && is_match(t[i]) && is_match(t[j]) implies t[i]->Ok_0->0@[0] != t[j]->Ok_0->0@[0] by {
                assert(tested(a, c, s[i], t[i]) && tested(a, c, s[j], t[j]));
                let _ = (s[i], s[j]);
            }
        }
        r
    }
}
impl MatchGroup {
    /// `m[0].anno_key = k`
    pub fn set_key(&mut self, k: Arc<AnnoKey>)
        requires old(self)@.len() == 1,
        ensures final(self)@ == seq![keyed(old(self)@[0], Some(k))],
    { let node = self.v[0].node; self.v = vec![Match { node, anno_key: k }]; }
}
/// the result for a match: with a constant annotation only the first match of a node
pub open spec fn finished(m: Option<MatchGroup>, k: Option<Arc<AnnoKey>>, old_seen: Set<NodeID>, seen: Set<NodeID>, r: Option<MatchGroup>) -> bool {
    match (m, k) {
        (None, _) => r is None && seen == old_seen,
        (Some(x), None) => seen == old_seen && (r matches Some(y) && y@ == x@),
        (Some(x), Some(_)) => seen == old_seen.insert(x@[0].node) && (if old_seen.contains(x@[0].node) { r is None } else { r matches Some(y) && y@ == seq![keyed(x@[0], k)] }),
    }
}
//@fn src=graphannis/src/annis/db/exec/nodesearch.rs item=NodeSearch::new_partofcomponentsearch
//@rewrite (?s)^.*?\.filter_map_ok\(move \|m: Option<MatchGroup>\| \{(.*?)\n\s*\}\);.*$ => pub fn finish_match(m: Option<MatchGroup>, visited_const_output: &mut NodeSet, const_output: &Option<Arc<AnnoKey>>) -> (ret: Option<MatchGroup>) requires m matches Some(x) ==> x@.len() == 1, ensures finished(m, *const_output, old(visited_const_output)@, final(visited_const_output)@, ret) {${1} }
//@rewrite? = m\?; => = match m { Some(x) => x, None => { return None; } };
//@rewrite? &const_output => const_output
//@rewrite? m\[0\]\.node => m.v[0].node
//@rewrite? m\[0\]\.anno_key = (.*?); => m.set_key(${1});
//@rewrite? const_output\.clone\(\) => same_key(const_output)
//@end
pub fn same_key(k: &Arc<AnnoKey>) -> (r: Arc<AnnoKey>) ensures r == *k { k.clone() }
pub open spec fn the_match(x: Result<Option<MatchGroup>>) -> Match { x->Ok_0->0@[0] }
pub open spec fn origin(s: Seq<Result<Option<MatchGroup>>>, n: int, k: Option<Arc<AnnoKey>>, m: Match) -> bool { exists|i: int| #![trigger s[i]] 0 <= i < n && is_match(s[i]) && m == keyed(the_match(s[i]), k) }
pub open spec fn listed(t: Seq<Result<MatchGroup>>, m: Match) -> bool { exists|j: int| #![trigger t[j]] 0 <= j < t.len() && t[j] is Ok && t[j]->Ok_0@[0] == m }
pub open spec fn node_listed(t: Seq<Result<MatchGroup>>, n: NodeID) -> bool { exists|j: int| #![trigger t[j]] 0 <= j < t.len() && t[j] is Ok && t[j]->Ok_0@[0].node == n }
pub open spec fn failed(t: Seq<Result<MatchGroup>>) -> bool { exists|j: int| #![trigger t[j]] 0 <= j < t.len() && t[j] is Err }
/// the results of a prefix
pub open spec fn done(s: Seq<Result<Option<MatchGroup>>>, n: int, k: Option<Arc<AnnoKey>>, t: Seq<Result<MatchGroup>>, seen: Set<NodeID>) -> bool {
    &&& forall|j: int| #![trigger t[j]] 0 <= j < t.len() && t[j] is Ok ==> t[j]->Ok_0@.len() == 1 && origin(s, n, k, t[j]->Ok_0@[0]) && (k is Some ==> seen.contains(t[j]->Ok_0@[0].node))
    &&& forall|i: int| #![trigger s[i]] 0 <= i < n && is_match(s[i]) ==> listed(t, keyed(the_match(s[i]), k))
    &&& forall|i: int| #![trigger s[i]] 0 <= i < n && s[i] is Err ==> failed(t)
    &&& forall|x: NodeID| #![trigger seen.contains(x)] seen.contains(x) ==> k is Some && node_listed(t, x)
    &&& forall|i: int, j: int| #![trigger t[i], t[j]] 0 <= i < j < t.len() && t[i] is Ok && t[j] is Ok ==> t[i]->Ok_0@[0] != t[j]->Ok_0@[0]
}
pub proof fn lemma_step(s: Seq<Result<Option<MatchGroup>>>, n: int, k: Option<Arc<AnnoKey>>, o: Seq<Result<MatchGroup>>, t: Seq<Result<MatchGroup>>, seen: Set<NodeID>, seen2: Set<NodeID>, p: spec_fn(Match) -> bool)
    requires done(s, n, k, o, seen), 0 <= n < s.len(), offers(s, p),
        match s[n] {
            Err(_) => t.len() == o.len() + 1 && t[o.len() as int] is Err && seen2 == seen,
            Ok(m) => exists|r: Option<MatchGroup>| #[trigger] finished(m, k, seen, seen2, r) && t == ext(o, r),
        },
        forall|j: int| #![trigger o[j]] 0 <= j < o.len() ==> t.len() >= o.len() && t[j] == o[j],
    ensures done(s, n + 1, k, t, seen2),
{
    assert forall|j: int| #![trigger t[j]] 0 <= j < o.len() implies t[j] == o[j] by { let _ = o[j]; }
    assert forall|m: Match| #![trigger origin(s, n, k, m)] origin(s, n, k, m) implies origin(s, n + 1, k, m) by {
        let i = choose|i: int| #![trigger s[i]] 0 <= i < n && is_match(s[i]) && m == keyed(the_match(s[i]), k);
        let _ = s[i];
    }
    assert(t.len() >= o.len());
    assert forall|m: Match| #![trigger listed(o, m)] listed(o, m) implies listed(t, m) by { let j = choose|j: int| #![trigger o[j]] 0 <= j < o.len() && o[j] is Ok && o[j]->Ok_0@[0] == m; let _ = t[j]; }
    assert forall|x: NodeID| #![trigger node_listed(o, x)] node_listed(o, x) implies node_listed(t, x) by { let j = choose|j: int| #![trigger o[j]] 0 <= j < o.len() && o[j] is Ok && o[j]->Ok_0@[0].node == x; let _ = t[j]; }
    if failed(o) { let j = choose|j: int| #![trigger o[j]] 0 <= j < o.len() && o[j] is Err; let _ = t[j]; assert(failed(t)); }
    let l = o.len() as int;
    match s[n] {
        Err(_) => {
            let _ = t[l];
            assert(failed(t));
        }
        Ok(m) => {
            let r = choose|r: Option<MatchGroup>| #[trigger] finished(m, k, seen, seen2, r) && t == ext(o, r);
            if m is Some {
                let x = m->0@[0];
                assert(is_match(s[n]) && the_match(s[n]) == x);
                if r is Some {
                    assert(t[l] == Ok::<MatchGroup, GraphAnnisError>(r->0));
                    assert(r->0@[0] == keyed(x, k));
                    assert(origin(s, n + 1, k, keyed(x, k)));
                    assert(listed(t, keyed(x, k)));
                    assert(node_listed(t, x.node));
                    assert forall|i: int| #![trigger t[i]] 0 <= i < l && t[i] is Ok implies t[i]->Ok_0@[0] != keyed(x, k) by {
                        let _ = o[i];
                        let a = choose|a: int| #![trigger s[a]] 0 <= a < n && is_match(s[a]) && o[i]->Ok_0@[0] == keyed(the_match(s[a]), k);
                        assert(is_match(s[a]) && is_match(s[n]));
                    }
                } else {
                    assert(node_listed(o, x.node));
                    let j = choose|j: int| #![trigger o[j]] 0 <= j < o.len() && o[j] is Ok && o[j]->Ok_0@[0].node == x.node;
                    let a = choose|a: int| #![trigger s[a]] 0 <= a < n && is_match(s[a]) && o[j]->Ok_0@[0] == keyed(the_match(s[a]), k);
                    assert(o[j]->Ok_0@[0] == keyed(x, k));
                    assert(listed(o, keyed(x, k)));
                    assert(seen2 =~= seen);
                }
            }
        }
    }
    assert forall|j: int| #![trigger t[j]] 0 <= j < t.len() && t[j] is Ok implies t[j]->Ok_0@.len() == 1 && origin(s, n + 1, k, t[j]->Ok_0@[0]) && (k is Some ==> seen2.contains(t[j]->Ok_0@[0].node)) by { if j < l { let _ = o[j]; } }
    assert forall|i: int| #![trigger s[i]] 0 <= i < n + 1 && is_match(s[i]) implies listed(t, keyed(the_match(s[i]), k)) by {}
    assert forall|i: int| #![trigger s[i]] 0 <= i < n + 1 && s[i] is Err implies failed(t) by {}
    assert forall|x: NodeID| #![trigger seen2.contains(x)] seen2.contains(x) implies k is Some && node_listed(t, x) by { if seen.contains(x) {} }
    assert forall|i: int, j: int| #![trigger t[i], t[j]] 0 <= i < j < t.len() && t[i] is Ok && t[j] is Ok implies t[i]->Ok_0@[0] != t[j]->Ok_0@[0] by { if j < l { let _ = (o[i], o[j]); } }
}
pub open spec fn ext(o: Seq<Result<MatchGroup>>, r: Option<MatchGroup>) -> Seq<Result<MatchGroup>> { match r { Some(x) => o.push(Ok::<MatchGroup, GraphAnnisError>(x)), None => o } }
pub proof fn lemma_done(s: Seq<Result<Option<MatchGroup>>>, k: Option<Arc<AnnoKey>>, t: Seq<Result<MatchGroup>>, seen: Set<NodeID>, p: spec_fn(Match) -> bool)
    requires done(s, s.len() as int, k, t, seen), offers(s, p),
    ensures gives(t, image(p, k), false),
{
    let (u, q, n) = (flat(t), image(p, k), s.len() as int);
    assert forall|j: int| #![trigger u[j]] 0 <= j < u.len() implies (u[j] matches Ok(m) ==> q(m)) by {
        let _ = t[j];
        if t[j] is Ok { let i = choose|i: int| #![trigger s[i]] 0 <= i < n && is_match(s[i]) && t[j]->Ok_0@[0] == keyed(the_match(s[i]), k); assert(p(the_match(s[i]))); }
    }
    assert forall|i: int, j: int| #![trigger u[i], u[j]] 0 <= i < j < u.len() && u[i] is Ok && u[j] is Ok implies u[i]->Ok_0 != u[j]->Ok_0 by { let _ = (t[i], t[j]); }
    if forall|j: int| #![trigger u[j]] 0 <= j < u.len() ==> u[j] is Ok {
        assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies s[i] is Ok by { if s[i] is Err { let j = choose|j: int| #![trigger t[j]] 0 <= j < t.len() && t[j] is Err; let _ = u[j]; } }
        assert forall|m: Match| #![trigger q(m)] q(m) implies exists|j: int| #![trigger u[j]] 0 <= j < u.len() && u[j] == Ok::<Match, GraphAnnisError>(m) by {
            let o = choose|o: Match| #[trigger] p(o) && m == keyed(o, k);
            let i = choose|i: int| #![trigger s[i]] 0 <= i < s.len() && is_match(s[i]) && s[i]->Ok_0->0@[0] == o;
            assert(listed(t, keyed(the_match(s[i]), k)));
            let j = choose|j: int| #![trigger t[j]] 0 <= j < t.len() && t[j] is Ok && t[j]->Ok_0@[0] == m;
            let _ = u[j];
        }
    }
    assert forall|j: int| #![trigger t[j]] 0 <= j < t.len() && t[j] is Ok implies t[j]->Ok_0@.len() == 1 by {}
}
impl It<Result<Option<MatchGroup>>> {
    /// `filter_map_ok`
    pub fn finish(self, visited_const_output: NodeSet, const_output: Option<Arc<AnnoKey>>, Ghost(p): Ghost<spec_fn(Match) -> bool>) -> (r: It<Result<MatchGroup>>)
        requires offers(self@, p), visited_const_output@ == Set::<NodeID>::empty(),
        ensures gives(r@, image(p, const_output), false),
    {
        let ghost s = self@;
        let mut it = self;
        let mut seen = visited_const_output;
        let mut out: Vec<Result<MatchGroup>> = Vec::new();
        let ghost mut n: int = 0;
        loop
            invariant 0 <= n <= s.len(), it@ == s.skip(n), offers(s, p), done(s, n, const_output, out@, seen@),
            ensures n == s.len(),
            decreases it@.len(),
        {
            let ghost (o, old_seen) = (out@, seen@);
            match it.next() {
                None => { break; }
                Some(Err(e)) => {
                    proof { assert(s[n] is Err); assert(it@ =~= s.skip(n + 1)); }
                    out.push(Err(e));
                    proof { lemma_step(s, n, const_output, o, out@, old_seen, seen@, p); n = n + 1; }
                }
                Some(Ok(m)) => {
                    proof { assert(s[n] == Ok::<Option<MatchGroup>, GraphAnnisError>(m)); assert(it@ =~= s.skip(n + 1)); if m is Some { assert(is_match(s[n])); } }
                    let r = finish_match(m, &mut seen, &const_output);
                    let ghost gr = r;
                    if let Some(x) = r { out.push(Ok(x)); }
                    proof { assert(out@ == ext(o, gr)); lemma_step(s, n, const_output, o, out@, old_seen, seen@, p); n = n + 1; }
                }
            }
        }
        proof { lemma_done(s, const_output, out@, seen@, p); }
        It { v: out }
    }
}
pub fn same_desc(d: &Arc<NodeSearchDesc>) -> (r: Arc<NodeSearchDesc>) ensures r == *d { d.clone() }
pub fn no_nodes() -> (r: It<Result<NodeID>>) ensures forall|p: spec_fn(NodeID) -> bool| #![trigger lists_nodes(r@, p)] (forall|n: NodeID| !(#[trigger] p(n))) ==> lists_nodes(r@, p) { It { v: Vec::new() } }
#[verifier::external_body]
pub fn copy_desc(d: Option<&ExecutionNodeDesc>) -> Option<ExecutionNodeDesc> { unimplemented!() }
pub open spec fn the_desc(d: Arc<NodeSearchDesc>) -> NodeSearchDesc { *d }
pub open spec fn desc_name(d: Arc<NodeSearchDesc>) -> QName { qview(d.qname) }
/// what the description selects among some nodes
pub open spec fn narrowed(g: AnnotationGraph, d: NodeSearchDesc, p: spec_fn(NodeID) -> bool) -> spec_fn(Match) -> bool { |m: Match| (selects(d, g.annos()))(m) && p(m.node) }
pub proof fn lemma_narrowed(g: AnnotationGraph, d: NodeSearchDesc, p: spec_fn(NodeID) -> bool, it: Seq<Result<MatchGroup>>)
    requires gives(it, image(kept(g.annos(), d.cond@, all_keys(g.annos(), qview(d.qname), p)), d.const_output), false),
    ensures gives(it, narrowed(g, d, p), false),
{
    let w = kept(g.annos(), d.cond@, all_keys(g.annos(), qview(d.qname), p));
    let v = |m: Match| g.annos().has(qview(d.qname), m) && conds_ok(d.cond@, g.annos(), m);
    let (a, b) = (image(w, d.const_output), narrowed(g, d, p));
    assert forall|m: Match| #![trigger a(m)] #![trigger b(m)] a(m) == b(m) by {
        if a(m) { let o = choose|o: Match| #[trigger] w(o) && m == keyed(o, d.const_output); assert(v(o)); }
        if b(m) { let o = choose|o: Match| #[trigger] v(o) && m == keyed(o, d.const_output); assert(w(o)); }
    }
    lemma_same_set(flat(it), a, b, false);
}
impl NodeSearch {
//@fn src=graphannis/src/annis/db/exec/nodesearch.rs item=NodeSearch::new_partofcomponentsearch ret=ret
//@rewrite <'a> =>
//@rewrite &'a => &
//@rewrite components: HashSet<Component<AnnotationComponentType>> => components: It<Component>
//@rewrite node_search_desc_(\d) = node_search_desc\.clone\(\) => node_search_desc_${1} = same_desc(&node_search_desc)
//@rewrite const_output = node_search_desc\.const_output\.clone\(\) => const_output = copy_key(&node_search_desc.const_output)
//@rewrite mut (\w+): HashSet<NodeID> = HashSet::default\(\) => ${1}: NodeSet = NodeSet::new()
//@rewrite (?s)\.flat_map\(\s*move \|c: Component<AnnotationComponentType>\| -> Box<.*?>,\s*> \{ => .flat_nodes(Ghost(*db), Ghost(edge_anno_spec), |c: Component| -> (r: It<Result<NodeID>>) ensures lists_nodes(r@, source_in(*db, c, edge_anno_spec)) {
//@rewrite dyn EdgeAnnotationStorage => EdgeAnnos
//@rewrite ns\.as_ref\(\)\.map\(String::as_str\) => opt_str(ns)
//@rewrite val\.as_ref\(\)\.map\(String::as_str\)\.into\(\) => search_of(opt_str(val))
//@rewrite \.map_ok\(\|m\| m\.node\) => .edge_sources(Ghost(*db), Ghost(c), Ghost(edge_anno_spec), |m: EdgeMatch| -> (r: NodeID) ensures r == m.node { m.node })
//@rewrite Box::new\(std::iter::empty\(\)\) => no_nodes()
//@rewrite Box::new\( => same(
//@rewrite gs\.source_nodes\(\) => all_sources(gs.source_nodes(), Ghost(*db), Ghost(c), Ghost(edge_anno_spec))
//@rewrite \.filter_ok\(move \|node\| (\w+)\.insert\(\*node\)\) => .filter_new(${1}, Ghost(sources(*db, cs, edge_anno_spec)))
//@rewrite \.map\(move \|node\| \{ => .with_keys(Ghost(db.annos()), Ghost(dq), Ghost(sources(*db, cs, edge_anno_spec)), |node: Result<NodeID>| -> (r: Result<It<Match>>) ensures key_item(db.annos(), dq, node, r) {
//@rewrite node_search_desc_1\.clone\(\) => same_desc(&node_search_desc_1)
//@rewrite node_search_desc\.qname\.(\d)\.as_deref\(\) => opt_str(&node_search_desc.qname.${1})
//@rewrite (?s)all_keys\s*\.into_iter\(\)\s*\.map\(move \|anno_key\| Match \{ node, anno_key \}\) => key_matches(all_keys, Ghost(node), |anno_key: Arc<AnnoKey>| -> (r: Match) ensures r == (Match { node, anno_key }) { Match { node, anno_key } })
//@rewrite \.flatten_ok\(\) => .flatten_ok(Ghost(db.annos()), Ghost(dq), Ghost(sources(*db, cs, edge_anno_spec)))
//@rewrite \.map\(move \|m\| match m \{ => .test_all(Ghost(db.annos()), Ghost(node_search_desc.cond@), Ghost(all_keys(db.annos(), dq, sources(*db, cs, edge_anno_spec))), |m0: Result<Match>| -> (r: Result<Option<MatchGroup>>) ensures tested(db.annos(), node_search_desc.cond@, m0, r) { match m0 {
//@rewrite? !cond\(&m, => !cond.check(&m,
//@rewrite? smallvec!\[m\] => single(m)
//@rewrite Err\(e\)\s=>\sErr\(GraphAnnisError::from\(e\)\),\s*\}\) => Err(e) => Err(e), } })
//@rewrite (?s)\.filter_map_ok\(move \|m: Option<MatchGroup>\| \{.*?\n\s*\}\); => .finish(visited_const_output, const_output, Ghost(kept(db.annos(), node_search_desc.cond@, all_keys(db.annos(), dq, sources(*db, cs, edge_anno_spec)))));
//@rewrite desc\.cloned\(\) => copy_desc(desc)
//@rewrite (?s)let mut new_desc = (copy_desc\(desc\));\s*if let Some\(ref mut new_desc\) = new_desc \{[^}]*\} => let new_desc = ${1};
//@spec
    requires node_search_desc.qname.1 is Some,
    ensures ret matches Ok(x) ==> x.node_search_desc == node_search_desc && gives(x.it@, narrowed(*db, *node_search_desc, sources(*db, components@, edge_anno_spec)), false),
//@at fn_start
    let ghost (cs, dq, gd) = (components@, desc_name(node_search_desc), the_desc(node_search_desc));
//@forname 0 CD
//@loop 0
    invariant node_search_desc_2 == node_search_desc, m0 == Ok::<Match, GraphAnnisError>(m), forall|k: int| #![trigger node_search_desc.cond@[k]] 0 <= k < CD.index() ==> node_search_desc.cond@[k].accepts(db.annos(), m),
//@at loop_start 0
    proof { assert(*cond == node_search_desc.cond@[CD.index() as int]); assert(0 <= CD.index() < node_search_desc.cond@.len()); assert(conds_ok(node_search_desc.cond@, db.annos(), m) ==> cond.accepts(db.annos(), m)); }
//@at before_call cloned 0
    proof { lemma_narrowed(*db, gd, sources(*db, cs, edge_anno_spec), it@); }
//@end
}
} // verus!
fn main() {}

