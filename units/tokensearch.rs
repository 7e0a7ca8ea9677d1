// Verus unit: the search for all tokens lists each token (that covers no other node) exactly once
#![allow(unused, non_snake_case)]
use vstd::prelude::*;
use std::sync::Arc;
verus! {
//@include searchlib.inc
pub uninterp spec fn order_component() -> Component;
#[verifier::external_body]
pub fn COMPONENT_ORDER() -> (r: &'static Component) ensures *r == order_component() { unimplemented!() }
impl Gs {
    pub uninterp spec fn ingoing(&self, n: NodeID) -> bool;
    /// there is a path (of any length)
    pub uninterp spec fn reach(&self, a: NodeID, b: NodeID) -> bool;
    pub uninterp spec fn top(&self, n: NodeID) -> bool;
    #[verifier::external_body]
    pub fn has_ingoing_edges(&self, n: NodeID) -> (r: Result<bool>) ensures r matches Ok(b) ==> b == self.ingoing(n) { unimplemented!() }
    /// roots of the component
    #[verifier::external_body]
    pub fn root_nodes(&self) -> (r: It<Result<NodeID>>) ensures lists_nodes(r@, |n: NodeID| self.top(n)), nodes_once(r@) { unimplemented!() }
    /// all reachable nodes with the node itself, each once
    #[verifier::external_body]
    pub fn find_connected(&self, a: NodeID, min: usize, max: Bound) -> (r: It<Result<NodeID>>) ensures min == 0 && max is Unbounded ==> forall|g: AnnotationGraph| #![trigger of_text(g, Some(*self), a)] lists_text(r@, g, Some(*self), a) { unimplemented!() }
}
pub open spec fn nodes_once(s: Seq<Result<NodeID>>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() && s[i] is Ok && s[j] is Ok ==> s[i]->Ok_0 != s[j]->Ok_0 }
pub struct TokenHelper { pub g: Ghost<AnnotationGraph> }
impl TokenHelper {
    #[verifier::external_body]
    pub fn has_outgoing_coverage_edges(&self, n: NodeID) -> (r: Result<bool>) ensures r matches Ok(b) ==> b == !self.g@.leaf(n) { unimplemented!() }
}
pub struct GlobalStatistics { pub all_token_in_order_component: bool }
impl AnnotationGraph {
    pub uninterp spec fn flag(&self) -> bool;
    /// the flag of the global statistics
    #[verifier::external_body]
    pub fn all_token_ordered(&self) -> (r: bool) ensures r == self.flag() { unimplemented!() }
    /// the node has a token annotation and covers no other node
    pub open spec fn token(&self, n: NodeID) -> bool { self.leaf(n) && exists|m: Match| #![trigger self.annos().value(m)] m.node == n && self.annos().has(token_name(), m) }
    /// first token of a text
    pub open spec fn first(&self, o: Option<Gs>, n: NodeID) -> bool { self.token(n) && (o matches Some(o) ==> !o.ingoing(n)) }
    pub open spec fn follows(&self, o: Option<Gs>, a: NodeID, b: NodeID) -> bool { match o { Some(o) => o.reach(a, b), None => a == b } }
    /// the ordering component connects exactly the tokens of each text
    pub open spec fn texts(&self, o: Option<Gs>) -> bool {
        &&& forall|n: NodeID| #![trigger self.token(n)] self.token(n) ==> exists|r: NodeID| #![trigger self.first(o, r)] self.first(o, r) && self.follows(o, r, n)
        &&& forall|r: NodeID, n: NodeID| #![trigger self.first(o, r), self.follows(o, r, n)] self.first(o, r) && self.follows(o, r, n) ==> self.token(n)
        &&& forall|r: NodeID, s: NodeID, n: NodeID| #![trigger self.follows(o, r, n), self.follows(o, s, n)] self.first(o, r) && self.first(o, s) && self.follows(o, r, n) && self.follows(o, s, n) ==> r == s
        &&& self.flag() && o is Some ==> forall|n: NodeID| #![trigger o->0.top(n)] #![trigger self.first(o, n)] o->0.top(n) == self.first(o, n)
    }
}
pub open spec fn token_name() -> QName { (Some(token_spec().ns@), token_spec().name@) }
pub axiom fn axiom_token_name() ensures token_spec().ns@ == "annis"@, token_spec().name@ == "tok"@;
pub struct AnyTokenSearch<'a> { pub desc: Option<ExecutionNodeDesc>, pub node_type_key: Arc<AnnoKey>, pub db: &'a AnnotationGraph, pub token_helper: Option<TokenHelper>, pub order_gs: Option<&'a Gs>, pub root_iterators: Option<Vec<It<Result<NodeID>>>> }
pub open spec fn gs_of(o: Option<&Gs>) -> Option<Gs> { match o { Some(x) => Some(*x), None => None } }
impl<'a> AnyTokenSearch<'a> {
    pub open spec fn ok(&self) -> bool {
        &&& self.db.texts(gs_of(self.order_gs))
        &&& match self.token_helper { Some(t) => t.g@ == *self.db, None => forall|n: NodeID| #![trigger self.db.leaf(n)] self.db.leaf(n) }
    }
    /// nodes that are still to be listed
    pub open spec fn pending(&self) -> Seq<Result<NodeID>> { match self.root_iterators { Some(v) => stacked(v@), None => Seq::empty() } }
}
/// the last list comes first
pub open spec fn stacked(v: Seq<It<Result<NodeID>>>) -> Seq<Result<NodeID>> decreases v.len() { if v.len() == 0 { Seq::empty() } else { v.last()@ + stacked(v.drop_last()) } }
/// without errors each token once and nothing else
pub open spec fn all_tokens(s: Seq<Result<NodeID>>, g: AnnotationGraph) -> bool { lists_nodes(s, |n: NodeID| g.token(n)) && nodes_once(s) }
/// the matches of first tokens, each once
pub open spec fn firsts(v: Seq<Match>, g: AnnotationGraph, o: Option<Gs>) -> bool {
    &&& forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> g.first(o, v[i].node)
    &&& forall|n: NodeID| #![trigger g.first(o, n)] g.first(o, n) ==> exists|i: int| #![trigger v[i]] 0 <= i < v.len() && v[i].node == n
    &&& forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> v[i].node != v[j].node
}
pub enum Bound { Unbounded, Included(usize), Excluded(usize) }
pub open spec fn ok_items<T>(s: Seq<Result<T>>, v: Seq<T>) -> bool { s.len() == v.len() && forall|i: int| #![trigger s[i]] #![trigger v[i]] 0 <= i < s.len() ==> s[i] == Ok::<T, GraphAnnisError>(v[i]) }
impl<T> It<Result<T>> {
    /// `collect` into a result
    #[verifier::external_body]
    pub fn collect_all(self) -> (r: Result<Vec<T>>) ensures r matches Ok(v) ==> ok_items(self@, v@) { unimplemented!() }
}
impl It<Result<Option<Match>>> {
    /// `filter_map_ok` with the identity (`from`: where an item came from)
    #[verifier::external_body]
    pub fn some_of(self) -> (r: (It<Result<Match>>, Ghost<spec_fn(int) -> int>)) ensures somes(self@, r.0@, r.1@) { unimplemented!() }
    pub fn some_only(self, Ghost(g): Ghost<AnnotationGraph>, Ghost(o): Ghost<Option<Gs>>) -> (r: It<Result<Match>>)
        requires cands(self@, g, o),
        ensures forall|v: Seq<Match>| #![trigger ok_items(r@, v)] ok_items(r@, v) ==> firsts(v, g, o),
    {
        let ghost s = self@;
        let (r, Ghost(from)) = self.some_of();
        proof { assert forall|v: Seq<Match>| #![trigger ok_items(r@, v)] ok_items(r@, v) implies firsts(v, g, o) by { lemma_cands(s, r@, from, v, g, o); } }
        r
    }
}
pub open spec fn somes(s: Seq<Result<Option<Match>>>, t: Seq<Result<Match>>, from: spec_fn(int) -> int) -> bool {
    &&& forall|j: int| #![trigger t[j]] 0 <= j < t.len() ==> 0 <= from(j) < s.len() && match t[j] { Ok(m) => s[from(j)] == Ok::<Option<Match>, GraphAnnisError>(Some(m)), Err(_) => s[from(j)] is Err }
    &&& forall|i: int, j: int| #![trigger t[i], t[j]] 0 <= i < j < t.len() ==> from(i) < from(j)
    &&& forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> match s[i] { Ok(None) => true, Ok(Some(m)) => exists|j: int| #![trigger t[j]] 0 <= j < t.len() && t[j] == Ok::<Match, GraphAnnisError>(m), Err(_) => exists|j: int| #![trigger t[j]] 0 <= j < t.len() && t[j] is Err }
}
/// a match for each first token, `None` for other nodes
pub open spec fn cands(s: Seq<Result<Option<Match>>>, g: AnnotationGraph, o: Option<Gs>) -> bool {
    &&& forall|i: int| #![trigger s[i]] 0 <= i < s.len() && is_some(s[i]) ==> g.first(o, s[i]->Ok_0->0.node)
    &&& (forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> s[i] is Ok) ==> forall|n: NodeID| #![trigger g.first(o, n)] g.first(o, n) ==> exists|i: int| #![trigger s[i]] 0 <= i < s.len() && is_some(s[i]) && s[i]->Ok_0->0.node == n
    &&& forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() && is_some(s[i]) && is_some(s[j]) ==> s[i]->Ok_0->0.node != s[j]->Ok_0->0.node
}
pub open spec fn is_some(x: Result<Option<Match>>) -> bool { x is Ok && x->Ok_0 is Some }
pub proof fn lemma_cands(s: Seq<Result<Option<Match>>>, t: Seq<Result<Match>>, from: spec_fn(int) -> int, v: Seq<Match>, g: AnnotationGraph, o: Option<Gs>)
    requires somes(s, t, from), cands(s, g, o), ok_items(t, v),
    ensures firsts(v, g, o),
{
    assert forall|j: int| #![trigger v[j]] 0 <= j < v.len() implies s[from(j)] == Ok::<Option<Match>, GraphAnnisError>(Some(v[j])) && 0 <= from(j) < s.len() && g.first(o, v[j].node) by { let _ = t[j]; let _ = s[from(j)]; }
    assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies s[i] is Ok by { if s[i] is Err { let j = choose|j: int| #![trigger t[j]] 0 <= j < t.len() && t[j] is Err; assert(t[j] == Ok::<Match, GraphAnnisError>(v[j])); } }
    assert forall|n: NodeID| #![trigger g.first(o, n)] g.first(o, n) implies exists|j: int| #![trigger v[j]] 0 <= j < v.len() && v[j].node == n by {
        let i = choose|i: int| #![trigger s[i]] 0 <= i < s.len() && is_some(s[i]) && s[i]->Ok_0->0.node == n;
        let j = choose|j: int| #![trigger t[j]] 0 <= j < t.len() && t[j] == Ok::<Match, GraphAnnisError>(s[i]->Ok_0->0);
        assert(t[j] == Ok::<Match, GraphAnnisError>(v[j]));
        assert(v[j].node == n);
    }
    assert forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() implies v[i].node != v[j].node by { let _ = (t[i], t[j]); let _ = (s[from(i)], s[from(j)]); assert(from(i) < from(j)); }
}
/// the test of a candidate
pub open spec fn candidate(g: AnnotationGraph, o: Option<Gs>, x: Result<Match>, y: Result<Option<Match>>) -> bool {
    match x { Ok(m) => y matches Ok(z) ==> z == (if starts(g, o, m.node) { Some(m) } else { None }), Err(_) => y is Err }
}
pub open spec fn starts(g: AnnotationGraph, o: Option<Gs>, n: NodeID) -> bool { g.leaf(n) && (o matches Some(x) ==> !x.ingoing(n)) }
impl It<Result<Match>> {
    /// `map`
    pub fn candidates<F: Fn(Result<Match>) -> Result<Option<Match>>>(self, Ghost(g): Ghost<AnnotationGraph>, Ghost(o): Ghost<Option<Gs>>, f: F) -> (r: It<Result<Option<Match>>>)
        requires forall|x: Result<Match>| #![trigger call_requires(f, (x,))] call_requires(f, (x,)), forall|x: Result<Match>, y: Result<Option<Match>>| #![trigger call_ensures(f, (x,), y)] call_ensures(f, (x,), y) ==> candidate(g, o, x, y),
            delivers(self@, |m: Match| g.annos().has((Some("annis"@), "tok"@), m) && g.annos().fits(ValueSearch::Any, m), false),
        ensures cands(r@, g, o),
    {
        let ghost (s, p) = (self@, |m: Match| g.annos().has((Some("annis"@), "tok"@), m) && g.annos().fits(ValueSearch::Any, m));
        let r = self.map(f);
        proof {
            axiom_token_name();
            let t = r@;
            assert forall|i: int| #![trigger t[i]] 0 <= i < t.len() implies candidate(g, o, s[i], t[i]) by { let _ = s[i]; }
            assert forall|i: int| #![trigger t[i]] 0 <= i < t.len() && is_some(t[i]) implies g.first(o, t[i]->Ok_0->0.node) && s[i] == Ok::<Match, GraphAnnisError>(t[i]->Ok_0->0) by {
                assert(candidate(g, o, s[i], t[i]));
                let m = s[i]->Ok_0;
                assert(p(m));
                assert(g.annos().has(token_name(), m));
                let _ = g.annos().value(m);
            }
            if forall|i: int| #![trigger t[i]] 0 <= i < t.len() ==> t[i] is Ok {
                assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies s[i] is Ok by { assert(candidate(g, o, s[i], t[i])); }
                assert forall|n: NodeID| #![trigger g.first(o, n)] g.first(o, n) implies exists|i: int| #![trigger t[i]] 0 <= i < t.len() && is_some(t[i]) && t[i]->Ok_0->0.node == n by {
                    let m = choose|m: Match| #![trigger g.annos().value(m)] m.node == n && g.annos().has(token_name(), m);
                    assert(p(m));
                    let i = choose|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i] == Ok::<Match, GraphAnnisError>(m);
                    assert(candidate(g, o, s[i], t[i]));
                }
            }
            assert forall|i: int, j: int| #![trigger t[i], t[j]] 0 <= i < j < t.len() && is_some(t[i]) && is_some(t[j]) implies t[i]->Ok_0->0.node != t[j]->Ok_0->0.node by {
                let (x, y) = (s[i]->Ok_0, s[j]->Ok_0);
                assert(p(x) && p(y));
                axiom_key_ext(*x.anno_key, *y.anno_key);
            }
        }
        r
    }
}
impl It<Result<NodeID>> {
    /// `map_ok`
    pub fn key_roots<F: Fn(NodeID) -> Match>(self, Ghost(g): Ghost<AnnotationGraph>, Ghost(o): Ghost<Option<Gs>>, f: F) -> (r: It<Result<Match>>)
        requires forall|x: NodeID| #![trigger call_requires(f, (x,))] call_requires(f, (x,)), forall|x: NodeID, y: Match| #![trigger call_ensures(f, (x,), y)] call_ensures(f, (x,), y) ==> y.node == x,
            o is Some, lists_nodes(self@, |n: NodeID| o->0.top(n)), nodes_once(self@), g.texts(o), g.flag(),
        ensures forall|v: Seq<Match>| #![trigger ok_items(r@, v)] ok_items(r@, v) ==> firsts(v, g, o),
    {
        let ghost (s, p) = (self@, |n: NodeID| o->0.top(n));
        let r = self.map_ok(f);
        proof {
            let t = r@;
            assert forall|v: Seq<Match>| #![trigger ok_items(t, v)] ok_items(t, v) implies firsts(v, g, o) by {
                assert forall|i: int| #![trigger v[i]] 0 <= i < v.len() implies s[i] == Ok::<NodeID, GraphAnnisError>(v[i].node) && g.first(o, v[i].node) by { let _ = t[i]; let _ = s[i]; assert(s[i] is Ok); assert(p(v[i].node)); }
                assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies s[i] is Ok by { let _ = v[i]; }
                assert forall|n: NodeID| #![trigger g.first(o, n)] g.first(o, n) implies exists|i: int| #![trigger v[i]] 0 <= i < v.len() && v[i].node == n by {
                    assert(p(n));
                    let i = choose|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i] == Ok::<NodeID, GraphAnnisError>(n);
                    let _ = v[i];
                }
                assert forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() implies v[i].node != v[j].node by { let _ = (s[i], s[j]); }
            }
        }
        r
    }
}
/// a permutation has the same items and repeats none
pub open spec fn permuted(a: Seq<Match>, b: Seq<Match>) -> bool { (forall|m: Match| #![trigger a.contains(m)] #![trigger b.contains(m)] a.contains(m) == b.contains(m)) && (a.no_duplicates() ==> b.no_duplicates()) }
/// any order: sorting permutes (P01)
#[verifier::external_body]
pub fn sort_roots(v: &mut Vec<Match>) -> (r: Result<()>) ensures r is Ok ==> permuted(old(v)@, final(v)@) { unimplemented!() }
pub proof fn lemma_sorted(a: Seq<Match>, b: Seq<Match>, g: AnnotationGraph, o: Option<Gs>)
    requires firsts(a, g, o), permuted(a, b),
    ensures firsts(b, g, o),
{
    assert(a.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() && i != j implies a[i] != a[j] by { if i < j { assert(a[i].node != a[j].node); } else { assert(a[j].node != a[i].node); } } }
    assert forall|i: int| #![trigger b[i]] 0 <= i < b.len() implies g.first(o, b[i].node) by { assert(b.contains(b[i])); assert(a.contains(b[i])); let k = choose|k: int| 0 <= k < a.len() && a[k] == b[i]; let _ = a[k]; }
    assert forall|n: NodeID| #![trigger g.first(o, n)] g.first(o, n) implies exists|i: int| #![trigger b[i]] 0 <= i < b.len() && b[i].node == n by {
        let k = choose|k: int| #![trigger a[k]] 0 <= k < a.len() && a[k].node == n;
        assert(a.contains(a[k]));
        assert(b.contains(a[k]));
        let i = choose|i: int| 0 <= i < b.len() && b[i] == a[k];
        let _ = b[i];
    }
    assert forall|i: int, j: int| #![trigger b[i], b[j]] 0 <= i < j < b.len() implies b[i].node != b[j].node by {
        assert(b.contains(b[i]) && b.contains(b[j]));
        assert(a.contains(b[i]) && a.contains(b[j]));
        let k = choose|k: int| 0 <= k < a.len() && a[k] == b[i];
        let l = choose|l: int| 0 <= l < a.len() && a[l] == b[j];
        assert(b[i] != b[j]);
        if k < l { assert(a[k].node != a[l].node); } else { assert(a[l].node != a[k].node); }
    }
}
pub fn sort_by_text(v: &mut Vec<Match>, Ghost(g): Ghost<AnnotationGraph>, Ghost(o): Ghost<Option<Gs>>) -> (r: Result<()>)
    requires firsts(old(v)@, g, o),
    ensures r is Ok ==> firsts(final(v)@, g, o),
{
    let ghost a = v@;
    let r = sort_roots(v);
    proof { if r is Ok { lemma_sorted(a, v@, g, o); } }
    r
}
/// the list of a text
pub open spec fn lists_text(s: Seq<Result<NodeID>>, g: AnnotationGraph, o: Option<Gs>, root: NodeID) -> bool { lists_nodes(s, of_text(g, o, root)) && nodes_once(s) }
pub open spec fn text_lists(v: Seq<It<Result<NodeID>>>, roots: Seq<Match>, k: int, g: AnnotationGraph, o: Option<Gs>) -> bool { v.len() == k && forall|i: int| #![trigger v[i]] 0 <= i < k ==> lists_text(v[i]@, g, o, roots[i].node) }
pub open spec fn some_text(g: AnnotationGraph, o: Option<Gs>, roots: Seq<Match>, k: int, n: NodeID) -> bool { exists|i: int| #![trigger roots[i]] 0 <= i < k && g.follows(o, roots[i].node, n) }
/// the list of one more text in front
pub proof fn lemma_join(a: Seq<Result<NodeID>>, b: Seq<Result<NodeID>>, p: spec_fn(NodeID) -> bool, q: spec_fn(NodeID) -> bool, r: spec_fn(NodeID) -> bool)
    requires lists_nodes(a, r), lists_nodes(b, q), nodes_once(a), nodes_once(b), forall|n: NodeID| #![trigger p(n)] #![trigger q(n)] #![trigger r(n)] p(n) == (q(n) || r(n)) && !(q(n) && r(n)),
    ensures lists_nodes(a + b, p), nodes_once(a + b),
{
    let s = a + b;
    let l = a.len() as int;
    assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies (s[i] matches Ok(n) ==> p(n) && (if i < l { r(n) } else { q(n) })) by { if i < l { assert(s[i] == a[i]); } else { assert(s[i] == b[i - l]); } }
    if forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> s[i] is Ok {
        assert forall|i: int| #![trigger a[i]] 0 <= i < a.len() implies a[i] is Ok by { assert(s[i] == a[i]); }
        assert forall|i: int| #![trigger b[i]] 0 <= i < b.len() implies b[i] is Ok by { assert(s[i + l] == b[i]); }
        assert forall|n: NodeID| #![trigger p(n)] p(n) implies exists|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i] == Ok::<NodeID, GraphAnnisError>(n) by {
            if r(n) { let i = choose|i: int| #![trigger a[i]] 0 <= i < a.len() && a[i] == Ok::<NodeID, GraphAnnisError>(n); assert(s[i] == a[i]); }
            else { assert(q(n)); let i = choose|i: int| #![trigger b[i]] 0 <= i < b.len() && b[i] == Ok::<NodeID, GraphAnnisError>(n); assert(s[i + l] == b[i]); }
        }
    }
    assert forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() && s[i] is Ok && s[j] is Ok implies s[i]->Ok_0 != s[j]->Ok_0 by {
        if j < l { assert(s[i] == a[i] && s[j] == a[j]); }
        else if i >= l { assert(s[i] == b[i - l] && s[j] == b[j - l]); }
        else { assert(r(s[i]->Ok_0) && q(s[j]->Ok_0)); }
    }
}
pub open spec fn some_of_texts(g: AnnotationGraph, o: Option<Gs>, roots: Seq<Match>, k: int) -> spec_fn(NodeID) -> bool { |n: NodeID| some_text(g, o, roots, k, n) }
pub open spec fn of_text(g: AnnotationGraph, o: Option<Gs>, root: NodeID) -> spec_fn(NodeID) -> bool { |n: NodeID| g.follows(o, root, n) }
pub proof fn lemma_stacked(v: Seq<It<Result<NodeID>>>, roots: Seq<Match>, g: AnnotationGraph, o: Option<Gs>)
    requires text_lists(v, roots, v.len() as int, g, o), v.len() <= roots.len(), g.texts(o), firsts(roots, g, o),
    ensures lists_nodes(stacked(v), some_of_texts(g, o, roots, v.len() as int)), nodes_once(stacked(v)),
    decreases v.len(),
{
    let k = v.len() as int;
    let p = some_of_texts(g, o, roots, k);
    if k > 0 {
        let w = v.drop_last();
        assert(text_lists(w, roots, k - 1, g, o)) by { assert forall|i: int| #![trigger w[i]] 0 <= i < k - 1 implies lists_text(w[i]@, g, o, roots[i].node) by { let _ = v[i]; } }
        lemma_stacked(w, roots, g, o);
        let (q, r) = (some_of_texts(g, o, roots, k - 1), of_text(g, o, roots[k - 1].node));
        assert(lists_text(v[k - 1]@, g, o, roots[k - 1].node));
        assert forall|n: NodeID| #![trigger p(n)] #![trigger q(n)] #![trigger r(n)] p(n) == (q(n) || r(n)) && !(q(n) && r(n)) by { lemma_text_step(roots, g, o, k, n); }
        lemma_join(v[k - 1]@, stacked(w), p, q, r);
    } else {
        assert(stacked(v) =~= Seq::<Result<NodeID>>::empty());
        assert forall|n: NodeID| #![trigger p(n)] !p(n) by { assert(!some_text(g, o, roots, 0, n)); }
    }
}
pub proof fn lemma_text_step(roots: Seq<Match>, g: AnnotationGraph, o: Option<Gs>, k: int, n: NodeID)
    requires 0 < k <= roots.len(), g.texts(o), firsts(roots, g, o),
    ensures some_text(g, o, roots, k, n) == (some_text(g, o, roots, k - 1, n) || g.follows(o, roots[k - 1].node, n)), !(some_text(g, o, roots, k - 1, n) && g.follows(o, roots[k - 1].node, n)),
{
    if some_text(g, o, roots, k, n) { let j = choose|j: int| #![trigger roots[j]] 0 <= j < k && g.follows(o, roots[j].node, n); if j < k - 1 { let _ = roots[j]; assert(some_text(g, o, roots, k - 1, n)); } }
    if some_text(g, o, roots, k - 1, n) {
        let j = choose|j: int| #![trigger roots[j]] 0 <= j < k - 1 && g.follows(o, roots[j].node, n);
        assert(g.first(o, roots[j].node) && g.first(o, roots[k - 1].node));
        assert(roots[j].node != roots[k - 1].node);
        assert(some_text(g, o, roots, k, n));
    }
    if g.follows(o, roots[k - 1].node, n) { let _ = roots[k - 1]; }
}
pub proof fn lemma_all(v: Seq<It<Result<NodeID>>>, roots: Seq<Match>, g: AnnotationGraph, o: Option<Gs>)
    requires text_lists(v, roots, roots.len() as int, g, o), g.texts(o), firsts(roots, g, o),
    ensures all_tokens(stacked(v), g),
{
    lemma_stacked(v, roots, g, o);
    let (s, p, q) = (stacked(v), some_of_texts(g, o, roots, roots.len() as int), |n: NodeID| g.token(n));
    assert forall|n: NodeID| #![trigger p(n)] #![trigger q(n)] p(n) == q(n) by {
        if p(n) { let j = choose|j: int| #![trigger roots[j]] 0 <= j < roots.len() && g.follows(o, roots[j].node, n); assert(g.first(o, roots[j].node)); }
        if q(n) { let r = choose|r: NodeID| #![trigger g.first(o, r)] g.first(o, r) && g.follows(o, r, n); let j = choose|j: int| #![trigger roots[j]] 0 <= j < roots.len() && roots[j].node == r; let _ = roots[j]; }
    }
    assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies (s[i] matches Ok(n) ==> q(n)) by { if let Ok(n) = s[i] { assert(p(n)); } }
    if forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> s[i] is Ok {
        assert forall|n: NodeID| #![trigger q(n)] q(n) implies exists|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i] == Ok::<NodeID, GraphAnnisError>(n) by { assert(p(n)); }
    }
}
/// an error says nothing about the tokens
pub proof fn lemma_failed(v: Seq<It<Result<NodeID>>>, g: AnnotationGraph)
    ensures v.len() == 1 && v[0]@.len() == 1 && v[0]@[0] is Err ==> all_tokens(stacked(v), g),
{
    if v.len() == 1 && v[0]@.len() == 1 && v[0]@[0] is Err {
        assert(stacked(v.drop_last()) =~= Seq::<Result<NodeID>>::empty());
        assert(stacked(v) =~= v[0]@);
        assert(stacked(v)[0] is Err);
    }
}
pub fn failed(it: It<Result<NodeID>>, Ghost(g): Ghost<AnnotationGraph>) -> (r: Vec<It<Result<NodeID>>>)
    requires it@.len() == 1 && it@[0] is Err,
    ensures all_tokens(stacked(r@), g),
{
    let r = vec![it];
    proof { assert(r@ == seq![it]); lemma_failed(r@, g); }
    r
}
pub fn one_error(e: GraphAnnisError) -> (r: It<Result<NodeID>>) ensures r@ == seq![Err::<NodeID, GraphAnnisError>(e)] { let r = It { v: vec![Err(e)] }; proof { assert(r@ == seq![Err::<NodeID, GraphAnnisError>(e)]); } r }
pub fn one_node(n: NodeID) -> (r: It<Result<NodeID>>) ensures forall|g: AnnotationGraph| #![trigger of_text(g, None, n)] lists_text(r@, g, None, n)
{
    let r = It { v: vec![Ok(n)] };
    proof {
        assert forall|g: AnnotationGraph| #![trigger of_text(g, None, n)] lists_text(r@, g, None, n) by {
            let p = of_text(g, None, n);
            assert(r@ == seq![Ok::<NodeID, GraphAnnisError>(n)]);
            assert(p(n));
            assert(r@[0] == Ok::<NodeID, GraphAnnisError>(n));
            assert forall|m: NodeID| #![trigger p(m)] p(m) implies exists|i: int| #![trigger r@[i]] 0 <= i < r@.len() && r@[i] == Ok::<NodeID, GraphAnnisError>(m) by { assert(m == n); assert(r@[0] == Ok::<NodeID, GraphAnnisError>(m)); }
        }
    }
    r
}
/// the next node of the last list
#[verifier::external_body]
pub fn next_at(v: &mut Vec<It<Result<NodeID>>>, i: usize) -> (r: Option<Result<NodeID>>)
    requires i < old(v)@.len(),
    ensures final(v)@.len() == old(v)@.len(), final(v)@ == old(v)@.update(i as int, final(v)@[i as int]),
        r is None <==> old(v)@[i as int]@.len() == 0, r is None ==> final(v)@[i as int]@ == old(v)@[i as int]@,
        r matches Some(x) ==> x == old(v)@[i as int]@[0] && final(v)@[i as int]@ == old(v)@[i as int]@.drop_first(),
{ unimplemented!() }
pub open spec fn shown(p: Seq<Result<NodeID>>, rest: Seq<Result<NodeID>>, k: Arc<AnnoKey>, r: Option<Result<MatchGroup>>) -> bool {
    match r {
        None => p.len() == 0 && rest.len() == 0,
        Some(x) => p.len() > 0 && rest == p.drop_first() && match p[0] { Ok(n) => x is Ok && x->Ok_0@ == seq![Match { node: n, anno_key: k }], Err(_) => x is Err },
    }
}
pub proof fn lemma_top(v: Seq<It<Result<NodeID>>>)
    requires v.len() > 0,
    ensures stacked(v) == v.last()@ + stacked(v.drop_last()), v.last()@.len() == 0 ==> stacked(v) == stacked(v.drop_last()),
        forall|w: Seq<It<Result<NodeID>>>| #![trigger stacked(w)] w.len() == v.len() && w.drop_last() == v.drop_last() && v.last()@.len() > 0 && w.last()@ == v.last()@.drop_first() ==> stacked(w) == stacked(v).drop_first() && stacked(v)[0] == v.last()@[0] && stacked(v).len() > 0,
{
    if v.last()@.len() == 0 { assert(v.last()@ + stacked(v.drop_last()) =~= stacked(v.drop_last())); }
    assert forall|w: Seq<It<Result<NodeID>>>| #![trigger stacked(w)] w.len() == v.len() && w.drop_last() == v.drop_last() && v.last()@.len() > 0 && w.last()@ == v.last()@.drop_first() implies stacked(w) == stacked(v).drop_first() && stacked(v)[0] == v.last()@[0] && stacked(v).len() > 0 by {
        assert(stacked(w) =~= stacked(v).drop_first());
    }
}
impl<'a> AnyTokenSearch<'a> {
//@fn src=graphannis/src/annis/db/exec/tokensearch.rs item=AnyTokenSearch::is_root_tok ret=ret
//@rewrite? Some\(ref (\w+)\) = self\.(\w+) => Some(${1}) = &self.${2}
//@spec
    requires self.ok(),
    ensures ret matches Ok(b) ==> b == starts(*self.db, gs_of(self.order_gs), n),
//@end
//@fn src=graphannis/src/annis/db/exec/tokensearch.rs item=AnyTokenSearch::create_new_root_iterator ret=ret
//@rewrite Box<dyn Iterator<Item = Result<(?:NodeID|u64)>>(?: \+ 'a)?> => It<Result<NodeID>>
//@rewrite (?s)self\s*\.db\s*\.global_statistics\s*\.as_ref\(\)\s*\.map\(\|(\w+)\| \w+\.all_token_in_order_component\)\s*\.unwrap_or\(false\) => self.db.all_token_ordered()
//@rewrite std::result::Result<Vec<_>, GraphAnnisCoreError> => Result<Vec<Match>>
//@rewrite Result<Vec<_>> => Result<Vec<Match>>
//@rewrite \.map_ok\(\|n\| Match (\{[^}]*\})\) => .key_roots(Ghost(*self.db), Ghost(gs_of(self.order_gs)), |n: NodeID| -> (r: Match) ensures r.node == n { Match ${1} })
//@rewrite NODE_TYPE_KEY\.clone\(\) => NODE_TYPE_key()
//@rewrite \.collect\(\) => .collect_all()
//@rewrite None\.into\(\) => search_of(None)
//@rewrite \.map\(\|tok_candidate\| -> Result<Option<Match>> \{ => .candidates(Ghost(*self.db), Ghost(gs_of(self.order_gs)), |tok_candidate0: Result<Match>| -> (r: Result<Option<Match>>) ensures candidate(*self.db, gs_of(self.order_gs), tok_candidate0, r) { let tok_candidate = tok_candidate0;
//@rewrite \.filter_map_ok\(\|m\| m\) => .some_only(Ghost(*self.db), Ghost(gs_of(self.order_gs)))
//@rewrite (?s)let mut cache = SortCache::new\(.*?\);\s*quicksort::sort\(&mut root_nodes, \|a, b\| \{.*?\n        \}\)\? => sort_by_text(&mut root_nodes, Ghost(*self.db), Ghost(gs_of(self.order_gs)))?
//@rewrite std::ops::Bound => Bound
//@rewrite Box::from\(vec!\[Ok\(root\.node\)\]\.into_iter\(\)\) => one_node(root.node)
//@rewrite Box::new\((\w+)\.map\(\|it\| it\.map_err\(\|e\| e\.into\(\)\)\)\) => ${1}
//@forname 0 ROOTS
//@spec
    requires self.ok(),
    ensures ret matches Ok(v) ==> all_tokens(stacked(v@), *self.db),
//@at before_loop 0
    let ghost roots = root_nodes@;
//@loop 0
    invariant self.ok(), firsts(roots, *self.db, gs_of(self.order_gs)), ROOTS.seq() == roots, text_lists(root_iterators@, roots, ROOTS.index() as int, *self.db, gs_of(self.order_gs)),
//@at loop_start 0
    let ghost before = root_iterators@;
    proof { assert(root == roots[ROOTS.index() as int]); }
//@at loop_end 0
    proof {
        let _ = of_text(*self.db, gs_of(self.order_gs), root.node);
        assert(lists_text(root_iterators@.last()@, *self.db, gs_of(self.order_gs), root.node));
        assert forall|i: int| #![trigger root_iterators@[i]] 0 <= i < before.len() implies root_iterators@[i] == before[i] by { }
    }
//@at fn_end
    proof { lemma_all(root_iterators@, roots, *self.db, gs_of(self.order_gs)); }
//@end
//@fn src=graphannis/src/annis/db/exec/tokensearch.rs item=AnyTokenSearch::get_root_iterators ret=ret
//@rewrite Box<dyn Iterator<Item = Result<(?:NodeID|u64)>>(?: \+ 'a)?> => It<Result<NodeID>>
//@rewrite if let Some\(ref mut root_iterators\) = self\.root_iterators \{\s*root_iterators\s*\} => if self.root_iterators.is_some() { self.root_iterators.as_mut().unwrap() }
//@rewrite std::iter::once\(Err\((\w+)\)\) => one_error(${1})
//@rewrite vec!\[Box::new\((\w+)\)\] => failed(${1}, Ghost(*self.db))
//@spec
    requires old(self).ok(),
    ensures old(self).root_iterators matches Some(v) ==> *ret == v,
        old(self).root_iterators is None ==> all_tokens(stacked(ret@), *old(self).db),
        final(self).root_iterators == Some(*final(ret)),
        final(self).db == old(self).db && final(self).token_helper == old(self).token_helper && final(self).order_gs == old(self).order_gs && final(self).node_type_key == old(self).node_type_key,
//@end
}
impl<'a> AnyTokenSearch<'a> {
//@fn src=graphannis/src/annis/db/exec/tokensearch.rs item="Iterator for AnyTokenSearch::next" ret=ret
//@rewrite? Self::Item => Result<MatchGroup>
//@rewrite let it = &mut root_iterators\[(\w+) - 1\]; => let it = ${1} - 1;
//@rewrite it\.next\(\) => next_at(root_iterators, it)
//@rewrite smallvec!\[(Match \{[^}]*\})\] => single(${1})
//@rewrite return result; => proof { let w = root_iterators@; assert(w.drop_last() =~= before.drop_last()); assert(stacked(w) == p.drop_first()); } return result;
//@rewrite while !root => #[verifier::loop_isolation(false)] while !root
//@spec
    requires old(self).ok(),
    ensures final(self).ok(), final(self).db == old(self).db, final(self).root_iterators is Some, final(self).node_type_key == old(self).node_type_key,
        old(self).root_iterators is Some ==> shown(old(self).pending(), final(self).pending(), old(self).node_type_key, ret),
        old(self).root_iterators is None ==> exists|p: Seq<Result<NodeID>>| all_tokens(p, *old(self).db) && shown(p, final(self).pending(), old(self).node_type_key, ret),
//@at before_loop 0
    let ghost p = stacked(root_iterators@);
//@loop 0
    invariant p == stacked(root_iterators@),
    decreases root_iterators@.len(),
//@at loop_start 0
    let ghost before = root_iterators@;
    proof { lemma_top(before); }
//@at loop_end 0
    proof { assert(root_iterators@ =~= before.drop_last()); }
//@end
}
} // verus!
fn main() {}
