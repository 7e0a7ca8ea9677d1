// shared by the operator units: storages, annotations and iterators as contracts
pub type NodeID = u64;
#[derive(Debug)]
pub struct GraphAnnisError { pub code: u64 }
pub type Result<T> = std::result::Result<T, GraphAnnisError>;
//@item src=core/src/types.rs item="struct AnnoKey"
//@item src=core/src/types.rs item="struct Annotation"
//@item src=core/src/types.rs item="struct Edge"
//@item src=core/src/annostorage/mod.rs item="struct Match"
#[verifier::external_body]
pub fn token_key() -> Arc<AnnoKey> { unimplemented!() }
#[verifier::external_body]
pub fn default_anno_key() -> Arc<AnnoKey> { unimplemented!() }
impl Clone for Match { fn clone(&self) -> (r: Match) ensures r == *self { Match { node: self.node, anno_key: self.anno_key.clone() } } }

/// a lazy iterator of the code is the vector of the items it delivers
pub struct It<T> { pub v: Vec<T> }
impl<T> View for It<T> { type V = Seq<T>; open spec fn view(&self) -> Seq<T> { self.v@ } }
pub open spec fn lists(r: Seq<Result<NodeID>>, s: Seq<NodeID>) -> bool {
    r.len() == s.len() && forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> (r[i] matches Ok(x) ==> x == s[i])
}
/// without errors exactly the nodes of a set, with errors some of them
pub open spec fn lists_all<T>(r: Seq<Result<T>>, p: spec_fn(T) -> bool) -> bool {
    &&& forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> (r[i] matches Ok(x) ==> p(x))
    &&& (forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> r[i] is Ok) ==> forall|n: T| #![trigger p(n)] p(n) ==> exists|i: int| #![trigger r[i]] 0 <= i < r.len() && r[i] == Ok::<T, GraphAnnisError>(n)
}
pub open spec fn partners(r: Seq<Result<Match>>, p: spec_fn(NodeID) -> bool) -> bool {
    &&& forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> (r[i] matches Ok(x) ==> p(x.node))
    &&& (forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> r[i] is Ok) ==> forall|n: NodeID| #![trigger p(n)] p(n) ==> exists|i: int| #![trigger r[i]] 0 <= i < r.len() && r[i] is Ok && r[i]->Ok_0.node == n
}
pub open spec fn first(s: Seq<NodeID>) -> Option<NodeID> { if s.len() > 0 { Some(s[0]) } else { None } }

impl<T> It<T> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures r is None <==> old(self)@.len() == 0, r is None ==> final(self)@ == old(self)@, r matches Some(x) ==> x == old(self)@[0] && final(self)@ == old(self)@.subrange(1, old(self)@.len() as int),
    { unimplemented!() }
    pub fn fuse(self) -> (r: It<T>) ensures r@ == self@ { self }
    pub fn into_iter(self) -> (r: Vec<T>) ensures r@ == self@ { self.v }
    #[verifier::external_body]
    pub fn map<B, F: Fn(T) -> B>(self, f: F) -> (r: It<B>)
        requires forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() ==> call_requires(f, (self@[i],)),
        ensures r@.len() == self@.len(), forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < r@.len() ==> call_ensures(f, (self@[i],), r@[i]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn chain(self, o: It<T>) -> (r: It<T>) ensures r@ == self@ + o@ { unimplemented!() }
}
pub fn it_once<T>(x: T) -> (r: It<T>) ensures r@ == seq![x] { It { v: vec![x] } }
pub fn it_empty<T>() -> (r: It<T>) ensures r@ == Seq::<T>::empty() { It { v: Vec::new() } }
/// the only item is an error
pub fn it_err(e: GraphAnnisError) -> (r: It<Result<Match>>)
    ensures r@.len() == 1, r@[0] is Err, forall|p: spec_fn(NodeID) -> bool| #![trigger partners(r@, p)] partners(r@, p),
{
    let r = It { v: vec![Err(e)] };
    proof { assert forall|p: spec_fn(NodeID) -> bool| #![trigger partners(r@, p)] partners(r@, p) by { let _ = r@[0]; } }
    r
}
impl<T> It<Result<T>> {
    #[verifier::external_body]
    pub fn map_ok<B, F: Fn(T) -> B>(self, f: F) -> (r: It<Result<B>>)
        requires forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() && self@[i] is Ok ==> call_requires(f, (self@[i]->Ok_0,)),
        ensures r@.len() == self@.len(), forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < r@.len() ==> match self@[i] { Ok(x) => r@[i] is Ok && call_ensures(f, (x,), r@[i]->Ok_0), Err(_) => r@[i] is Err },
    { unimplemented!() }
}
impl It<Result<NodeID>> {
    /// all items or the first error
    #[verifier::external_body]
    pub fn collect_set(self) -> (r: Result<NodeSet>)
        ensures r matches Ok(s) ==> (forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() ==> self@[i] is Ok && s@.contains(self@[i]->Ok_0)) && forall|n: NodeID| #![trigger s@.contains(n)] s@.contains(n) ==> exists|i: int| #![trigger self@[i]] 0 <= i < self@.len() && self@[i] == Ok::<NodeID, GraphAnnisError>(n),
    { unimplemented!() }
}
/// hash set of nodes
#[verifier::external_body]
pub struct NodeSet { x: u8 }
impl View for NodeSet { type V = Set<NodeID>; uninterp spec fn view(&self) -> Set<NodeID>; }
impl NodeSet {
    #[verifier::external_body]
    pub fn default() -> (r: NodeSet) ensures r@ == Set::<NodeID>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, n: NodeID) -> (r: bool) ensures final(self)@ == old(self)@.insert(n) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: It<NodeID>)
        ensures (forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> self@.contains(r@[i])), forall|n: NodeID| #![trigger self@.contains(n)] self@.contains(n) ==> exists|i: int| #![trigger r@[i]] 0 <= i < r@.len() && r@[i] == n,
    { unimplemented!() }
}
#[verifier::external_body]
pub fn it_extend(v: &mut Vec<Result<Match>>, o: It<Result<Match>>) ensures final(v)@ == old(v)@ + o@ { unimplemented!() }
impl It<Result<Option<NodeID>>> {
    /// filter_map_ok with the identity: leaves out the empty items
    #[verifier::external_body]
    pub fn filter_some_ok(self) -> (r: It<Result<NodeID>>)
        ensures forall|k: int| #![trigger r@[k]] 0 <= k < r@.len() ==> (r@[k] matches Ok(n) ==> exists|i: int| #![trigger self@[i]] 0 <= i < self@.len() && self@[i] == Ok::<Option<NodeID>, GraphAnnisError>(Some(n))),
            forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() ==> match self@[i] { Ok(Some(n)) => exists|k: int| #![trigger r@[k]] 0 <= k < r@.len() && r@[k] == Ok::<NodeID, GraphAnnisError>(n), Ok(None) => true, Err(_) => exists|k: int| #![trigger r@[k]] 0 <= k < r@.len() && r@[k] is Err },
    { unimplemented!() }
}
pub open spec fn flat<T>(v: Seq<Result<It<T>>>, r: Seq<Result<T>>) -> bool {
    &&& forall|k: int| #![trigger r[k]] 0 <= k < r.len() ==> (r[k] matches Ok(x) ==> exists|i: int, j: int| #![trigger v[i]->Ok_0@[j]] 0 <= i < v.len() && v[i] is Ok && 0 <= j < v[i]->Ok_0@.len() && v[i]->Ok_0@[j] == x)
    &&& forall|i: int| #![trigger v[i]] 0 <= i < v.len() && v[i] is Err ==> exists|k: int| #![trigger r[k]] 0 <= k < r.len() && r[k] is Err
    &&& forall|i: int, j: int| #![trigger v[i]->Ok_0@[j]] 0 <= i < v.len() && v[i] is Ok && 0 <= j < v[i]->Ok_0@.len() ==> exists|k: int| #![trigger r[k]] 0 <= k < r.len() && r[k] == Ok::<T, GraphAnnisError>(v[i]->Ok_0@[j])
}
impl<T> It<Result<It<T>>> {
    #[verifier::external_body]
    pub fn flatten_ok(self) -> (r: It<Result<T>>) ensures flat(self@, r@) { unimplemented!() }
}

/// the items found for each connected node, listed one after the other
pub open spec fn expand_ok<T>(r0: Seq<Result<NodeID>>, v: Seq<Result<It<Result<T>>>>, ex: spec_fn(NodeID, T) -> bool) -> bool {
    &&& v.len() == r0.len()
    &&& forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> match r0[i] { Ok(t) => v[i] is Ok && lists_all(v[i]->Ok_0@, |n: T| ex(t, n)), Err(_) => v[i] is Err }
}
pub proof fn lemma_expand<T>(r0: Seq<Result<NodeID>>, v: Seq<Result<It<Result<T>>>>, r: Seq<Result<Result<T>>>, q: spec_fn(NodeID) -> bool, ex: spec_fn(NodeID, T) -> bool)
    requires lists_all(r0, q), expand_ok(r0, v, ex), flat(v, r),
    ensures
        forall|k: int| #![trigger r[k]] 0 <= k < r.len() && r[k] is Ok && r[k]->Ok_0 is Ok ==> exists|t: NodeID| #![trigger q(t)] q(t) && ex(t, r[k]->Ok_0->Ok_0),
        (forall|k: int| #![trigger r[k]] 0 <= k < r.len() ==> r[k] is Ok && r[k]->Ok_0 is Ok) ==> forall|t: NodeID, n: T| #![trigger q(t), ex(t, n)] q(t) && ex(t, n) ==> exists|k: int| #![trigger r[k]] 0 <= k < r.len() && r[k] == Ok::<Result<T>, GraphAnnisError>(Ok(n)),
{
    assert forall|k: int| #![trigger r[k]] 0 <= k < r.len() && r[k] is Ok && r[k]->Ok_0 is Ok implies exists|t: NodeID| #![trigger q(t)] q(t) && ex(t, r[k]->Ok_0->Ok_0) by {
        let (i, j) = choose|i: int, j: int| #![trigger v[i]->Ok_0@[j]] 0 <= i < v.len() && v[i] is Ok && 0 <= j < v[i]->Ok_0@.len() && v[i]->Ok_0@[j] == r[k]->Ok_0;
        let _ = v[i];
        let _ = r0[i];
        let t = r0[i]->Ok_0;
        assert(q(t));
        assert(lists_all(v[i]->Ok_0@, |n: T| ex(t, n)));
        assert((|n: T| ex(t, n))(r[k]->Ok_0->Ok_0));
    }
    if forall|k: int| #![trigger r[k]] 0 <= k < r.len() ==> r[k] is Ok && r[k]->Ok_0 is Ok {
        assert forall|i: int| #![trigger r0[i]] 0 <= i < r0.len() implies r0[i] is Ok by { let _ = v[i]; }
        assert forall|t: NodeID, n: T| #![trigger q(t), ex(t, n)] q(t) && ex(t, n) implies exists|k: int| #![trigger r[k]] 0 <= k < r.len() && r[k] == Ok::<Result<T>, GraphAnnisError>(Ok(n)) by {
            let i = choose|i: int| #![trigger r0[i]] 0 <= i < r0.len() && r0[i] == Ok::<NodeID, GraphAnnisError>(t);
            let _ = v[i];
            let items = v[i]->Ok_0@;
            assert(lists_all(items, |n: T| ex(t, n)));
            assert forall|j: int| #![trigger items[j]] 0 <= j < items.len() implies items[j] is Ok by {
                let _ = v[i]->Ok_0@[j];
                let k = choose|k: int| #![trigger r[k]] 0 <= k < r.len() && r[k] == Ok::<Result<T>, GraphAnnisError>(v[i]->Ok_0@[j]);
                assert(r[k] is Ok && r[k]->Ok_0 is Ok);
            }
            assert((|n: T| ex(t, n))(n));
            let j = choose|j: int| #![trigger items[j]] 0 <= j < items.len() && items[j] == Ok::<T, GraphAnnisError>(n);
            let _ = v[i]->Ok_0@[j];
        }
    }
}
pub open spec fn as_matches(g2: Seq<Result<Result<NodeID>>>, r: Seq<Result<Match>>) -> bool {
    &&& r.len() == g2.len()
    &&& forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> match g2[i] { Ok(Ok(n)) => r[i] is Ok && r[i]->Ok_0.node == n, _ => r[i] is Err }
}
pub proof fn lemma_partners(r0: Seq<Result<NodeID>>, g1: Seq<Result<It<Result<NodeID>>>>, g2: Seq<Result<Result<NodeID>>>, r: Seq<Result<Match>>, q: spec_fn(NodeID) -> bool, ex: spec_fn(NodeID, NodeID) -> bool, p: spec_fn(NodeID) -> bool)
    requires lists_all(r0, q), expand_ok(r0, g1, ex), flat(g1, g2), as_matches(g2, r),
        forall|n: NodeID| #![trigger p(n)] p(n) ==> exists|t: NodeID| #![trigger q(t)] q(t) && ex(t, n),
        forall|t: NodeID, n: NodeID| #![trigger q(t), ex(t, n)] q(t) && ex(t, n) ==> p(n),
    ensures partners(r, p),
{
    lemma_expand(r0, g1, g2, q, ex);
    assert forall|i: int| #![trigger r[i]] 0 <= i < r.len() implies (r[i] matches Ok(x) ==> p(x.node)) by {
        if r[i] is Ok { let _ = g2[i]; let t = choose|t: NodeID| #![trigger q(t)] q(t) && ex(t, g2[i]->Ok_0->Ok_0); assert(p(r[i]->Ok_0.node)); }
    }
    if forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> r[i] is Ok {
        assert forall|k: int| #![trigger g2[k]] 0 <= k < g2.len() implies g2[k] is Ok && g2[k]->Ok_0 is Ok by { let _ = r[k]; }
        assert forall|n: NodeID| #![trigger p(n)] p(n) implies exists|i: int| #![trigger r[i]] 0 <= i < r.len() && r[i] is Ok && r[i]->Ok_0.node == n by {
            let t = choose|t: NodeID| #![trigger q(t)] q(t) && ex(t, n);
            let k = choose|k: int| #![trigger g2[k]] 0 <= k < g2.len() && g2[k] == Ok::<Result<NodeID>, GraphAnnisError>(Ok(n));
            let _ = r[k];
        }
    }
}
/// the token followed by its neighbours
pub proof fn lemma_once_chain(t: NodeID, s: Seq<NodeID>, l: Seq<Result<NodeID>>)
    requires lists(l, s),
    ensures lists_all(seq![Ok::<NodeID, GraphAnnisError>(t)] + l, |n: NodeID| n == t || s.contains(n)),
{
    let r = seq![Ok::<NodeID, GraphAnnisError>(t)] + l;
    let p = |n: NodeID| n == t || s.contains(n);
    assert(r[0] == Ok::<NodeID, GraphAnnisError>(t));
    assert forall|i: int| #![trigger r[i]] 0 <= i < r.len() implies (r[i] matches Ok(x) ==> p(x)) by {
        if i > 0 { assert(r[i] == l[i - 1]); if r[i] is Ok { assert(s[i - 1] == r[i]->Ok_0); } }
    }
    if forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> r[i] is Ok {
        assert forall|n: NodeID| #![trigger p(n)] p(n) implies exists|i: int| #![trigger r[i]] 0 <= i < r.len() && r[i] == Ok::<NodeID, GraphAnnisError>(n) by {
            if n != t {
                let k = choose|k: int| 0 <= k < s.len() && s[k] == n;
                assert(r[k + 1] == l[k]);
            }
        }
    }
}

/// a graph storage (P02 to P04): edges of a node, connected nodes, distance
#[verifier::external_body]
pub struct Gs { x: u8 }
impl Gs {
    pub uninterp spec fn out_seq(&self, n: NodeID) -> Seq<NodeID>;
    pub uninterp spec fn in_seq(&self, n: NodeID) -> Seq<NodeID>;
    pub uninterp spec fn conn0(&self, a: NodeID, b: NodeID, min: usize, max: Bound<usize>) -> bool;
    pub uninterp spec fn dist0(&self, a: NodeID, b: NodeID) -> Option<usize>;
    /// a node is connected to itself with a path of length 0
    pub open spec fn conn(&self, a: NodeID, b: NodeID, min: usize, max: Bound<usize>) -> bool {
        if a == b && min == 0 { max != Bound::Excluded(0usize) } else { self.conn0(a, b, min, max) }
    }
    pub open spec fn dist(&self, a: NodeID, b: NodeID) -> Option<usize> { if a == b { Some(0usize) } else { self.dist0(a, b) } }
    /// position of a node in its chain (linear storages: P03)
    pub uninterp spec fn pos(&self, n: NodeID) -> Option<(int, int)>;
    /// an order: connected and distance follow from the positions
    pub open spec fn linear(&self) -> bool {
        &&& forall|a: NodeID, b: NodeID, lo: usize, hi: Bound<usize>| #![trigger self.conn(a, b, lo, hi)] self.conn(a, b, lo, hi) <==> (a == b && lo == 0 && hi != Bound::Excluded(0usize)) || (self.pos(a) matches Some(x) && self.pos(b) matches Some(y) && x.0 == y.0 && y.1 - x.1 >= lo && match hi { Bound::Included(h) => y.1 - x.1 <= h, Bound::Excluded(h) => y.1 - x.1 < h, Bound::Unbounded => true })
        &&& forall|a: NodeID, b: NodeID| #![trigger self.dist(a, b)] match self.dist(a, b) { Some(l) => (a == b && l == 0) || (self.pos(a) matches Some(x) && self.pos(b) matches Some(y) && x.0 == y.0 && y.1 - x.1 == l), None => !(self.pos(a) matches Some(x) && self.pos(b) matches Some(y) && x.0 == y.0 && y.1 >= x.1) }
    }
    /// direct neighbours are the nodes at distance 1
    pub open spec fn direct(&self) -> bool {
        forall|a: NodeID, b: NodeID| #![trigger self.conn(a, b, 1, Bound::Included(1usize))] self.conn(a, b, 1, Bound::Included(1usize)) <==> self.out_seq(a).contains(b)
    }
    pub open spec fn dual(&self) -> bool {
        forall|a: NodeID, b: NodeID| #![trigger self.out_seq(a).contains(b)] #![trigger self.in_seq(b).contains(a)] self.out_seq(a).contains(b) <==> self.in_seq(b).contains(a)
    }
    pub fn as_ref(&self) -> (r: &Gs) ensures *r == *self { self }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Gs) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn get_outgoing_edges(&self, n: NodeID) -> (r: It<Result<NodeID>>) ensures lists(r@, self.out_seq(n)) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_ingoing_edges(&self, n: NodeID) -> (r: It<Result<NodeID>>) ensures lists(r@, self.in_seq(n)) { unimplemented!() }
    #[verifier::external_body]
    pub fn has_outgoing_edges(&self, n: NodeID) -> (r: Result<bool>) ensures r matches Ok(b) ==> b == (self.out_seq(n).len() > 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn find_connected(&self, n: NodeID, min: usize, max: Bound<usize>) -> (r: It<Result<NodeID>>)
        ensures lists_all(r@, |t: NodeID| self.conn(n, t, min, max)) { unimplemented!() }
    #[verifier::external_body]
    pub fn find_connected_inverse(&self, n: NodeID, min: usize, max: Bound<usize>) -> (r: It<Result<NodeID>>)
        ensures lists_all(r@, |t: NodeID| self.conn(t, n, min, max)) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_connected(&self, a: NodeID, b: NodeID, min: usize, max: Bound<usize>) -> (r: Result<bool>)
        ensures a != b || min > 0 ==> (r matches Ok(x) ==> x == self.conn(a, b, min, max)) { unimplemented!() }
    #[verifier::external_body]
    pub fn distance(&self, a: NodeID, b: NodeID) -> (r: Result<Option<usize>>)
        ensures a != b ==> (r matches Ok(x) ==> x == self.dist(a, b)) { unimplemented!() }
    #[verifier::external_body]
    pub fn inverse_has_same_cost(&self) -> bool { unimplemented!() }
}
#[verifier::external_body]
pub fn bound_eq(a: Bound<usize>, b: Bound<usize>) -> (r: bool) ensures r == (a == b) { unimplemented!() }
//@fn src=graphannis/src/annis/db/aql/operators/mod.rs item=distance ret=ret
//@rewrite gs: &dyn GraphStorage => gs: &Gs
//@spec
    ensures ret matches Ok(x) ==> x == gs.dist(source, target),
//@end
//@fn src=graphannis/src/annis/db/aql/operators/mod.rs item=is_connected ret=ret
//@rewrite gs: &dyn GraphStorage => gs: &Gs
//@rewrite? std::ops::Bound => Bound
//@rewrite? (\w+) != (Bound::\w+\([^()]*\)) => !bound_eq($1, $2)
//@rewrite? (\w+) == (Bound::\w+\([^()]*\)) => bound_eq($1, $2)
//@spec
    ensures ret matches Ok(x) ==> x == gs.conn(source, target, min_distance, max_distance),
//@end
#[verifier::external_body]
pub struct NodeAnnos { x: u8 }
impl NodeAnnos {
    /// has a value for the token annotation
    pub uninterp spec fn is_labelled(&self, n: NodeID) -> bool;
    #[verifier::external_body]
    pub fn has_value_for_item(&self, n: &NodeID, k: &Arc<AnnoKey>) -> (r: Result<bool>) ensures r matches Ok(b) ==> b == self.is_labelled(*n) { unimplemented!() }
}
