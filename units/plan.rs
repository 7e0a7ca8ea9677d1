// Verus unit: the results of all alternatives of a query, each one once and in the order of the query's nodes
#![allow(unused)]
use vstd::prelude::*;
use std::sync::Arc;
verus! {
global size_of usize == 8;
pub type NodeID = u64;
#[derive(Debug)]
pub struct GraphAnnisError { pub code: u64 }
pub type Result<T> = std::result::Result<T, GraphAnnisError>;
impl GraphAnnisError {
    pub uninterp spec fn impossible(&self) -> bool;
    #[verifier::external_body]
    pub fn is_impossible_search(&self) -> (r: bool) ensures r == self.impossible() { unimplemented!() }
}
//@item src=core/src/types.rs item="struct AnnoKey"
//@item src=core/src/annostorage/mod.rs item="struct Match"
pub type MatchGroup = Vec<Match>;

// ---- matches as numbers: proved in unit finding ------------------------------------------------
/// SymbolTable<AnnoKey> (P06)
#[verifier::external_body]
pub struct Symbols { x: u64 }
impl Symbols {
    pub uninterp spec fn val(&self, id: usize) -> Option<AnnoKey>;
    /// each annotation key has one number (unit symboltable)
    #[verifier::external_body]
    pub proof fn one_number(&self) ensures forall|i: usize, j: usize| #![trigger self.val(i), self.val(j)] self.val(i) is Some && self.val(i) == self.val(j) ==> i == j {}
    #[verifier::external_body]
    pub fn new() -> (r: Symbols) ensures forall|id: usize| r.val(id) is None { unimplemented!() }
}
pub open spec fn keeps(a: Symbols, b: Symbols) -> bool { forall|id: usize| a.val(id) is Some ==> #[trigger] b.val(id) == a.val(id) }
pub open spec fn stands_for(u: (NodeID, usize), m: Match, sy: Symbols) -> bool { u.0 == m.node && sy.val(u.1) == Some(*m.anno_key) }
/// the numbers stand for this match
pub open spec fn stands(u: Seq<(NodeID, usize)>, m: Seq<Match>, sy: Symbols) -> bool { u.len() == m.len() && forall|i: int| 0 <= i < u.len() ==> stands_for(#[trigger] u[i], m[i], sy) }
#[verifier::external_body]
pub fn match_group_with_symbol_ids(m: &MatchGroup, sy: &mut Symbols) -> (ret: Result<Vec<(NodeID, usize)>>)
    ensures keeps(*old(sy), *final(sy)), ret matches Ok(x) ==> stands(x@, m@, *final(sy)),
{ unimplemented!() }
/// temporary index with the numbers of the delivered matches
#[verifier::external_body]
pub struct Delivered { x: u64 }
impl Delivered {
    pub uninterp spec fn has(&self, k: Seq<(NodeID, usize)>) -> bool;
    #[verifier::external_body]
    pub fn new() -> (r: Result<Delivered>) ensures r matches Ok(d) ==> forall|k: Seq<(NodeID, usize)>| #![trigger d.has(k)] !d.has(k) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &Vec<(NodeID, usize)>) -> (r: Result<bool>) ensures r matches Ok(b) ==> b == self.has(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: Vec<(NodeID, usize)>, v: bool) -> (r: Result<Option<bool>>) ensures r is Ok ==> forall|x: Seq<(NodeID, usize)>| #![trigger final(self).has(x)] final(self).has(x) == (x == k@ || old(self).has(x)), { unimplemented!() }
}
pub open spec fn seen(d: Delivered, sy: Symbols, m: Seq<Match>) -> bool { exists|u: Seq<(NodeID, usize)>| #![trigger d.has(u)] d.has(u) && stands(u, m, sy) }
/// the numbers in the index are valid
pub open spec fn all_valid(d: Delivered, sy: Symbols) -> bool { forall|u: Seq<(NodeID, usize)>, i: int| #![trigger d.has(u), u[i]] d.has(u) && 0 <= i < u.len() ==> sy.val(u[i].1) is Some }
pub proof fn lemma_same_numbers(u: Seq<(NodeID, usize)>, v: Seq<(NodeID, usize)>, m: Seq<Match>, sy: Symbols)
    requires stands(u, m, sy), stands(v, m, sy), ensures u == v
{
    sy.one_number();
    assert forall|i: int| 0 <= i < u.len() implies u[i] == v[i] by { assert(stands_for(u[i], m[i], sy)); assert(stands_for(v[i], m[i], sy)); }
    assert(u =~= v);
}
pub proof fn lemma_still(u: Seq<(NodeID, usize)>, m: Seq<Match>, a: Symbols, b: Symbols)
    requires keeps(a, b), forall|i: int| #![trigger u[i]] 0 <= i < u.len() ==> a.val(u[i].1) is Some,
    ensures stands(u, m, a) == stands(u, m, b)
{
    if stands(u, m, a) { assert forall|i: int| 0 <= i < u.len() implies stands_for(#[trigger] u[i], m[i], b) by { assert(stands_for(u[i], m[i], a)); } }
    if stands(u, m, b) { assert forall|i: int| 0 <= i < u.len() implies stands_for(#[trigger] u[i], m[i], a) by { assert(stands_for(u[i], m[i], b)); } }
}

pub proof fn lemma_seen(d: Delivered, a: Symbols, b: Symbols, k: Seq<(NodeID, usize)>, n: Seq<Match>)
    requires all_valid(d, a), keeps(a, b), stands(k, n, b),
    ensures forall|m: Seq<Match>| #![trigger seen(d, b, m)] #![trigger seen(d, a, m)] seen(d, b, m) == seen(d, a, m), seen(d, b, n) == d.has(k),
{
    assert forall|m: Seq<Match>| seen(d, b, m) == seen(d, a, m) by {
        assert forall|u: Seq<(NodeID, usize)>| #![trigger d.has(u)] d.has(u) implies stands(u, m, a) == stands(u, m, b) by {
            assert forall|i: int| #![trigger u[i]] 0 <= i < u.len() implies a.val(u[i].1) is Some by { let _ = (d.has(u), u[i]); }
            lemma_still(u, m, a, b);
        }
        if seen(d, b, m) { let u = choose|u: Seq<(NodeID, usize)>| #![trigger d.has(u)] d.has(u) && stands(u, m, b); assert(stands(u, m, a)); }
        if seen(d, a, m) { let u = choose|u: Seq<(NodeID, usize)>| #![trigger d.has(u)] d.has(u) && stands(u, m, a); assert(stands(u, m, b)); }
    }
    if seen(d, b, n) { let u = choose|u: Seq<(NodeID, usize)>| #![trigger d.has(u)] d.has(u) && stands(u, n, b); lemma_same_numbers(u, k, n, b); }
}
pub proof fn lemma_seen_more(d: Delivered, e: Delivered, b: Symbols, k: Seq<(NodeID, usize)>, n: Seq<Match>)
    requires all_valid(d, b), stands(k, n, b), forall|x: Seq<(NodeID, usize)>| #![trigger e.has(x)] e.has(x) == (x == k || d.has(x)),
    ensures all_valid(e, b), forall|m: Seq<Match>| #![trigger seen(e, b, m)] seen(e, b, m) == (m == n || seen(d, b, m)),
{
    assert forall|u: Seq<(NodeID, usize)>, i: int| #![trigger e.has(u), u[i]] e.has(u) && 0 <= i < u.len() implies b.val(u[i].1) is Some by {
        if u == k { assert(stands_for(k[i], n[i], b)); } else { let _ = (d.has(u), u[i]); }
    }
    assert(e.has(k));
    assert forall|m: Seq<Match>| #![trigger seen(e, b, m)] seen(e, b, m) == (m == n || seen(d, b, m)) by {
        if seen(d, b, m) { let u = choose|u: Seq<(NodeID, usize)>| #![trigger d.has(u)] d.has(u) && stands(u, m, b); assert(e.has(u)); }
        if seen(e, b, m) {
            let u = choose|u: Seq<(NodeID, usize)>| #![trigger e.has(u)] e.has(u) && stands(u, m, b);
            if u == k {
                // one number stands for one match
                assert forall|i: int| 0 <= i < m.len() implies m[i] == n[i] by { assert(stands_for(k[i], m[i], b)); assert(stands_for(k[i], n[i], b)); assert(*m[i].anno_key == *n[i].anno_key); }
                assert(m =~= n);
            } else { assert(d.has(u)); }
        }
    }
}

// ---- steps of the plan --------------------------------------------------------------------------
pub type Groups = Seq<Result<MatchGroup>>;
//@item src=graphannis/src/annis/db/exec/mod.rs item="struct CostEstimate"
//@item src=graphannis/src/annis/db/exec/mod.rs item="struct ExecutionNodeDesc"
//@rewrite BTreeMap<usize, usize> => NodePos
/// ordered map from the node of the query to its position in the stream
#[verifier::external_body]
pub struct NodePos { x: u8 }
impl View for NodePos { type V = Map<usize, usize>; uninterp spec fn view(&self) -> Map<usize, usize>; }
impl NodePos {
    /// `iter().any(|(a, b)| a != b)`
    #[verifier::external_body]
    pub fn any_moved(&self) -> (r: bool) ensures r == exists|k: usize| #![trigger self@.contains_key(k)] self@.contains_key(k) && self@[k] != k { unimplemented!() }
    /// `iter().map(|(a, b)| (*b, *a)).collect()`
    #[verifier::external_body]
    pub fn swapped(&self) -> (r: IntMap)
        ensures forall|i: usize| #![trigger r@.contains_key(i)] r@.contains_key(i) <==> exists|k: usize| #![trigger self@.contains_key(k)] self@.contains_key(k) && self@[k] == i,
            forall|i: usize| #![trigger r@[i]] r@.contains_key(i) ==> self@.contains_key(r@[i]) && self@[r@[i]] == i,
            one_to_one(self@) ==> r@.dom().len() == self@.dom().len(),
    { unimplemented!() }
}
pub open spec fn one_to_one(p: Map<usize, usize>) -> bool { forall|a: usize, b: usize| #![trigger p.contains_key(a), p.contains_key(b)] p.contains_key(a) && p.contains_key(b) && p[a] == p[b] ==> a == b }
#[verifier::external_body]
pub struct IntMap { x: u8 }
impl View for IntMap { type V = Map<usize, usize>; uninterp spec fn view(&self) -> Map<usize, usize>; }
impl IntMap {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &usize) -> (r: Option<&usize>) ensures match r { Some(v) => self@.contains_key(*k) && *v == self@[*k], None => !self@.contains_key(*k) } { unimplemented!() }
}
/// each node of the results has one position and each of the `n` positions belongs to a node
pub open spec fn positions(p: Map<usize, usize>, n: nat) -> bool {
    &&& p.dom().len() == n && n <= usize::MAX && one_to_one(p)
    &&& forall|k: usize| #![trigger p.contains_key(k)] p.contains_key(k) ==> p[k] < n
    &&& forall|i: usize| #![trigger at(p, i)] i < n ==> at(p, i)
}
pub open spec fn at(p: Map<usize, usize>, i: usize) -> bool { exists|k: usize| #![trigger p.contains_key(k)] p.contains_key(k) && p[k] == i }
pub struct Exec { pub v: Vec<Result<MatchGroup>>, pub d: Option<ExecutionNodeDesc> }
impl View for Exec { type V = Groups; open spec fn view(&self) -> Groups { self.v@ } }
impl Exec {
    pub fn get_desc(&self) -> (r: Option<&ExecutionNodeDesc>) ensures match r { Some(d) => self.d == Some(*d), None => self.d is None } { match &self.d { Some(d) => Some(d), None => None } }
    #[verifier::external_body]
    pub fn desc_cloned(&self) -> (r: Option<ExecutionNodeDesc>) ensures r == self.d { unimplemented!() }
    /// (joins and filters: units joins, pjoins)
    pub open spec fn wf(&self) -> bool { self.d matches Some(d) && positions(d.node_pos@, d.node_pos@.dom().len()) && wide(self@, d.node_pos@.dom().len()) }
}
pub open spec fn wide(s: Groups, n: nat) -> bool { forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> (s[i] matches Ok(m) ==> m@.len() == n) }
#[verifier::external_body]
pub fn next_at(v: &mut Vec<Exec>, i: usize) -> (r: Option<Result<MatchGroup>>)
    requires i < old(v)@.len(),
    ensures final(v)@.len() == old(v)@.len(), forall|k: int| #![trigger final(v)@[k]] 0 <= k < old(v)@.len() && k != i ==> final(v)@[k] == old(v)@[k],
        final(v)@[i as int].d == old(v)@[i as int].d,
        match r { None => old(v)@[i as int]@.len() == 0 && final(v)@[i as int]@ == old(v)@[i as int]@, Some(x) => old(v)@[i as int]@.len() > 0 && x == old(v)@[i as int]@[0] && final(v)@[i as int]@ == old(v)@[i as int]@.drop_first() },
{ unimplemented!() }
pub fn no_results() -> (r: Exec) ensures r@.len() == 0 { Exec { v: Vec::new(), d: None } }

// ---- the query ----------------------------------------------------------------------------------
#[verifier::external_body] pub struct AnnotationGraph { x: u8 }
#[verifier::external_body] pub struct Config { x: u8 }
#[derive(Clone, Copy)]
pub struct TimeoutCheck { pub x: u64 }
#[verifier::external_body] pub struct Conjunction { x: u8 }
impl Conjunction {
    /// a plan for the alternative (its steps: units joins, pjoins; choice of the steps: bounded)
    pub uninterp spec fn planned(&self, db: AnnotationGraph, e: Exec) -> bool;
    /// the alternative has no result in this graph
    pub uninterp spec fn never(&self, db: AnnotationGraph) -> bool;
    pub uninterp spec fn outputs(&self) -> Seq<usize>;
    #[verifier::external_body]
    pub fn make_exec_node(&self, db: &AnnotationGraph, config: &Config, timeout: TimeoutCheck) -> (r: Result<Exec>)
        ensures match r { Ok(e) => self.planned(*db, e) && e.wf() && fits(self.outputs(), e.d->0.node_pos@), Err(e) => e.impossible() ==> self.never(*db) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn output_node_pos(&self) -> (r: Vec<usize>) ensures r@ == self.outputs() { unimplemented!() }
}
/// different nodes of the alternative, all part of its results
pub open spec fn fits(out: Seq<usize>, p: Map<usize, usize>) -> bool {
    out.no_duplicates() && forall|j: int| #![trigger out[j]] 0 <= j < out.len() ==> p.contains_key(out[j])
}
pub struct Disjunction { pub alternatives: Vec<Conjunction> }

/// nodes of a result in the order of the query
pub open spec fn ordered(p: Map<usize, usize>, out: Seq<usize>, m: Seq<Match>) -> Seq<Match> { Seq::new(out.len(), |j: int| m[p[out[j]] as int]) }
pub open spec fn stream(p: Map<usize, usize>, out: Seq<usize>, s: Groups) -> Seq<Option<Seq<Match>>> {
    s.map_values(|r: Result<MatchGroup>| match r { Ok(m) => Some(ordered(p, out, m@)), Err(_) => None })
}
/// each result only once, if it was not delivered yet
pub open spec fn fresh(s: Seq<Option<Seq<Match>>>, was: spec_fn(Seq<Match>) -> bool) -> Seq<Option<Seq<Match>>>
    decreases s.len()
{
    if s.len() == 0 { seq![] } else {
        match s[0] {
            None => seq![None] + fresh(s.drop_first(), was),
            Some(m) => if was(m) { fresh(s.drop_first(), was) } else { seq![Some(m)] + fresh(s.drop_first(), added(was, m)) },
        }
    }
}
pub proof fn lemma_fresh_eq(s: Seq<Option<Seq<Match>>>, a: spec_fn(Seq<Match>) -> bool, b: spec_fn(Seq<Match>) -> bool)
    requires forall|m: Seq<Match>| #![trigger a(m)] #![trigger b(m)] a(m) == b(m),
    ensures fresh(s, a) == fresh(s, b),
    decreases s.len()
{
    if s.len() > 0 {
        lemma_fresh_eq(s.drop_first(), a, b);
        if s[0] is Some { let m = s[0]->0; assert(a(m) == b(m)); lemma_fresh_eq(s.drop_first(), added(a, m), added(b, m)); }
    }
}
/// the union of the results: all of them, and none of them twice
pub proof fn lemma_fresh(s: Seq<Option<Seq<Match>>>, was: spec_fn(Seq<Match>) -> bool, m: Seq<Match>)
    ensures fresh(s, was).contains(Some(m)) <==> s.contains(Some(m)) && !was(m),
        forall|i: int, j: int| #![trigger fresh(s, was)[i], fresh(s, was)[j]] 0 <= i < j < fresh(s, was).len() && fresh(s, was)[i] == Some(m) ==> fresh(s, was)[j] != Some(m),
    decreases s.len()
{
    let f = fresh(s, was);
    if s.len() > 0 {
        let t = s.drop_first();
        if s.contains(Some(m)) && s[0] != Some(m) { let i = choose|i: int| 0 <= i < s.len() && s[i] == Some(m); assert(t[i - 1] == Some(m)); }
        if t.contains(Some(m)) { let i = choose|i: int| 0 <= i < t.len() && t[i] == Some(m); assert(s[i + 1] == Some(m)); }
        let skip = s[0] is Some && was(s[0]->0);
        let w2 = match s[0] { None => was, Some(x) => if was(x) { was } else { added(was, x) } };
        let g = fresh(t, w2);
        lemma_fresh(t, w2, m);
        if skip { assert(f == g); if s[0] == Some(m) { assert(was(m)); } } else {
            assert(f == seq![s[0]] + g);
            assert(f[0] == s[0]);
            assert(forall|i: int| #![trigger f[i]] 0 < i < f.len() ==> f[i] == g[i - 1]);
            if g.contains(Some(m)) { let i = choose|i: int| 0 <= i < g.len() && g[i] == Some(m); assert(f[i + 1] == Some(m)); }
            if f.contains(Some(m)) { let i = choose|i: int| 0 <= i < f.len() && f[i] == Some(m); if i > 0 { assert(g[i - 1] == Some(m)); } else { assert(s[0] == Some(m)); } }
            if s[0] == Some(m) { assert(w2(m)); assert(!g.contains(Some(m))); assert forall|j: int| 0 < j < f.len() implies #[trigger] f[j] != Some(m) by { if f[j] == Some(m) { assert(g[j - 1] == Some(m)); } } }
            assert forall|i: int, j: int| #![trigger f[i], f[j]] 0 <= i < j < f.len() && f[i] == Some(m) implies f[j] != Some(m) by { if i > 0 { let _ = (g[i - 1], g[j - 1]); } }
        }
    }
}
pub open spec fn added(was: spec_fn(Seq<Match>) -> bool, m: Seq<Match>) -> spec_fn(Seq<Match>) -> bool { |x: Seq<Match>| x == m || was(x) }
pub proof fn lemma_first(s: Seq<Option<Seq<Match>>>, was: spec_fn(Seq<Match>) -> bool, m: Seq<Match>)
    requires s.len() > 0, s[0] == Some(m), !was(m),
    ensures fresh(s, was).len() > 0, fresh(s, was)[0] == Some(m), fresh(s, was).drop_first() == fresh(s.drop_first(), added(was, m)),
{
    assert((seq![Some(m)] + fresh(s.drop_first(), added(was, m))).drop_first() =~= fresh(s.drop_first(), added(was, m)));
}
pub open spec fn was_of(d: Delivered, sy: Symbols) -> spec_fn(Seq<Match>) -> bool { |m: Seq<Match>| seen(d, sy, m) }
pub open spec fn same_plans(a: ExecutionPlan, b: ExecutionPlan, from: int) -> bool {
    &&& a.plans@.len() == b.plans@.len() && a.output_node_pos == b.output_node_pos
    &&& forall|k: int| #![trigger b.plans@[k]] from <= k < a.plans@.len() ==> a.plans@[k] == b.plans@[k]
}
pub proof fn lemma_tail(a: ExecutionPlan, b: ExecutionPlan, p: int)
    requires same_plans(a, b, p), 0 <= p,
    ensures a.tail(p) == b.tail(p),
    decreases a.plans@.len() - p
{
    if p < a.plans@.len() { lemma_tail(a, b, p + 1); let _ = b.plans@[p]; assert(a.outputs(p) == b.outputs(p)); }
}
pub proof fn lemma_rest(a: ExecutionPlan, b: ExecutionPlan, was: spec_fn(Seq<Match>) -> bool)
    requires a.plans == b.plans, a.output_node_pos == b.output_node_pos, a.current_plan == b.current_plan, forall|m: Seq<Match>| #![trigger (b.was())(m)] (b.was())(m) == was(m),
    ensures !b.proxy_mode ==> b.rest() == fresh(a.tail(a.current_plan as int), was),
{
    lemma_tail(a, b, a.current_plan as int);
    lemma_fresh_eq(b.tail(b.current_plan as int), b.was(), was);
}
/// the first result of plan `p` is taken
pub proof fn lemma_taken(a: ExecutionPlan, b: ExecutionPlan, p: int)
    requires a.plans@.len() == b.plans@.len(), a.output_node_pos == b.output_node_pos, 0 <= p < a.plans@.len(), a.plans@[p]@.len() > 0,
        a.plans@[p].d == b.plans@[p].d, b.plans@[p]@ == a.plans@[p]@.drop_first(), forall|k: int| #![trigger b.plans@[k]] 0 <= k < a.plans@.len() && k != p ==> b.plans@[k] == a.plans@[k],
    ensures a.tail(p) == seq![a.outputs(p)[0]] + b.tail(p), a.tail(p)[0] == a.outputs(p)[0], a.tail(p).drop_first() == b.tail(p),
        a.outputs(p)[0] == match a.plans@[p]@[0] { Ok(m) => Some(ordered(a.pos(p), a.output_node_pos@[p]@, m@)), Err(_) => None },
{
    lemma_tail(a, b, p + 1);
    let (x, y) = (a.outputs(p), b.outputs(p));
    assert(y =~= x.drop_first());
    assert(x =~= seq![x[0]] + y);
    assert(a.tail(p) =~= seq![x[0]] + b.tail(p));
    assert(a.tail(p).drop_first() =~= b.tail(p));
}
pub proof fn lemma_plans_wf(a: ExecutionPlan, b: ExecutionPlan, p: int)
    requires a.wf(), a.plans@.len() == b.plans@.len(), a.output_node_pos == b.output_node_pos, a.inverse_node_pos == b.inverse_node_pos, 0 <= p < a.plans@.len(), a.plans@[p]@.len() > 0,
        a.plans@[p].d == b.plans@[p].d, b.plans@[p]@ == a.plans@[p]@.drop_first(), forall|k: int| #![trigger b.plans@[k]] 0 <= k < a.plans@.len() && k != p ==> b.plans@[k] == a.plans@[k],
    ensures forall|q: int| #![trigger b.plans@[q]] 0 <= q < b.plans@.len() ==> b.plan_wf(q), a.plan_wf(p),
{
    assert forall|q: int| #![trigger b.plans@[q]] 0 <= q < b.plans@.len() implies b.plan_wf(q) by {
        let _ = a.plans@[q];
        if q == p { assert forall|i: int| #![trigger b.plans@[p]@[i]] 0 <= i < b.plans@[p]@.len() implies (b.plans@[p]@[i] matches Ok(m) ==> m@.len() == a.pos(p).dom().len()) by { assert(b.plans@[p]@[i] == a.plans@[p]@[i + 1]); } }
    }
    let _ = a.plans@[p];
}
/// what a call delivers: the next result, or an error
pub open spec fn step(ret: Option<Result<MatchGroup>>, before: Seq<Option<Seq<Match>>>, after: Seq<Option<Seq<Match>>>) -> bool {
    match ret {
        None => before.len() == 0,
        Some(Ok(m)) => before.len() > 0 && before[0] == Some(m@) && after == before.drop_first(),
        Some(Err(_)) => true,
    }
}
#[verifier::external_body]
pub fn position_of(v: &Vec<usize>, x: &usize) -> (r: Option<usize>)
    ensures match r { Some(i) => i < v@.len() && v@[i as int] == *x, None => !v@.contains(*x) },
{ unimplemented!() }
/// takes the item out of the group if there is one at this position
#[verifier::external_body]
pub fn take_at(v: &mut MatchGroup, i: Option<usize>) -> (r: Option<Match>)
    ensures final(v)@.len() == old(v)@.len(), forall|k: int| #![trigger final(v)@[k]] 0 <= k < old(v)@.len() && i != Some(k as usize) ==> final(v)@[k] == old(v)@[k],
        match i { Some(i) => if i < old(v)@.len() { r == Some(old(v)@[i as int]) } else { r is None }, None => r is None },
{ unimplemented!() }

//@item src=graphannis/src/annis/db/plan.rs item="struct ExecutionPlan"
//@rewrite ExecutionPlan<'a> => ExecutionPlan
//@rewrite Vec<Box<dyn ExecutionNode<Item = Result<MatchGroup>> \+ 'a>> => Vec<Exec>
//@rewrite BtreeIndex<Vec<\(NodeID, usize\)>, bool> => Delivered
//@rewrite SymbolTable<AnnoKey> => Symbols
//@rewrite (?m)^    ([a-z]\w*): => pub $1:
/// the mapping of the positions of this step
pub open spec fn ready(e: Exec, inv: Option<Vec<usize>>, out: Vec<usize>) -> bool {
    let p = e.d->0.node_pos@;
    &&& e.wf() && fits(out@, p)
    &&& match inv {
            None => forall|k: usize| #![trigger p.contains_key(k)] p.contains_key(k) ==> p[k] == k,
            Some(inv) => inv@.len() == p.dom().len() && forall|k: usize| #![trigger p.contains_key(k)] p.contains_key(k) ==> p[k] < inv@.len() && inv@[p[k] as int] == k,
        }
}
/// the first `n` alternatives have a plan, in their order, or never a result
pub open spec fn planned_until(nr: Seq<usize>, plans: Seq<Exec>, out: Seq<Vec<usize>>, q: Disjunction, db: AnnotationGraph, n: int) -> bool {
    &&& forall|p: int| #![trigger nr[p]] 0 <= p < nr.len() ==> nr[p] < n && q.alternatives@[nr[p] as int].planned(db, plans[p]) && out[p]@ == q.alternatives@[nr[p] as int].outputs()
    &&& forall|p: int, r: int| #![trigger nr[p], nr[r]] 0 <= p < r < nr.len() ==> nr[p] < nr[r]
    &&& forall|a: int| #![trigger q.alternatives@[a]] 0 <= a < n ==> nr.contains(a as usize) || q.alternatives@[a].never(db)
}
impl ExecutionPlan {
    /// each alternative of the query has its plan, or no result; nothing else has
    pub open spec fn answers(&self, q: Disjunction, db: AnnotationGraph) -> bool {
        &&& planned_until(self.alternative_nr@, self.plans@, self.output_node_pos@, q, db, q.alternatives@.len() as int)
        &&& self.plans@.len() == self.alternative_nr@.len() || self.alternative_nr@.len() == 0 && self.plans@.len() == 1 && self.plans@[0]@.len() == 0
    }
    pub open spec fn pos(&self, p: int) -> Map<usize, usize> { self.plans@[p].d->0.node_pos@ }
    pub open spec fn plan_wf(&self, p: int) -> bool {
        self.plans@[p]@.len() > 0 ==> {
            &&& p < self.inverse_node_pos@.len() && p < self.output_node_pos@.len() && ready(self.plans@[p], self.inverse_node_pos@[p], self.output_node_pos@[p])
        }
    }
    pub open spec fn wf(&self) -> bool {
        &&& self.plans@.len() > 0 && all_valid(self.unique_result_set, self.anno_key_symbols)
        &&& self.proxy_mode ==> self.plans@.len() == 1 && self.current_plan == 0
        &&& forall|p: int| #![trigger self.plans@[p]] 0 <= p < self.plans@.len() ==> self.plan_wf(p)
    }
    pub open spec fn outputs(&self, p: int) -> Seq<Option<Seq<Match>>> { stream(self.pos(p), self.output_node_pos@[p]@, self.plans@[p]@) }
    /// outputs of the plans from `p` on
    pub open spec fn tail(&self, p: int) -> Seq<Option<Seq<Match>>>
        decreases self.plans@.len() - p
    {
        if 0 <= p < self.plans@.len() { self.outputs(p) + self.tail(p + 1) } else { seq![] }
    }
    pub open spec fn was(&self) -> spec_fn(Seq<Match>) -> bool { was_of(self.unique_result_set, self.anno_key_symbols) }
    /// the results that are still to come
    pub open spec fn rest(&self) -> Seq<Option<Seq<Match>>> { if self.proxy_mode { self.tail(0) } else { fresh(self.tail(self.current_plan as int), self.was()) } }

//@fn src=graphannis/src/annis/db/plan.rs item=ExecutionPlan::from_disjunction ret=ret
//@rewrite <'a> =>
//@rewrite &'a => &
//@rewrite Vec<Box<dyn ExecutionNode<Item = Result<MatchGroup>> \+ 'a>> => Vec<Exec>
//@rewrite p\.get_desc\(\)\.cloned\(\) => p.desc_cloned()
//@rewrite (?s)desc\s*\.node_pos\s*\.iter\(\)\s*\.any\(\|\(target_pos, stream_pos\)\| target_pos != stream_pos\) => desc.node_pos.any_moved()
//@rewrite (?s)HashMap<usize, usize> = desc\s*\.node_pos\s*\.iter\(\)\s*\.map\(\|\(target_pos, stream_pos\)\| \(\*stream_pos, \*target_pos\)\)\s*\.collect\(\) => IntMap = desc.node_pos.swapped()
//@rewrite for \(alt_nr, alt\) in query\.alternatives\.iter\(\)\.enumerate\(\) => for alt_nr in 0..query.alternatives.len()
//@rewrite Box::new\(no_results_exec\) => no_results()
//@rewrite (?s)let no_results_exec = EmptyResultSet \{\}; =>
//@rewrite (?s)let btree_config = .*?; =>
//@rewrite (?s)BtreeIndex::with_capacity\(btree_config, 10_000\) => Delivered::new()
//@rewrite SymbolTable::new => Symbols::new
//@spec
    ensures ret matches Ok(plan) ==> plan.wf() && plan.current_plan == 0 && plan.answers(*query, *db) && plan.rest() == if plan.proxy_mode { plan.tail(0) } else { fresh(plan.tail(0), |m: Seq<Match>| false) },
//@loop 0
    invariant plans@.len() == alternative_nr@.len(), plans@.len() == output_node_pos@.len(), plans@.len() == inverse_node_pos@.len(),
        planned_until(alternative_nr@, plans@, output_node_pos@, *query, *db, alt_nr as int),
        forall|p: int| #![trigger plans@[p]] 0 <= p < plans@.len() ==> ready(plans@[p], inverse_node_pos@[p], output_node_pos@[p]),
//@at loop_start 0
    let alt = &query.alternatives[alt_nr];
    let ghost (a0, p0, o0, i0) = (alternative_nr@, plans@, output_node_pos@, inverse_node_pos@);
//@loop 1
    invariant new_mapping@.len() == i, i <= new_mapping_map@.dom().len(),
        forall|j: int| #![trigger new_mapping@[j]] 0 <= j < i ==> new_mapping_map@.contains_key(j as usize) ==> new_mapping@[j] == new_mapping_map@[j as usize],
//@at loop_end 0
    proof {
        if plans@.len() > p0.len() {
            let (e, inv) = (plans@.last(), inverse_node_pos@.last());
            let pm = e.d->0.node_pos@;
            assert(positions(pm, pm.dom().len()));
            assert(ready(e, inv, output_node_pos@.last())) by {
                if inv is Some {
                    let v = inv->0@;
                    assert forall|k: usize| #![trigger pm.contains_key(k)] pm.contains_key(k) implies pm[k] < v.len() && v[pm[k] as int] == k by { let _ = v[pm[k] as int]; }
                }
            }
            assert(plans@ =~= p0.push(e) && inverse_node_pos@ =~= i0.push(inv) && output_node_pos@ =~= o0.push(output_node_pos@.last()) && alternative_nr@ =~= a0.push(alt_nr));
            assert forall|a: int| #![trigger query.alternatives@[a]] 0 <= a < alt_nr + 1 implies alternative_nr@.contains(a as usize) || query.alternatives@[a].never(*db) by {
                if a == alt_nr { assert(alternative_nr@[a0.len() as int] == alt_nr); } else if a0.contains(a as usize) { let i = choose|i: int| 0 <= i < a0.len() && a0[i] == a as usize; assert(alternative_nr@[i] == a as usize); }
            }
        }
    }
//@at fn_end
    proof {
        assert forall|d: Delivered, sy: Symbols| #![trigger was_of(d, sy)] (forall|k: Seq<(NodeID, usize)>| #![trigger d.has(k)] !d.has(k)) implies forall|m: Seq<Match>| #![trigger (was_of(d, sy))(m)] !(was_of(d, sy))(m) by {}
        assert forall|x: ExecutionPlan| #![trigger x.rest()] (forall|k: Seq<(NodeID, usize)>| #![trigger x.unique_result_set.has(k)] !x.unique_result_set.has(k)) && x.current_plan == 0 implies x.rest() == if x.proxy_mode { x.tail(0) } else { fresh(x.tail(0), |m: Seq<Match>| false) } by {
            lemma_fresh_eq(x.tail(0), x.was(), |m: Seq<Match>| false);
        }
    }
//@end
//@fn src=graphannis/src/annis/db/plan.rs item=ExecutionPlan::reorder_match ret=ret
//@rewrite oit: &self\.output_node_pos\[self\.current_plan\] => oit: self.output_node_pos[self.current_plan].iter()
//@forname 0 oit
//@rewrite inverse_node_pos\.iter\(\)\.position\(\|p\| p == node_pos\) => position_of(inverse_node_pos, node_pos)
//@rewrite MatchGroup::new\(\) => Vec::new()
//@rewrite (?s)if let Some\(m\) = stream_pos\.and_then\(\|stream_pos\| tmp\.get_mut\(stream_pos\)\) \{\s*result\.push\(std::mem::take\(m\)\);\s*\} => if let Some(m) = take_at(&mut tmp, stream_pos) { result.push(m); }
//@spec
    requires self.current_plan < self.output_node_pos@.len(), self.current_plan < self.inverse_node_pos@.len(), self.current_plan < self.plans@.len(),
        positions(self.pos(self.current_plan as int), tmp@.len()), fits(self.output_node_pos@[self.current_plan as int]@, self.pos(self.current_plan as int)),
        match self.inverse_node_pos@[self.current_plan as int] {
            None => forall|k: usize| #![trigger self.pos(self.current_plan as int).contains_key(k)] self.pos(self.current_plan as int).contains_key(k) ==> self.pos(self.current_plan as int)[k] == k,
            Some(inv) => inv@.len() == tmp@.len() && forall|k: usize| #![trigger self.pos(self.current_plan as int).contains_key(k)] self.pos(self.current_plan as int).contains_key(k) ==> inv@[self.pos(self.current_plan as int)[k] as int] == k,
        },
    ensures ret@ == ordered(self.pos(self.current_plan as int), self.output_node_pos@[self.current_plan as int]@, tmp@),
//@at fn_start
    let ghost (t0, pm, out, cur) = (tmp@, self.pos(self.current_plan as int), self.output_node_pos@[self.current_plan as int]@, self.current_plan as int);
//@loop 0
    invariant t0.len() == tmp@.len(), pm == self.pos(cur), out == self.output_node_pos@[cur]@, cur == self.current_plan, positions(pm, t0.len()), fits(out, pm),
        self.current_plan < self.output_node_pos@.len(), self.current_plan < self.inverse_node_pos@.len(), self.current_plan < self.plans@.len(),
        match self.inverse_node_pos@[cur] {
            None => forall|k: usize| #![trigger pm.contains_key(k)] pm.contains_key(k) ==> pm[k] == k,
            Some(inv) => inv@.len() == t0.len() && forall|k: usize| #![trigger pm.contains_key(k)] pm.contains_key(k) ==> inv@[pm[k] as int] == k,
        },
        oit.seq().len() == out.len(), forall|j: int| #![trigger oit.seq()[j]] 0 <= j < out.len() ==> *oit.seq()[j] == out[j],
        result@.len() == oit.index(), forall|j: int| #![trigger result@[j]] 0 <= j < oit.index() ==> result@[j] == t0[pm[out[j]] as int],
        forall|j: int| #![trigger out[j]] oit.index() <= j < out.len() ==> tmp@[pm[out[j]] as int] == t0[pm[out[j]] as int],
//@at loop_start 0
    let ghost (k, tb, ix) = (*node_pos, tmp@, oit.index() as int);
    proof {
        assert(k == out[ix] && pm.contains_key(k) && pm[k] < t0.len());
        if self.inverse_node_pos@[cur] is Some {
            let inv = self.inverse_node_pos@[cur]->0@;
            assert(inv[pm[k] as int] == k);
            assert forall|i: int| 0 <= i < inv.len() && inv[i] == k implies i == pm[k] by {
                assert(at(pm, i as usize));
                let q = choose|q: usize| #![trigger pm.contains_key(q)] pm.contains_key(q) && pm[q] == i as usize;
                assert(inv[pm[q] as int] == q);
            }
        }
    }
//@at loop_end 0
    proof {
        assert forall|j: int| #![trigger out[j]] ix < j < out.len() implies tmp@[pm[out[j]] as int] == t0[pm[out[j]] as int] by {
            assert(out[j] != out[ix]);
            assert(pm.contains_key(out[j]) && pm.contains_key(out[ix]));
            assert(pm[out[j]] != pm[k]);
            assert(pm[out[j]] < t0.len());
            assert(tmp@[pm[out[j]] as int] == tb[pm[out[j]] as int]);
        }
    }
//@at fn_end
    proof { assert(result@ =~= ordered(pm, out, t0)); }
//@end
//@fn src=graphannis/src/annis/db/plan.rs item=ExecutionPlan::insert_into_unique_result_set ret=ret
//@spec
    requires all_valid(old(self).unique_result_set, old(self).anno_key_symbols),
    ensures final(self).plans == old(self).plans, final(self).current_plan == old(self).current_plan, final(self).inverse_node_pos == old(self).inverse_node_pos,
        final(self).output_node_pos == old(self).output_node_pos, final(self).proxy_mode == old(self).proxy_mode, final(self).alternative_nr == old(self).alternative_nr,
        ret matches Ok(b) ==> all_valid(final(self).unique_result_set, final(self).anno_key_symbols)
            && b == !(old(self).was())(n@) && forall|m: Seq<Match>| #![trigger (final(self).was())(m)] (final(self).was())(m) == (m == n@ || (old(self).was())(m)),
        ret matches Ok(b) ==> !final(self).proxy_mode ==> final(self).rest() == fresh(old(self).tail(old(self).current_plan as int), if b { added(old(self).was(), n@) } else { old(self).was() }),
//@at fn_end
    proof { lemma_rest(*old(self), *self, old(self).was()); }
//@at after_call match_group_with_symbol_ids 0
    proof {
        let (d, a, b) = (old(self).unique_result_set, old(self).anno_key_symbols, self.anno_key_symbols);
        assert(all_valid(d, b)) by { assert forall|u: Seq<(NodeID, usize)>, i: int| #![trigger d.has(u), u[i]] d.has(u) && 0 <= i < u.len() implies b.val(u[i].1) is Some by { assert(a.val(u[i].1) is Some); } }
        lemma_seen(d, a, b, key@, n@);
    }
    let ghost g0 = self.unique_result_set;
//@at after_call insert 0
    proof { lemma_seen_more(g0, self.unique_result_set, self.anno_key_symbols, g_key, n@); lemma_rest(*old(self), *self, added(old(self).was(), n@)); }
//@at before_call insert 0
    let ghost g_key = key@;
//@end
//@fn src=graphannis/src/annis/db/plan.rs item="Iterator for ExecutionPlan::next" ret=ret
//@rewrite Option<Self::Item> => Option<Result<MatchGroup>>
//@rewrite (?s)self\.plans\[0\]\s*\.next\(\)\s*\.map\(\|n\| n\.map\(\|n\| self\.reorder_match\(n\)\)\) => match next_at(&mut self.plans, 0) { None => { proof { assert(old(self).outputs(0) =~= seq![]); assert(old(self).tail(1) =~= seq![]); assert(old(self).tail(0) =~= seq![]); } None }, Some(Err(e)) => Some(Err(e)), Some(Ok(n)) => { proof { lemma_plans_wf(*old(self), *self, 0); lemma_taken(*old(self), *self, 0); let _ = old(self).plans@[0]@[0]; } Some(Ok(self.reorder_match(n))) } }
//@rewrite self\.plans\[self\.current_plan\]\.next\(\) => next_at(&mut self.plans, self.current_plan)
//@spec
    requires old(self).wf(),
    ensures ret is None || ret->0 is Ok ==> final(self).wf(), step(ret, old(self).rest(), final(self).rest()),
//@at fn_start
    proof { if self.proxy_mode { assert(self.plan_wf(0)) by { let _ = self.plans@[0]; } } }
//@at loop_start 0
    let ghost s0 = *self;
    proof { let _ = self.plans@[self.current_plan as int]; }
//@at before_call reorder_match 1
    proof { lemma_plans_wf(s0, *self, s0.current_plan as int); lemma_taken(s0, *self, s0.current_plan as int); let _ = s0.plans@[s0.current_plan as int]@[0]; }
//@at before_call insert_into_unique_result_set 0
    let ghost g_n = n@;
    proof { assert(s0.tail(s0.current_plan as int)[0] == Some(g_n)); assert(self.was() == s0.was()); if !(s0.was())(g_n) { lemma_first(s0.tail(s0.current_plan as int), s0.was(), g_n); } assert(self.current_plan == s0.current_plan); }
//@at loop_end 0
    proof { if self.current_plan == s0.current_plan + 1 { assert(s0.outputs(s0.current_plan as int) =~= seq![]); assert(s0.tail(s0.current_plan as int) =~= s0.tail(self.current_plan as int)); lemma_tail(s0, *self, self.current_plan as int); lemma_fresh_eq(self.tail(self.current_plan as int), s0.was(), self.was()); } }
//@loop 0
    invariant self.wf(), self.proxy_mode == old(self).proxy_mode, !self.proxy_mode, self.rest() == old(self).rest(),
    decreases self.plans@.len() - self.current_plan, if self.current_plan < self.plans@.len() { self.plans@[self.current_plan as int]@.len() } else { 0 },
//@end
//@fn src=graphannis/src/annis/db/plan.rs item=ExecutionPlan::current_alternative ret=ret
//@rewrite self\.alternative_nr\.get\(self\.current_plan\)\.copied\(\) => copied(self.alternative_nr.get(self.current_plan))
//@spec
    ensures ret == if self.current_plan < self.alternative_nr@.len() { Some(self.alternative_nr@[self.current_plan as int]) } else { None },
//@end
}
fn copied(x: Option<&usize>) -> (r: Option<usize>) ensures r == match x { Some(v) => Some(*v), None => None } { match x { Some(v) => Some(*v), None => None } }
} // verus!
fn main() {}
