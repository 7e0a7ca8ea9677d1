// Verus unit: the plan of a conjunction delivers exactly the assignments that fulfil it, whatever the order of its joins
#![allow(unused)]
use vstd::prelude::*;
use std::sync::Arc;
verus! {
global size_of usize == 8;
pub struct AQLError { pub desc: String, pub location: Option<LineColumnRange> }
pub enum GraphAnnisError { NoComponentForNode(usize), NoExecutionNode(usize), PlanDescriptionMissing, PlanCostMissing, LHSOperandNotFound, RHSOperandNotFound, ImpossibleSearch(String), AQLSemanticError(AQLError), Other(u64) }
pub type Result<T> = std::result::Result<T, GraphAnnisError>;
#[verifier::external_body]
pub fn some_string() -> String { unimplemented!() }
#[derive(Clone, Copy)]
pub struct TimeoutCheck { pub x: u64 }
pub struct Config { pub use_parallel_joins: bool }
#[verifier::external_body]
pub struct LineColumnRange { x: u8 }
impl Clone for LineColumnRange {
    #[verifier::external_body]
    fn clone(&self) -> LineColumnRange { unimplemented!() }
}
#[verifier::external_body]
pub struct Locations { x: u8 }
impl Locations {
    /// `get(name).cloned()`
    #[verifier::external_body]
    pub fn of(&self, name: &String) -> Option<LineColumnRange> { unimplemented!() }
}
#[verifier::external_body]
pub struct SizeCache { x: u8 }
impl SizeCache {
    #[verifier::external_body]
    pub fn new() -> SizeCache { unimplemented!() }
}
#[verifier::external_body]
pub struct SmallRng { x: u8 }
impl SmallRng {
    #[verifier::external_body]
    pub fn new() -> SmallRng { unimplemented!() }
}
#[verifier::external_body]
pub struct Uniform { x: u8 }
impl Uniform {
    pub uninterp spec fn bounds(&self, a: int, b: int) -> bool;
    #[verifier::external_body]
    pub fn new(a: usize, b: usize) -> (r: Result<Uniform>) ensures r matches Ok(u) ==> u.bounds(a as int, b as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn sample(&self, rng: &mut SmallRng) -> (r: usize) ensures forall|a: int, b: int| #[trigger] self.bounds(a, b) ==> a <= r < b { unimplemented!() }
}
/// `(0..n).collect()`
#[verifier::external_body]
pub fn below(n: usize) -> (r: Vec<usize>) ensures r@.len() == n, forall|i: int| #![trigger r@[i]] 0 <= i < n ==> r@[i] == i { unimplemented!() }
/// `Vec::swap`
#[verifier::external_body]
pub fn exchange(v: &mut Vec<usize>, a: usize, b: usize)
    requires a < old(v)@.len(), b < old(v)@.len(),
    ensures final(v)@ == old(v)@.update(a as int, old(v)@[b as int]).update(b as int, old(v)@[a as int])
{ unimplemented!() }
/// BTreeMap<usize, V>
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
pub struct OrdMap<V> { x: Vec<V> }
impl<V> View for OrdMap<V> { type V = Map<usize, V>; uninterp spec fn view(&self) -> Map<usize, V>; }
impl<V> OrdMap<V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<usize, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: usize, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &usize) -> (r: Option<V>)
        ensures r is Some <==> old(self)@.contains_key(*k), r matches Some(v) ==> v == old(self)@[*k], final(self)@ == old(self)@.remove(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &usize) -> (r: Option<&V>) ensures r is Some <==> self@.contains_key(*k), r matches Some(v) ==> *v == self@[*k] { unimplemented!() }
    /// `into_values().next()`
    #[verifier::external_body]
    pub fn first_value(self) -> (r: Option<V>) ensures r matches Some(v) ==> exists|k: usize| self@.contains_key(k) && #[trigger] self@[k] == v, r is None ==> self@ == Map::<usize, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn entries(&self) -> (r: Vec<(&usize, &V)>)
        ensures
            forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> self@.contains_key(*r@[i].0) && self@[*r@[i].0] == *r@[i].1,
            forall|k: usize| #![trigger self@.contains_key(k)] self@.contains_key(k) ==> exists|i: int| #![trigger r@[i]] 0 <= i < r@.len() && *r@[i].0 == k,
    { unimplemented!() }
}
pub type NodePos = OrdMap<usize>;
impl Clone for NodePos {
    #[verifier::external_body]
    fn clone(&self) -> (r: NodePos) ensures r == *self { unimplemented!() }
}

// ---- matches and operators ---------------------------------------------------------------------
#[verifier::external_body]
pub struct Match { x: u8 }
/// different node or different annotation key (Match::different_to, unit joins)
pub uninterp spec fn diff(a: Match, b: Match) -> bool;
pub broadcast axiom fn axiom_diff(a: Match, b: Match) ensures #[trigger] diff(a, b) == diff(b, a);
#[verifier::external_body]
pub struct Op { x: u8 }
impl Op {
    pub uninterp spec fn accepts(&self, a: Match, b: Match) -> bool;
    pub uninterp spec fn reflexive(&self) -> bool;
}
pub enum BinaryOperator { Base(Op), Index(Op) }
impl BinaryOperator {
    pub open spec fn accepts(&self, a: Match, b: Match) -> bool { match *self { BinaryOperator::Base(o) => o.accepts(a, b), BinaryOperator::Index(o) => o.accepts(a, b) } }
    pub open spec fn reflexive(&self) -> bool { match *self { BinaryOperator::Base(o) => o.reflexive(), BinaryOperator::Index(o) => o.reflexive() } }
    #[verifier::external_body]
    pub fn is_reflexive(&self) -> (r: bool) ensures r == self.reflexive() { unimplemented!() }
    /// P12: the inverse operator tests the swapped pair
    #[verifier::external_body]
    pub fn get_inverse_operator(&self, g: &AnnotationGraph) -> (r: Result<Option<BinaryOperator>>)
        ensures r matches Ok(Some(i)) ==> i.reflexive() == self.reflexive() && forall|a: Match, b: Match| #![trigger i.accepts(a, b)] i.accepts(a, b) == self.accepts(b, a)
    { unimplemented!() }
}
#[verifier::external_body]
pub struct UnOp { x: u8 }
impl UnOp { pub uninterp spec fn accepts(&self, a: Match) -> bool; }
#[verifier::external_body]
pub struct AnnotationGraph { x: u8 }
#[verifier::external_body]
pub struct NodeAnnos { x: u8 }
impl AnnotationGraph {
    #[verifier::external_body]
    pub fn get_node_annos(&self) -> &NodeAnnos { unimplemented!() }
    #[verifier::external_body]
    pub fn get_graphstorage(&self, c: &Component) -> Option<Storage> { unimplemented!() }
}
#[verifier::external_body]
pub struct Component { x: u8 }
#[verifier::external_body]
pub struct EdgeAnnos { x: u8 }
pub struct GraphStatistic { pub nodes: usize }
#[verifier::external_body]
pub struct Storage { x: u8 }
impl Storage {
    #[verifier::external_body]
    pub fn get_anno_storage(&self) -> &EdgeAnnos { unimplemented!() }
    #[verifier::external_body]
    pub fn get_statistics(&self) -> Option<&GraphStatistic> { unimplemented!() }
}
#[verifier::external_body]
pub struct EdgeAnnoSearchSpec { x: u8 }
impl EdgeAnnoSearchSpec {
    #[verifier::external_body]
    pub fn guess_max_count(&self, a: &EdgeAnnos) -> Result<usize> { unimplemented!() }
}
/// sums of estimates (only used to choose between equivalent searches)
#[verifier::external_body]
pub fn more(a: usize, b: usize) -> usize { unimplemented!() }
/// the node has an outgoing edge (with this annotation) in one of the components
pub uninterp spec fn is_source(g: AnnotationGraph, cs: Seq<Component>, e: Option<EdgeAnnoSearchSpec>, m: Match) -> bool;
/// specification of a binary operator
#[verifier::external_body]
pub struct OpSpec { x: u8 }
impl OpSpec {
    pub uninterp spec fn holds(&self, g: AnnotationGraph, a: Match, b: Match) -> bool;
    pub uninterp spec fn refl(&self, g: AnnotationGraph) -> bool;
    pub uninterp spec fn comps(&self, g: AnnotationGraph) -> Seq<Component>;
    pub uninterp spec fn edge_spec(&self) -> Option<EdgeAnnoSearchSpec>;
    pub uninterp spec fn from_sources(&self) -> bool;
    pub uninterp spec fn binding(&self) -> bool;
    #[verifier::external_body]
    pub fn create_operator(&self, g: &AnnotationGraph, c: Option<(&CostEstimate, &CostEstimate)>) -> (r: Result<BinaryOperator>)
        ensures r matches Ok(o) ==> o.reflexive() == self.refl(*g) && forall|a: Match, b: Match| #![trigger o.accepts(a, b)] o.accepts(a, b) == self.holds(*g, a, b)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn lhs_is_source_node(&self) -> (r: bool) ensures r == self.from_sources() { unimplemented!() }
    #[verifier::external_body]
    pub fn necessary_components(&self, g: &AnnotationGraph) -> (r: Vec<Component>) ensures r@ == self.comps(*g) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_edge_anno_spec(&self) -> (r: Option<EdgeAnnoSearchSpec>) ensures r == self.edge_spec() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_binding(&self) -> (r: bool) ensures r == self.binding() { unimplemented!() }
    /// P12: an operator whose left-hand side is a source node holds only for source nodes of its components
    #[verifier::external_body]
    pub proof fn sources(&self, g: AnnotationGraph, a: Match, b: Match) ensures self.from_sources() && self.holds(g, a, b) ==> is_source(g, self.comps(g), self.edge_spec(), a) {}
}
#[verifier::external_body]
pub struct UnSpec { x: u8 }
impl UnSpec {
    pub uninterp spec fn holds(&self, g: AnnotationGraph, a: Match) -> bool;
    #[verifier::external_body]
    pub fn create_operator(&self, g: &AnnotationGraph) -> (r: Result<UnOp>) ensures r matches Ok(o) ==> forall|a: Match| #![trigger o.accepts(a)] o.accepts(a) == self.holds(*g, a) { unimplemented!() }
}
#[verifier::external_body]
pub struct NodeSearchSpec { x: u8 }
impl NodeSearchSpec { pub uninterp spec fn holds(&self, g: AnnotationGraph, m: Match) -> bool; }
impl Clone for NodeSearchSpec {
    #[verifier::external_body]
    fn clone(&self) -> (r: NodeSearchSpec) ensures r == *self { unimplemented!() }
}

// ---- steps of the plan -------------------------------------------------------------------------
//@item src=graphannis/src/annis/db/exec/mod.rs item="struct CostEstimate"
impl Clone for CostEstimate {
    #[verifier::external_body]
    fn clone(&self) -> (r: CostEstimate) ensures r == *self { unimplemented!() }
}
//@item src=graphannis/src/annis/db/exec/mod.rs item="struct ExecutionNodeDesc"
//@rewrite BTreeMap<usize, usize> => NodePos
/// description of a node search, shared with index joins
#[verifier::external_body]
pub struct NodeSearchDesc { x: u8 }
impl NodeSearchDesc { pub uninterp spec fn selects(&self, m: Match) -> bool; }
pub open spec fn sel_fn(s: NodeSearchDesc) -> spec_fn(Seq<Match>) -> bool { |m: Seq<Match>| m.len() == 1 && s.selects(m[0]) }
pub struct SearchRef { pub desc: Arc<NodeSearchDesc> }
impl SearchRef { pub fn get_node_search_desc(&self) -> (r: Arc<NodeSearchDesc>) ensures r == self.desc { self.desc.clone() } }
pub struct NodeSearch { pub d: Option<ExecutionNodeDesc>, pub desc: Arc<NodeSearchDesc>, pub g: Ghost<spec_fn(Seq<Match>) -> bool> }
/// any step: its description, the search behind it (if it is nothing but a search) and the matches it delivers
pub struct Exec { pub d: Option<ExecutionNodeDesc>, pub ns: Option<SearchRef>, pub g: Ghost<spec_fn(Seq<Match>) -> bool> }
impl Exec {
    pub fn get_desc(&self) -> (r: Option<&ExecutionNodeDesc>) ensures match r { Some(d) => self.d == Some(*d), None => self.d is None } { match &self.d { Some(d) => Some(d), None => None } }
    pub fn as_nodesearch(&self) -> (r: Option<&SearchRef>) ensures match r { Some(d) => self.ns == Some(*d), None => self.ns is None } { match &self.ns { Some(d) => Some(d), None => None } }
    pub open spec fn pos(&self) -> Map<usize, usize> { self.d->0.node_pos@ }
}
/// the search delivers what its description selects
pub open spec fn whole(s: NodeSearch) -> bool { forall|m: Seq<Match>| #![trigger (s.g@)(m)] (s.g@)(m) <==> (sel_fn(*s.desc))(m) }
impl NodeSearch {
    pub fn get_desc(&self) -> (r: Option<&ExecutionNodeDesc>) ensures match r { Some(d) => self.d == Some(*d), None => self.d is None } { match &self.d { Some(d) => Some(d), None => None } }
    pub fn set_desc(&mut self, d: Option<ExecutionNodeDesc>) ensures final(self).d == d, final(self).desc == old(self).desc, final(self).g == old(self).g { self.d = d; }
    pub fn get_node_search_desc(&self) -> (r: Arc<NodeSearchDesc>) ensures r == self.desc { self.desc.clone() }
    pub fn boxed(self) -> (r: Exec) ensures r.d == self.d, r.ns == Some(SearchRef { desc: self.desc }), r.g == self.g { Exec { d: self.d, ns: Some(SearchRef { desc: self.desc }), g: self.g } }
    #[verifier::external_body]
    pub fn from_spec(s: NodeSearchSpec, nr: usize, db: &AnnotationGraph, l: Option<LineColumnRange>, c: &mut SizeCache, t: TimeoutCheck) -> (r: Result<NodeSearch>)
        ensures r matches Ok(x) ==> whole(x) && forall|m: Match| #![trigger x.desc.selects(m)] x.desc.selects(m) <==> s.holds(*db, m)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn new_partofcomponentsearch(db: &AnnotationGraph, s: Arc<NodeSearchDesc>, d: Option<&ExecutionNodeDesc>, cs: Vec<Component>, e: Option<EdgeAnnoSearchSpec>, t: TimeoutCheck) -> (r: Result<NodeSearch>)
        ensures r matches Ok(x) ==> x.desc == s
            && (match (x.d, d) { (Some(a), Some(b)) => a.node_pos == b.node_pos && a.component_nr == b.component_nr, (None, None) => true, _ => false })
            && forall|m: Seq<Match>| #![trigger (x.g@)(m)] (x.g@)(m) <==> (sel_fn(*s))(m) && is_source(*db, cs@, e, m[0])
    { unimplemented!() }
}
/// each node has one position and each position a node
pub open spec fn onto(p: Map<usize, usize>) -> bool {
    &&& p.dom().len() <= usize::MAX
    &&& forall|n: usize| #![trigger p.contains_key(n)] #![trigger p[n]] p.contains_key(n) ==> p[n] < p.dom().len()
    &&& forall|n: usize, k: usize| #![trigger p[n], p[k]] p.contains_key(n) && p.contains_key(k) && p[n] == p[k] ==> n == k
    &&& forall|j: int| #![trigger at_pos(p, j)] 0 <= j < p.dom().len() ==> at_pos(p, j)
}
pub open spec fn at_pos(p: Map<usize, usize>, j: int) -> bool { exists|n: usize| p.contains_key(n) && #[trigger] p[n] == j }
pub open spec fn joined_pos(l: Map<usize, usize>, r: Map<usize, usize>, ln: nat) -> Map<usize, usize> {
    Map::new(l.dom().union(r.dom()), |k: usize| if r.contains_key(k) { (r[k] + ln) as usize } else { l[k] })
}
/// the operands are different from each other (and from all other nodes)
pub open spec fn alldiff(m: Seq<Match>, x: int, y: int, global: bool) -> bool {
    if global { forall|j: int| #![trigger m[j]] 0 <= j < m.len() ==> (j != x ==> diff(m[x], m[j])) && (j != y ==> diff(m[y], m[j])) } else { diff(m[x], m[y]) }
}
pub open spec fn combined(op: BinaryOperator, ga: spec_fn(Seq<Match>) -> bool, gb: spec_fn(Seq<Match>) -> bool, na: int, n: int, x: int, y: int, m: Seq<Match>) -> bool {
    m.len() == n && ga(m.take(na)) && gb(m.skip(na)) && op.accepts(m[x], m[y])
}
/// `e` combines the matches of `a` with those of `b` (in this order), `x` and `y` are the positions of the operands
pub open spec fn joined_in(e: Exec, op: BinaryOperator, a: Exec, ga: spec_fn(Seq<Match>) -> bool, b: Exec, gb: spec_fn(Seq<Match>) -> bool, x: int, y: int, global: bool) -> bool {
    let (na, nb) = (a.pos().dom().len(), b.pos().dom().len());
    &&& e.d is Some && e.ns is None && (e.d->0).component_nr == (a.d->0).component_nr
    &&& e.pos() == joined_pos(a.pos(), b.pos(), na)
    &&& forall|m: Seq<Match>| #![trigger (e.g@)(m)] (e.g@)(m) ==> combined(op, ga, gb, na as int, (na + nb) as int, x, y, m)
    &&& forall|m: Seq<Match>| #![trigger (e.g@)(m)] combined(op, ga, gb, na as int, (na + nb) as int, x, y, m) && (op.reflexive() || alldiff(m, x, y, global)) ==> (e.g@)(m)
}
pub open spec fn joined(e: Exec, op: BinaryOperator, l: Exec, gl: spec_fn(Seq<Match>) -> bool, r: Exec, gr: spec_fn(Seq<Match>) -> bool, li: int, ri: int, global: bool) -> bool {
    ||| joined_in(e, op, l, gl, r, gr, li, l.pos().dom().len() + ri, global)
    ||| joined_in(e, op, r, gr, l, gl, r.pos().dom().len() + li, ri, global)
}
/// the matches of a step, or all that its search selects
pub open spec fn eff(e: Exec, g: spec_fn(Seq<Match>) -> bool) -> bool { g == e.g@ || (e.ns matches Some(s) && g == sel_fn(*s.desc)) }
pub open spec fn joins(e: Exec, op: BinaryOperator, l: Exec, r: Exec, li: int, ri: int, global: bool) -> bool {
    exists|gl: spec_fn(Seq<Match>) -> bool, gr: spec_fn(Seq<Match>) -> bool| eff(l, gl) && eff(r, gr) && #[trigger] joined(e, op, l, gl, r, gr, li, ri, global)
}
pub open spec fn sized(e: Exec) -> bool {
    &&& e.d is Some && onto(e.pos()) && e.pos().dom().len() > 0
    &&& forall|m: Seq<Match>| #![trigger (e.g@)(m)] (e.g@)(m) ==> m.len() == e.pos().dom().len()
    &&& e.ns is Some ==> e.pos().dom().len() == 1
}
pub open spec fn joinable(l: Exec, r: Exec, li: int, ri: int) -> bool {
    sized(l) && sized(r) && 0 <= li < l.pos().dom().len() && 0 <= ri < r.pos().dom().len() && l.pos().dom().disjoint(r.pos().dom()) && l.pos().dom().len() + r.pos().dom().len() <= usize::MAX
}
pub struct BinaryOperatorArguments { pub left: usize, pub right: usize, pub global_reflexivity: bool }
pub struct BinaryOperatorEntry { pub op: BinaryOperator, pub args: BinaryOperatorArguments }
pub struct UnaryOperatorEntry { pub op: UnOp, pub node_nr: usize }
/// proved in units joins and pjoins
pub mod seq {
    use super::*;
    pub struct NestedLoop { }
    impl NestedLoop {
        #[verifier::external_body]
        pub fn new(op_entry: BinaryOperatorEntry, lhs: Exec, rhs: Exec, lhs_idx: usize, rhs_idx: usize) -> (r: Result<Exec>)
            requires joinable(lhs, rhs, lhs_idx as int, rhs_idx as int),
            ensures r matches Ok(e) ==> joined(e, op_entry.op, lhs, lhs.g@, rhs, rhs.g@, lhs_idx as int, rhs_idx as int, op_entry.args.global_reflexivity)
        { unimplemented!() }
    }
    pub struct IndexJoin { }
    impl IndexJoin {
        #[verifier::external_body]
        pub fn new(lhs: Exec, lhs_idx: usize, op: Op, args: &BinaryOperatorArguments, s: Arc<NodeSearchDesc>, annos: &NodeAnnos, rhs: Option<&ExecutionNodeDesc>, Ghost(r): Ghost<Exec>) -> (ret: Result<Exec>)
            requires rhs == Some(&r.d->0), r.ns == Some(SearchRef { desc: s }), joinable(lhs, r, lhs_idx as int, 0),
            ensures ret matches Ok(e) ==> joined_in(e, BinaryOperator::Index(op), lhs, lhs.g@, r, sel_fn(*s), lhs_idx as int, lhs.pos().dom().len() as int, args.global_reflexivity)
        { unimplemented!() }
    }
}
pub mod par {
    use super::*;
    pub struct NestedLoop { }
    impl NestedLoop {
        #[verifier::external_body]
        pub fn new(op_entry: BinaryOperatorEntry, lhs: Exec, rhs: Exec, lhs_idx: usize, rhs_idx: usize) -> (r: Result<Exec>)
            requires joinable(lhs, rhs, lhs_idx as int, rhs_idx as int),
            ensures r matches Ok(e) ==> joined(e, op_entry.op, lhs, lhs.g@, rhs, rhs.g@, lhs_idx as int, rhs_idx as int, op_entry.args.global_reflexivity)
        { unimplemented!() }
    }
    pub struct IndexJoin { }
    impl IndexJoin {
        #[verifier::external_body]
        pub fn new(lhs: Exec, lhs_idx: usize, op: Op, args: &BinaryOperatorArguments, s: Arc<NodeSearchDesc>, annos: &NodeAnnos, rhs: Option<&ExecutionNodeDesc>, Ghost(r): Ghost<Exec>) -> (ret: Result<Exec>)
            requires rhs == Some(&r.d->0), r.ns == Some(SearchRef { desc: s }), joinable(lhs, r, lhs_idx as int, 0),
            ensures ret matches Ok(e) ==> joined_in(e, BinaryOperator::Index(op), lhs, lhs.g@, r, sel_fn(*s), lhs_idx as int, lhs.pos().dom().len() as int, args.global_reflexivity)
        { unimplemented!() }
    }
}
pub open spec fn same_place(a: Exec, b: Exec) -> bool { a.ns is None && match (a.d, b.d) { (Some(x), Some(y)) => x.node_pos == y.node_pos && x.component_nr == y.component_nr, (None, None) => true, _ => false } }
pub open spec fn refl_arg(m: Seq<Match>, a: BinaryOperatorArguments) -> bool { (a.global_reflexivity ==> a.left != a.right) && alldiff(m, a.left as int, a.right as int, a.global_reflexivity) }
pub struct Filter { }
impl Filter {
    #[verifier::external_body]
    pub fn new_binary(exec: Exec, l: usize, r: usize, o: BinaryOperatorEntry) -> (ret: Result<Exec>)
        requires sized(exec), l < exec.pos().dom().len(), r < exec.pos().dom().len(),
        ensures ret matches Ok(e) ==> same_place(e, exec) && forall|m: Seq<Match>| #![trigger (e.g@)(m)] (e.g@)(m) <==> (exec.g@)(m) && o.op.accepts(m[l as int], m[r as int])
    { unimplemented!() }
    #[verifier::external_body]
    pub fn new_unary(exec: Exec, i: usize, o: UnaryOperatorEntry) -> (e: Exec)
        requires sized(exec), i < exec.pos().dom().len(),
        ensures same_place(e, exec), forall|m: Seq<Match>| #![trigger (e.g@)(m)] (e.g@)(m) <==> (exec.g@)(m) && o.op.accepts(m[i as int])
    { unimplemented!() }
    #[verifier::external_body]
    pub fn new_reflexivity(exec: Exec, args: Vec<BinaryOperatorArguments>) -> (e: Exec)
        requires sized(exec), forall|k: int| #![trigger args@[k]] 0 <= k < args@.len() ==> args@[k].left < exec.pos().dom().len() && args@[k].right < exec.pos().dom().len(),
        ensures e.d == exec.d, forall|m: Seq<Match>| #![trigger (e.g@)(m)] (e.g@)(m) <==> (exec.g@)(m) && forall|k: int| #![trigger args@[k]] 0 <= k < args@.len() ==> refl_arg(m, args@[k])
    { unimplemented!() }
}

// ---- the query ---------------------------------------------------------------------------------
pub struct BinaryOperatorSpecEntry { pub op: Arc<OpSpec>, pub args: BinaryOperatorArguments }
pub struct UnaryOperatorSpecEntry { pub op: Arc<UnSpec>, pub idx: usize }
pub struct NodeSearchSpecEntry { pub var: String, pub spec: NodeSearchSpec, pub optional: bool }
pub struct Conjunction {
    pub nodes: Vec<NodeSearchSpecEntry>,
    pub binary_operators: Vec<BinaryOperatorSpecEntry>,
    pub unary_operators: Vec<UnaryOperatorSpecEntry>,
    pub location_in_query: Locations,
    pub var_idx_offset: usize,
}
pub type Answer = Map<usize, Match>;
impl Conjunction {
    pub open spec fn l(&self, k: int) -> usize { (self.binary_operators@[k].args.left - self.var_idx_offset) as usize }
    pub open spec fn r(&self, k: int) -> usize { (self.binary_operators@[k].args.right - self.var_idx_offset) as usize }
    pub open spec fn is_op(&self, k: int) -> bool { 0 <= k < self.binary_operators@.len() }
    pub open spec fn wanted(&self, n: int) -> bool { 0 <= n < self.nodes@.len() && !self.nodes@[n].optional }
    /// operands are nodes of this conjunction
    pub open spec fn wf(&self) -> bool {
        &&& self.var_idx_offset + self.nodes@.len() <= usize::MAX
        &&& forall|k: int| #![trigger self.binary_operators@[k]] self.is_op(k) ==> self.var_idx_offset <= self.binary_operators@[k].args.left < self.var_idx_offset + self.nodes@.len()
            && self.var_idx_offset <= self.binary_operators@[k].args.right < self.var_idx_offset + self.nodes@.len()
    }
    pub open spec fn node_ok(&self, g: AnnotationGraph, n: usize, m: Match) -> bool { self.nodes@[n as int].spec.holds(g, m) }
    pub open spec fn holds(&self, g: AnnotationGraph, k: int, a: Match, b: Match) -> bool { self.binary_operators@[k].op.holds(g, a, b) }
    pub open spec fn strict(&self, g: AnnotationGraph, k: int) -> bool { !self.binary_operators@[k].op.refl(g) }
    pub open spec fn global(&self, k: int) -> bool { self.binary_operators@[k].args.global_reflexivity }
    pub open spec fn strict_ok(&self, k: int, a: Answer) -> bool {
        if self.global(k) { self.l(k) != self.r(k) && forall|n: usize| #![trigger a[n]] self.wanted(n as int) ==> (n != self.l(k) ==> diff(a[self.l(k)], a[n])) && (n != self.r(k) ==> diff(a[self.r(k)], a[n])) }
        else { diff(a[self.l(k)], a[self.r(k)]) }
    }
    /// the meaning of the conjunction: a match for each node that fulfils all conditions
    pub open spec fn solution(&self, g: AnnotationGraph, a: Answer) -> bool {
        &&& forall|n: usize| #![trigger a[n]] self.wanted(n as int) ==> self.node_ok(g, n, a[n])
        &&& forall|k: int| #![trigger self.unary_operators@[k]] 0 <= k < self.unary_operators@.len() ==> self.unary_operators@[k].op.holds(g, a[self.unary_operators@[k].idx])
        &&& forall|k: int| #![trigger self.is_op(k)] self.is_op(k) ==> self.holds(g, k, a[self.l(k)], a[self.r(k)]) && (self.strict(g, k) ==> self.strict_ok(k, a))
    }
    /// operators connect all nodes: what is the same for the operands of every operator is the same for all nodes
    pub open spec fn connected(&self) -> bool {
        forall|f: spec_fn(int) -> int| #![trigger self.agrees(f)] self.agrees(f) ==> forall|a: int, b: int| #![trigger f(a), f(b)] self.wanted(a) && self.wanted(b) ==> f(a) == f(b)
    }
    pub open spec fn agrees(&self, f: spec_fn(int) -> int) -> bool { forall|k: int| #![trigger self.is_op(k)] self.is_op(k) && self.binary_operators@[k].op.binding() ==> f(self.l(k) as int) == f(self.r(k) as int) }
}

// ---- what the steps of an unfinished plan deliver -----------------------------------------------
pub struct Done { pub un: int, pub bin: Set<int> }
impl Conjunction {
    /// the match fulfils the conditions that only concern its nodes
    pub open spec fn fits(&self, g: AnnotationGraph, done: Done, p: Map<usize, usize>, m: Seq<Match>) -> bool {
        &&& m.len() == p.dom().len()
        &&& forall|n: usize| #![trigger p[n]] p.contains_key(n) ==> self.node_ok(g, n, m[p[n] as int])
        &&& forall|k: int| #![trigger self.unary_operators@[k]] 0 <= k < done.un && p.contains_key(self.unary_operators@[k].idx) ==> self.unary_operators@[k].op.holds(g, m[p[self.unary_operators@[k].idx] as int])
        &&& forall|k: int| #![trigger self.is_op(k)] done.bin.contains(k) && self.is_op(k) && p.contains_key(self.l(k)) ==> self.holds(g, k, m[p[self.l(k)] as int], m[p[self.r(k)] as int])
    }
    pub open spec fn sound(&self, g: AnnotationGraph, done: Done, p: Map<usize, usize>, e: spec_fn(Seq<Match>) -> bool) -> bool { forall|m: Seq<Match>| #![trigger e(m)] e(m) ==> self.fits(g, done, p, m) }
    /// no part of an answer is lost
    pub open spec fn complete(&self, g: AnnotationGraph, p: Map<usize, usize>, e: spec_fn(Seq<Match>) -> bool) -> bool { forall|a: Answer, m: Seq<Match>| #![trigger part_of(m, p, a), e(m)] self.solution(g, a) && part_of(m, p, a) ==> e(m) }
    pub open spec fn step_ok(&self, g: AnnotationGraph, done: Done, e: Exec) -> bool {
        &&& sized(e)
        &&& self.sound(g, done, e.pos(), e.g@) && self.complete(g, e.pos(), e.g@)
        &&& e.ns matches Some(s) ==> self.sound(g, done, e.pos(), sel_fn(*s.desc)) && self.complete(g, e.pos(), sel_fn(*s.desc))
    }
    /// the steps partition the nodes
    pub open spec fn steps(&self, g: AnnotationGraph, done: Done, x: Map<usize, Exec>, n2c: Map<usize, usize>) -> bool {
        &&& n2c.dom().len() <= self.nodes@.len()
        &&& forall|n: usize| #![trigger n2c[n]] #![trigger n2c.contains_key(n)] n2c.contains_key(n) ==> self.wanted(n as int) && x.contains_key(n2c[n])
        &&& forall|c: usize| #![trigger x[c]] x.contains_key(c) ==> self.step_ok(g, done, x[c]) && (x[c].d->0).component_nr == c
        &&& forall|c: usize, n: usize| #![trigger x[c].pos().contains_key(n)] x.contains_key(c) ==> (x[c].pos().contains_key(n) <==> n2c.contains_key(n) && n2c[n] == c)
        &&& forall|k: int| #![trigger self.is_op(k)] done.bin.contains(k) && self.is_op(k) ==> n2c.contains_key(self.l(k)) && n2c.contains_key(self.r(k)) && n2c[self.l(k)] == n2c[self.r(k)]
    }
    /// operands of the non-reflexive operators
    pub open spec fn noted(&self, g: AnnotationGraph, done: Done, a: Seq<BinaryOperatorArguments>) -> bool {
        &&& forall|k: int| #![trigger self.is_op(k)] done.bin.contains(k) && self.is_op(k) && self.strict(g, k) ==> exists|i: int| #![trigger a[i]] 0 <= i < a.len() && self.arg_of(a[i], k)
        &&& forall|i: int| #![trigger a[i]] 0 <= i < a.len() ==> self.from_op(g, done, a[i])
    }
    pub open spec fn from_op(&self, g: AnnotationGraph, done: Done, a: BinaryOperatorArguments) -> bool { exists|k: int| #![trigger self.is_op(k)] done.bin.contains(k) && self.is_op(k) && self.strict(g, k) && self.arg_of(a, k) }
    pub open spec fn arg_of(&self, a: BinaryOperatorArguments, k: int) -> bool {
        a.global_reflexivity == self.global(k) && ((a.left == self.l(k) && a.right == self.r(k)) || (a.left == self.r(k) && a.right == self.l(k)))
    }
}
pub open spec fn part_of(m: Seq<Match>, p: Map<usize, usize>, a: Answer) -> bool { m.len() == p.dom().len() && forall|n: usize| #![trigger p[n]] p.contains_key(n) ==> m[p[n] as int] == a[n] }

proof fn lemma_onto_joined(a: Map<usize, usize>, b: Map<usize, usize>)
    requires onto(a), onto(b), a.dom().disjoint(b.dom()), a.dom().len() + b.dom().len() <= usize::MAX,
    ensures onto(joined_pos(a, b, a.dom().len())), joined_pos(a, b, a.dom().len()).dom().len() == a.dom().len() + b.dom().len(),
        joined_pos(a, b, a.dom().len()).dom() == a.dom().union(b.dom()),
        forall|n: usize| #![trigger joined_pos(a, b, a.dom().len())[n]] a.contains_key(n) ==> joined_pos(a, b, a.dom().len())[n] == a[n],
        forall|n: usize| #![trigger joined_pos(a, b, a.dom().len())[n]] b.contains_key(n) ==> joined_pos(a, b, a.dom().len())[n] == b[n] + a.dom().len(),
{
    let p = joined_pos(a, b, a.dom().len());
    let na = a.dom().len();
    vstd::set_lib::lemma_set_disjoint_lens(a.dom(), b.dom());
    assert(p.dom() =~= a.dom().union(b.dom()));
    assert(a.dom().union(b.dom()) =~= a.dom() + b.dom());
    assert forall|j: int| 0 <= j < p.dom().len() implies #[trigger] at_pos(p, j) by {
        if j < na { assert(at_pos(a, j)); let n = choose|n: usize| a.contains_key(n) && #[trigger] a[n] == j; assert(a.dom().contains(n) && !b.dom().contains(n)); assert(p.contains_key(n) && p[n] == j); }
        else { assert(at_pos(b, j - na)); let n = choose|n: usize| b.contains_key(n) && #[trigger] b[n] == j - na; assert(p.contains_key(n) && p[n] == j); }
    }
    assert forall|n: usize| a.contains_key(n) implies #[trigger] p[n] == a[n] by { assert(a.dom().contains(n) && !b.dom().contains(n)); }
}
impl Conjunction {
    /// the operator with this left and right node is the k-th one of the query
    pub open spec fn means(&self, g: AnnotationGraph, k: int, op: BinaryOperator, l: usize, r: usize) -> bool {
        &&& op.reflexive() == !self.strict(g, k)
        &&& (l == self.l(k) && r == self.r(k) && forall|s: Match, t: Match| #![trigger op.accepts(s, t)] op.accepts(s, t) == self.holds(g, k, s, t))
            || (l == self.r(k) && r == self.l(k) && forall|s: Match, t: Match| #![trigger op.accepts(s, t)] op.accepts(s, t) == self.holds(g, k, t, s))
    }
    proof fn lemma_join_in(&self, g: AnnotationGraph, done: Done, k: int, e: Exec, op: BinaryOperator, a: Exec, ga: spec_fn(Seq<Match>) -> bool, b: Exec, gb: spec_fn(Seq<Match>) -> bool, x: int, y: int, l: usize, r: usize)
        requires
            self.is_op(k), joined_in(e, op, a, ga, b, gb, x, y, self.global(k)), sized(a), sized(b), joinable_pos(a, b),
            self.sound(g, done, a.pos(), ga), self.complete(g, a.pos(), ga), self.sound(g, done, b.pos(), gb), self.complete(g, b.pos(), gb),
            forall|j: int| #![trigger self.is_op(j)] done.bin.contains(j) && self.is_op(j) ==> a.pos().contains_key(self.l(j)) == a.pos().contains_key(self.r(j)) && b.pos().contains_key(self.l(j)) == b.pos().contains_key(self.r(j)),
            forall|n: usize| #![trigger a.pos().contains_key(n)] a.pos().contains_key(n) ==> self.wanted(n as int),
            forall|n: usize| #![trigger b.pos().contains_key(n)] b.pos().contains_key(n) ==> self.wanted(n as int),
            e.pos().contains_key(l), e.pos().contains_key(r), e.pos()[l] == x, e.pos()[r] == y,
            self.means(g, k, op, l, r),
        ensures self.step_ok(g, Done { un: done.un, bin: done.bin.insert(k) }, e),
    {
        broadcast use axiom_diff;
        let d2 = Done { un: done.un, bin: done.bin.insert(k) };
        let (pa, pb, p) = (a.pos(), b.pos(), e.pos());
        let (na, nb) = (pa.dom().len() as int, pb.dom().len() as int);
        lemma_onto_joined(pa, pb);
        assert forall|m: Seq<Match>| #[trigger] (e.g@)(m) implies self.fits(g, d2, p, m) by {
            let (ma, mb) = (m.take(na), m.skip(na));
            assert(combined(op, ga, gb, na, na + nb, x, y, m));
            assert(self.fits(g, done, pa, ma) && self.fits(g, done, pb, mb));
            assert forall|n: usize| p.contains_key(n) implies (pa.contains_key(n) && m[#[trigger] p[n] as int] == ma[pa[n] as int]) || (pb.contains_key(n) && m[p[n] as int] == mb[pb[n] as int]) by { assert(p.dom().contains(n)); }
            assert forall|n: usize| p.contains_key(n) implies self.node_ok(g, n, m[#[trigger] p[n] as int]) by { if pa.contains_key(n) { let _ = pa[n]; } else { let _ = pb[n]; } }
            assert forall|j: int| #![trigger self.unary_operators@[j]] 0 <= j < d2.un && p.contains_key(self.unary_operators@[j].idx) implies self.unary_operators@[j].op.holds(g, m[p[self.unary_operators@[j].idx] as int]) by { let _ = p[self.unary_operators@[j].idx]; }
            assert forall|j: int| #![trigger self.is_op(j)] d2.bin.contains(j) && self.is_op(j) && p.contains_key(self.l(j)) implies self.holds(g, j, m[p[self.l(j)] as int], m[p[self.r(j)] as int]) by {
                if done.bin.contains(j) {
                    let _ = p[self.l(j)];
                    assert(pa.dom().contains(self.l(j)) || pb.dom().contains(self.l(j)));
                    assert(p.dom().contains(self.r(j)));
                    let _ = p[self.r(j)];
                } else { assert(j == k); }
            }
        }
        assert forall|s: Answer, m: Seq<Match>| #![trigger part_of(m, p, s), (e.g@)(m)] self.solution(g, s) && part_of(m, p, s) implies (e.g@)(m) by {
            let (ma, mb) = (m.take(na), m.skip(na));
            assert forall|n: usize| pa.contains_key(n) implies ma[#[trigger] pa[n] as int] == s[n] by { assert(p.dom().contains(n)); assert(m[p[n] as int] == s[n]); }
            assert forall|n: usize| pb.contains_key(n) implies mb[#[trigger] pb[n] as int] == s[n] by { assert(p.dom().contains(n)); assert(m[p[n] as int] == s[n]); }
            assert(part_of(ma, pa, s) && part_of(mb, pb, s));
            assert(ga(ma) && gb(mb));
            assert(self.holds(g, k, s[self.l(k)], s[self.r(k)]));
            assert(m[x] == s[l] && m[y] == s[r]);
            assert(combined(op, ga, gb, na, na + nb, x, y, m));
            if !op.reflexive() {
                assert(self.strict_ok(k, s));
                if self.global(k) {
                    assert forall|j: int| #![trigger m[j]] 0 <= j < m.len() implies (j != x ==> diff(m[x], m[j])) && (j != y ==> diff(m[y], m[j])) by {
                        assert(at_pos(p, j));
                        let n = choose|n: usize| p.contains_key(n) && #[trigger] p[n] == j;
                        assert(p.dom().contains(n));
                        assert(pa.contains_key(n) || pb.contains_key(n));
                        let _ = s[n];
                    }
                }
                assert(alldiff(m, x, y, self.global(k)));
            }
        }
    }
}
pub open spec fn joinable_pos(a: Exec, b: Exec) -> bool { a.pos().dom().disjoint(b.pos().dom()) && a.pos().dom().len() + b.pos().dom().len() <= usize::MAX }

proof fn lemma_inverse(e: Exec, inv: BinaryOperator, op: BinaryOperator, a: Exec, ga: spec_fn(Seq<Match>) -> bool, b: Exec, gb: spec_fn(Seq<Match>) -> bool, x: int, y: int, global: bool)
    requires joined_in(e, inv, a, ga, b, gb, x, y, global), inv.reflexive() == op.reflexive(), forall|s: Match, t: Match| #![trigger inv.accepts(s, t)] inv.accepts(s, t) == op.accepts(t, s),
    ensures joined_in(e, op, a, ga, b, gb, y, x, global),
{
    broadcast use axiom_diff;
    let (na, nb) = (a.pos().dom().len(), b.pos().dom().len());
    assert forall|m: Seq<Match>| #![trigger (e.g@)(m)] combined(op, ga, gb, na as int, (na + nb) as int, y, x, m) == combined(inv, ga, gb, na as int, (na + nb) as int, x, y, m) by { assert(inv.accepts(m[x], m[y]) == op.accepts(m[y], m[x])); }
    assert forall|m: Seq<Match>| #![trigger (e.g@)(m)] alldiff(m, y, x, global) == alldiff(m, x, y, global) by {}
}
pub open spec fn moved(m: Map<usize, usize>, from: usize, to: usize) -> Map<usize, usize> { Map::new(m.dom(), |n: usize| if m[n] == from { to } else { m[n] }) }
pub open spec fn listed(s: Seq<usize>, n: usize) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == n }

// ---- the code ----------------------------------------------------------------------------------
//@fn src=graphannis/src/annis/db/aql/conjunction.rs item=update_components_for_nodes ret=ret
//@rewrite BTreeMap<usize, usize> => OrdMap<usize>
//@rewrite for \(k, v\) in IT: node2component\.iter\(\) => let ents = node2component.entries(); for ent in IT: ents
//@rewrite for nid in JT: &node_ids_to_update => for nid in JT: node_ids_to_update.iter()
//@spec
    ensures final(node2component)@ == moved(old(node2component)@, from, to),
//@at fn_start
    let ghost m0 = node2component@;
    proof { if from == to { assert(moved(m0, from, to) =~= m0); } }
//@forname 0 IT
//@loop 0
    invariant
        forall|i: int| #![trigger IT.seq()[i]] 0 <= i < IT.seq().len() ==> m0.contains_key(*IT.seq()[i].0) && m0[*IT.seq()[i].0] == *IT.seq()[i].1,
        forall|n: usize| #![trigger listed(node_ids_to_update@, n)] listed(node_ids_to_update@, n) <==> exists|i: int| #![trigger IT.seq()[i]] 0 <= i < IT.index() && *IT.seq()[i].0 == n && m0[n] == from,
//@at loop_start 0
    let (k, v) = ent; let ghost l0 = node_ids_to_update@; let ghost ix = IT.index();
    proof { let _ = IT.seq()[ix]; }
//@at loop_end 0
    proof {
        assert forall|n: usize| listed(node_ids_to_update@, n) <==> listed(l0, n) || (*k == n && m0[n] == from) by {
            if listed(l0, n) { let i = choose|i: int| 0 <= i < l0.len() && #[trigger] l0[i] == n; assert(node_ids_to_update@[i] == n); }
            if *k == n && m0[n] == from { assert(node_ids_to_update@[l0.len() as int] == n); }
        }
        assert forall|n: usize| #![trigger listed(node_ids_to_update@, n)] listed(node_ids_to_update@, n) <==> exists|i: int| #![trigger IT.seq()[i]] 0 <= i < ix + 1 && *IT.seq()[i].0 == n && m0[n] == from by {
            assert(listed(node_ids_to_update@, n) <==> listed(l0, n) || (*k == n && m0[n] == from));
            if *k == n && m0[n] == from { let _ = IT.seq()[ix]; assert(*IT.seq()[ix].0 == n); }
            if exists|i: int| #![trigger IT.seq()[i]] 0 <= i < ix + 1 && *IT.seq()[i].0 == n && m0[n] == from {
                let i = choose|i: int| #![trigger IT.seq()[i]] 0 <= i < ix + 1 && *IT.seq()[i].0 == n && m0[n] == from;
                if i == ix { assert(*k == n); } else { assert(exists|i: int| #![trigger IT.seq()[i]] 0 <= i < ix && *IT.seq()[i].0 == n && m0[n] == from); }
            }
        }
    }
//@forname 1 JT
//@at before_loop 1
    proof {
        assert forall|n: usize| listed(node_ids_to_update@, n) <==> m0.contains_key(n) && m0[n] == from by { }
    }
//@loop 1
    invariant
        JT.seq() == node_ids_to_update@.map_values(|x: usize| &x), m0.dom() == node2component@.dom(),
        forall|n: usize| #![trigger listed(node_ids_to_update@, n)] listed(node_ids_to_update@, n) <==> m0.contains_key(n) && m0[n] == from,
        forall|n: usize| #![trigger node2component@[n]] m0.contains_key(n) ==> node2component@[n] == m0[n] || (m0[n] == from && node2component@[n] == to),
        forall|i: int| #![trigger node_ids_to_update@[i]] 0 <= i < JT.index() ==> node2component@[node_ids_to_update@[i]] == to,
//@at loop_start 1
    proof { assert(*nid == node_ids_to_update@[JT.index()]); assert(listed(node_ids_to_update@, *nid)); assert(m0.contains_key(*nid)); }
//@at loop_end 1
    proof { assert(node2component@.dom() =~= m0.dom()); }
//@at after_loop 1
    proof {
        assert forall|n: usize| m0.contains_key(n) && m0[n] == from implies node2component@[n] == to by { assert(listed(node_ids_to_update@, n)); }
        assert(node2component@ =~= moved(m0, from, to));
    }
//@end
//@fn src=graphannis/src/annis/db/aql/conjunction.rs item=create_index_join ret=ret
//@rewrite <'b> =>
//@rewrite &'b => &
//@rewrite Box<dyn BinaryOperatorIndex \+ 'b> => Op
//@rewrite Box<dyn ExecutionNode<Item = Result<MatchGroup>> \+ 'b> => Exec
//@rewrite parallel::indexjoin::IndexJoin::new => par::IndexJoin::new
//@rewrite = IndexJoin::new => = seq::IndexJoin::new
//@rewrite exec_right\.get_desc\(\), => exec_right.get_desc(), Ghost(exec_right),
//@rewrite Box::new\(join\) => join
//@spec
    requires exec_right.ns is Some, joinable(exec_left, exec_right, idx_left as int, 0),
    ensures ret matches Ok(e) ==> joined_in(e, BinaryOperator::Index(op), exec_left, exec_left.g@, exec_right, sel_fn(*(exec_right.ns->0).desc), idx_left as int, exec_left.pos().dom().len() as int, op_args.global_reflexivity),
//@end
//@fn src=graphannis/src/annis/db/aql/conjunction.rs item=create_join ret=ret
//@rewrite <'b> =>
//@rewrite &'b => &
//@rewrite Box<dyn ExecutionNode<Item = Result<MatchGroup>> \+ 'b> => Exec
//@rewrite parallel::nestedloop::NestedLoop::new => par::NestedLoop::new
//@rewrite = NestedLoop::new => = seq::NestedLoop::new
//@rewrite Box::new\(join\) => join
//@spec
    requires joinable(exec_left, exec_right, idx_left as int, idx_right as int),
    ensures ret matches Ok(e) ==> joins(e, op_entry.op, exec_left, exec_right, idx_left as int, idx_right as int, op_entry.args.global_reflexivity),
//@at fn_start
    let ghost o0 = op_entry.op; let ghost glob = op_entry.args.global_reflexivity; let ghost (el, er) = (exec_left, exec_right); let ghost (li, ri) = (idx_left as int, idx_right as int);
    proof {
        assert(eff(el, el.g@) && eff(er, er.g@));
        if el.ns is Some { assert(eff(el, sel_fn(*(el.ns->0).desc))); }
        if er.ns is Some { assert(eff(er, sel_fn(*(er.ns->0).desc))); }
    }
//@at before_call create_index_join 0
    proof {
        assert forall|e: Exec| joined_in(e, o0, el, el.g@, er, sel_fn(*(er.ns->0).desc), li, el.pos().dom().len() as int, glob) implies #[trigger] joins(e, o0, el, er, li, ri, glob) by {
            assert(joined(e, o0, el, el.g@, er, sel_fn(*(er.ns->0).desc), li, ri, glob));
        }
    }
//@at before_call create_index_join 1
    proof {
        let inv = BinaryOperator::Index(inverse_op);
        assert forall|e: Exec| joined_in(e, inv, er, er.g@, el, sel_fn(*(el.ns->0).desc), ri, er.pos().dom().len() as int, glob) implies #[trigger] joins(e, o0, el, er, li, ri, glob) by {
            lemma_inverse(e, inv, o0, er, er.g@, el, sel_fn(*(el.ns->0).desc), ri, er.pos().dom().len() as int, glob);
            assert(joined(e, o0, el, sel_fn(*(el.ns->0).desc), er, er.g@, li, ri, glob));
        }
    }
//@at fn_end
    proof {
        assert forall|e: Exec| joined(e, o0, el, el.g@, er, er.g@, li, ri, glob) implies #[trigger] joins(e, o0, el, er, li, ri, glob) by { }
    }
//@end

impl Conjunction {
    /// nodes of a step are nodes of the query, and finished operators have both operands or none of them in it
    pub open spec fn closed(&self, done: Done, p: Map<usize, usize>) -> bool {
        &&& forall|j: int| #![trigger self.is_op(j)] done.bin.contains(j) && self.is_op(j) ==> p.contains_key(self.l(j)) == p.contains_key(self.r(j))
        &&& forall|n: usize| #![trigger p.contains_key(n)] p.contains_key(n) ==> self.wanted(n as int)
    }
    proof fn lemma_join(&self, g: AnnotationGraph, done: Done, k: int, e: Exec, op: BinaryOperator, a: Exec, b: Exec, l: usize, r: usize)
        requires
            self.is_op(k), self.step_ok(g, done, a), self.step_ok(g, done, b), joinable_pos(a, b), self.closed(done, a.pos()), self.closed(done, b.pos()),
            a.pos().contains_key(l), b.pos().contains_key(r), self.means(g, k, op, l, r),
            joins(e, op, a, b, a.pos()[l] as int, b.pos()[r] as int, self.global(k)),
        ensures self.step_ok(g, Done { un: done.un, bin: done.bin.insert(k) }, e),
            e.pos().dom() == a.pos().dom().union(b.pos().dom()),
            (e.d->0).component_nr == (a.d->0).component_nr || (e.d->0).component_nr == (b.d->0).component_nr,
    {
        let (li, ri) = (a.pos()[l] as int, b.pos()[r] as int);
        let (ga, gb) = choose|gl: spec_fn(Seq<Match>) -> bool, gr: spec_fn(Seq<Match>) -> bool| eff(a, gl) && eff(b, gr) && #[trigger] joined(e, op, a, gl, b, gr, li, ri, self.global(k));
        let (na, nb) = (a.pos().dom().len(), b.pos().dom().len());
        if joined_in(e, op, a, ga, b, gb, li, na + ri, self.global(k)) {
            lemma_onto_joined(a.pos(), b.pos());
            assert(e.pos()[l] == li && e.pos()[r] == na + ri);
            assert(e.pos().dom().contains(l) && e.pos().dom().contains(r));
            self.lemma_join_in(g, done, k, e, op, a, ga, b, gb, li, na + ri, l, r);
        } else {
            lemma_onto_joined(b.pos(), a.pos());
            assert(e.pos()[l] == nb + li && e.pos()[r] == ri);
            assert(e.pos().dom().contains(l) && e.pos().dom().contains(r));
            assert(b.pos().dom().union(a.pos().dom()) =~= a.pos().dom().union(b.pos().dom()));
            self.lemma_join_in(g, done, k, e, op, b, gb, a, ga, nb + li, ri, l, r);
        }
    }
    proof fn lemma_filter(&self, g: AnnotationGraph, done: Done, k: int, e: Exec, op: BinaryOperator, a: Exec, l: usize, r: usize)
        requires
            self.is_op(k), self.step_ok(g, done, a), self.closed(done, a.pos()),
            a.pos().contains_key(l), a.pos().contains_key(r), self.means(g, k, op, l, r), same_place(e, a),
            forall|m: Seq<Match>| #![trigger (e.g@)(m)] (e.g@)(m) <==> (a.g@)(m) && op.accepts(m[a.pos()[l] as int], m[a.pos()[r] as int]),
        ensures self.step_ok(g, Done { un: done.un, bin: done.bin.insert(k) }, e),
    {
        let d2 = Done { un: done.un, bin: done.bin.insert(k) };
        let p = a.pos();
        assert forall|m: Seq<Match>| #[trigger] (e.g@)(m) implies self.fits(g, d2, p, m) by {
            assert(self.fits(g, done, p, m));
            assert forall|j: int| #![trigger self.is_op(j)] d2.bin.contains(j) && self.is_op(j) && p.contains_key(self.l(j)) implies self.holds(g, j, m[p[self.l(j)] as int], m[p[self.r(j)] as int]) by { if !done.bin.contains(j) { assert(j == k); } }
        }
        assert forall|s: Answer, m: Seq<Match>| #![trigger part_of(m, p, s), (e.g@)(m)] self.solution(g, s) && part_of(m, p, s) implies (e.g@)(m) by {
            assert((a.g@)(m));
            assert(self.holds(g, k, s[self.l(k)], s[self.r(k)]));
            assert(m[p[l] as int] == s[l] && m[p[r] as int] == s[r]);
        }
    }
    /// a further operator does not concern the steps without its nodes
    proof fn lemma_other(&self, g: AnnotationGraph, done: Done, k: int, e: Exec)
        requires self.is_op(k), self.step_ok(g, done, e), !e.pos().contains_key(self.l(k)),
        ensures self.step_ok(g, Done { un: done.un, bin: done.bin.insert(k) }, e),
    {
        let d2 = Done { un: done.un, bin: done.bin.insert(k) };
        assert forall|m: Seq<Match>| self.fits(g, done, e.pos(), m) implies #[trigger] self.fits(g, d2, e.pos(), m) by {}
        assert forall|m: Seq<Match>| #[trigger] (e.g@)(m) implies self.fits(g, d2, e.pos(), m) by { assert(self.fits(g, done, e.pos(), m)); }
        if e.ns is Some { assert forall|m: Seq<Match>| #[trigger] (sel_fn(*(e.ns->0).desc))(m) implies self.fits(g, d2, e.pos(), m) by { assert(self.fits(g, done, e.pos(), m)); } }
    }
    /// two steps (or one) become one
    proof fn lemma_merge(&self, g: AnnotationGraph, done: Done, k: int, x: Map<usize, Exec>, n2c: Map<usize, usize>, cl: usize, cr: usize, e: Exec)
        requires
            self.steps(g, done, x, n2c), self.is_op(k), x.contains_key(cl), x.contains_key(cr), n2c.contains_key(self.l(k)), n2c.contains_key(self.r(k)),
            (n2c[self.l(k)] == cl && n2c[self.r(k)] == cr) || (n2c[self.l(k)] == cr && n2c[self.r(k)] == cl),
            self.step_ok(g, Done { un: done.un, bin: done.bin.insert(k) }, e), (e.d->0).component_nr == cl || (e.d->0).component_nr == cr,
            e.pos().dom() == x[cl].pos().dom().union(x[cr].pos().dom()),
        ensures ({ let nc = (e.d->0).component_nr;
            self.steps(g, Done { un: done.un, bin: done.bin.insert(k) }, x.remove(cl).remove(cr).insert(nc, e), moved(moved(n2c, cl, nc), cr, nc)) }),
    {
        let d2 = Done { un: done.un, bin: done.bin.insert(k) };
        let nc = (e.d->0).component_nr;
        let x2 = x.remove(cl).remove(cr).insert(nc, e);
        let n2 = moved(moved(n2c, cl, nc), cr, nc);
        assert(n2.dom() =~= n2c.dom());
        assert forall|n: usize| #![trigger n2[n]] n2c.contains_key(n) implies n2[n] == if n2c[n] == cl || n2c[n] == cr { nc } else { n2c[n] } by { assert(moved(n2c, cl, nc).dom().contains(n)); }
        assert forall|n: usize| #![trigger n2[n]] #![trigger n2.contains_key(n)] #![trigger n2.dom().contains(n)] n2.contains_key(n) implies self.wanted(n as int) && x2.contains_key(n2[n]) by { assert(n2c.dom().contains(n)); let _ = n2c[n]; }
        assert forall|c: usize| #![trigger x2[c]] x2.contains_key(c) implies self.step_ok(g, d2, x2[c]) && (x2[c].d->0).component_nr == c by {
            if c != nc {
                assert(x2[c] == x[c] && c != cl && c != cr);
                let _ = x[c].pos().contains_key(self.l(k));
                self.lemma_other(g, done, k, x[c]);
            }
        }
        assert forall|c: usize, n: usize| #![trigger x2[c].pos().contains_key(n)] x2.contains_key(c) implies (x2[c].pos().contains_key(n) <==> n2.contains_key(n) && n2[n] == c) by {
            assert(n2.dom().contains(n) == n2c.dom().contains(n));
            if c == nc {
                let _ = x[cl].pos().contains_key(n); let _ = x[cr].pos().contains_key(n);
                assert(e.pos().dom().contains(n) <==> x[cl].pos().dom().contains(n) || x[cr].pos().dom().contains(n));
            } else { assert(x2[c] == x[c]); let _ = x[c].pos().contains_key(n); }
        }
        assert forall|j: int| #![trigger self.is_op(j)] d2.bin.contains(j) && self.is_op(j) implies n2.contains_key(self.l(j)) && n2.contains_key(self.r(j)) && n2[self.l(j)] == n2[self.r(j)] by {
            if !done.bin.contains(j) { assert(j == k); }
            assert(n2c.dom().contains(self.l(j)) && n2c.dom().contains(self.r(j)));
            assert(n2.dom().contains(self.l(j)) && n2.dom().contains(self.r(j)));
        }
    }
    proof fn lemma_closed(&self, g: AnnotationGraph, done: Done, x: Map<usize, Exec>, n2c: Map<usize, usize>, c: usize)
        requires self.steps(g, done, x, n2c), x.contains_key(c),
        ensures self.closed(done, x[c].pos()), self.step_ok(g, done, x[c]), (x[c].d->0).component_nr == c,
            x[c].pos().dom().subset_of(n2c.dom()),
    {
        let p = x[c].pos();
        assert forall|j: int| #![trigger self.is_op(j)] done.bin.contains(j) && self.is_op(j) implies p.contains_key(self.l(j)) == p.contains_key(self.r(j)) by { let _ = x[c].pos().contains_key(self.l(j)); let _ = x[c].pos().contains_key(self.r(j)); }
        assert forall|n: usize| #![trigger p.contains_key(n)] p.contains_key(n) implies self.wanted(n as int) by { let _ = x[c].pos().contains_key(n); let _ = n2c[n]; }
        assert forall|n: usize| p.dom().contains(n) implies n2c.dom().contains(n) by { let _ = x[c].pos().contains_key(n); }
        let _ = x[c];
    }
    proof fn lemma_place(&self, g: AnnotationGraph, done: Done, x: Map<usize, Exec>, n2c: Map<usize, usize>, n: usize)
        requires self.steps(g, done, x, n2c), n2c.contains_key(n),
        ensures x.contains_key(n2c[n]), ({ let c = n2c[n]; sized(x[c]) && x[c].pos().contains_key(n) && x[c].pos()[n] < x[c].pos().dom().len() && self.closed(done, x[c].pos()) && self.step_ok(g, done, x[c]) && (x[c].d->0).component_nr == c }),
    {
        let c = n2c[n];
        self.lemma_closed(g, done, x, n2c, c);
        let _ = x[c].pos().contains_key(n);
    }
    proof fn lemma_joinable(&self, g: AnnotationGraph, done: Done, x: Map<usize, Exec>, n2c: Map<usize, usize>, a: usize, b: usize)
        requires self.steps(g, done, x, n2c), x.contains_key(a), x.contains_key(b), a != b, self.nodes@.len() <= usize::MAX,
        ensures joinable_pos(x[a], x[b]),
    {
        self.lemma_closed(g, done, x, n2c, a);
        self.lemma_closed(g, done, x, n2c, b);
        let (s, t) = (x[a].pos().dom(), x[b].pos().dom());
        assert forall|n: usize| !(s.contains(n) && t.contains(n)) by { let _ = x[a].pos().contains_key(n); let _ = x[b].pos().contains_key(n); }
        assert(s.disjoint(t));
        vstd::set_lib::lemma_set_disjoint_lens(s, t);
        assert((s + t).subset_of(n2c.dom()));
        vstd::set_lib::lemma_len_subset(s + t, n2c.dom());
    }
}

//@item src=graphannis/src/annis/db/aql/conjunction.rs item="struct ExecutionPlanHelper"
//@rewrite (?m)^struct => pub struct
//@rewrite (?m)^    ([a-z]\w*): => pub $1:
//@rewrite BTreeMap< => OrdMap<
//@rewrite usize, => 
impl Conjunction {
    pub open spec fn planned(&self, g: AnnotationGraph, done: Done, x: Map<usize, Exec>, h: ExecutionPlanHelper) -> bool {
        self.steps(g, done, x, h.node2component@) && self.noted(g, done, h.non_reflexive_args@)
    }
//@fn src=graphannis/src/annis/db/aql/conjunction.rs item=Conjunction::get_cost_estimates ret=ret
//@rewrite BTreeMap<usize, => OrdMap<
//@spec
    requires self.var_idx_offset <= op_spec.args.left, self.var_idx_offset <= op_spec.args.right,
//@end
//@fn src=graphannis/src/annis/db/aql/conjunction.rs item=Conjunction::should_switch_operand_order ret=ret
//@rewrite BTreeMap<usize, => OrdMap<
//@spec
    requires self.var_idx_offset <= op_spec.args.left, self.var_idx_offset <= op_spec.args.right,
//@end
//@fn src=graphannis/src/annis/db/aql/conjunction.rs item=Conjunction::add_binary_operator_to_exec_plan ret=ret
//@rewrite <'a> =>
//@rewrite &'a => &
//@rewrite (?s)&mut BTreeMap<\s*usize,\s*Box<dyn ExecutionNode<Item = Result<MatchGroup>> \+ 'a>,?\s*> => &mut OrdMap<Exec>
//@rewrite helper: &mut ExecutionPlanHelper => helper: &mut ExecutionPlanHelper, Ghost(k): Ghost<int>, Ghost(done): Ghost<Done>
//@rewrite (?s)Result<Box<dyn ExecutionNode<Item\s=\sResult<MatchGroup>>>> => Result<Exec>
//@rewrite Box::new\(filter\) => filter
//@spec
    requires self.wf(), self.is_op(k), *op_spec_entry == self.binary_operators@[k], self.planned(*g, done, old(component2exec)@, *old(helper)),
    ensures ret is Ok ==> self.planned(*g, Done { un: done.un, bin: done.bin.insert(k) }, final(component2exec)@, *final(helper)) && final(helper).node2component@.dom() == old(helper).node2component@.dom(),
//@at fn_start
    hide(Conjunction::steps); hide(Conjunction::step_ok); hide(Conjunction::noted); hide(Conjunction::closed); hide(joins); hide(onto);
    let ghost d2 = Done { un: done.un, bin: done.bin.insert(k) };
    let ghost (x0, n0, a0) = (component2exec@, helper.node2component@, helper.non_reflexive_args@);
    proof { let _ = self.binary_operators@[k]; }
//@at before_call is_reflexive 0
    let ghost o1 = op_entry.op;
    proof { assert(self.means(*g, k, o1, spec_idx_left, spec_idx_right)); }
//@at before_call get 0
    proof { assert(helper.non_reflexive_args@.len() > 0 ==> helper.non_reflexive_args@.drop_last() =~= helper.non_reflexive_args@.take(helper.non_reflexive_args@.len() - 1)); if self.strict(*g, k) { assert(helper.non_reflexive_args@.take(a0.len() as int) =~= a0); } self.lemma_noted(*g, done, k, a0, helper.non_reflexive_args@); }
//@at before_call remove 0
    let ghost (cl, cr) = (component_left, component_right);
    proof {
        self.lemma_place(*g, done, x0, n0, spec_idx_left); self.lemma_place(*g, done, x0, n0, spec_idx_right);
        if cl != cr { self.lemma_joinable(*g, done, x0, n0, cl, cr); }
    }
//@at before_call new_binary 0
    proof {
        assert forall|e: Exec| #![trigger same_place(e, x0[cl])] same_place(e, x0[cl]) && (forall|m: Seq<Match>| #![trigger (e.g@)(m)] (e.g@)(m) <==> (x0[cl].g@)(m) && o1.accepts(m[idx_left as int], m[idx_right as int])) implies self.step_ok(*g, d2, e) && e.pos().dom() == x0[cl].pos().dom().union(x0[cl].pos().dom()) && (e.d->0).component_nr == cl by {
            self.lemma_filter(*g, done, k, e, o1, x0[cl], spec_idx_left, spec_idx_right);
            assert(x0[cl].pos().dom().union(x0[cl].pos().dom()) =~= x0[cl].pos().dom());
        }
    }
//@at before_call create_join 0
    proof {
        assert forall|e: Exec| #[trigger] joins(e, o1, x0[cl], x0[cr], idx_left as int, idx_right as int, self.global(k)) implies self.step_ok(*g, d2, e) && e.pos().dom() == x0[cl].pos().dom().union(x0[cr].pos().dom()) && ((e.d->0).component_nr == cl || (e.d->0).component_nr == cr) by {
            self.lemma_join(*g, done, k, e, o1, x0[cl], x0[cr], spec_idx_left, spec_idx_right);
        }
    }
//@at before_call update_components_for_nodes 0
    proof {
        assert(cl == cr ==> same_place(new_exec, x0[cl]));
        assert(cl != cr ==> joins(new_exec, o1, x0[cl], x0[cr], x0[cl].pos()[spec_idx_left] as int, x0[cr].pos()[spec_idx_right] as int, self.global(k)));
        assert(self.step_ok(*g, d2, new_exec));
        self.lemma_merge(*g, done, k, x0, n0, cl, cr, new_exec);
        let nc = new_component_nr;
        assert(moved(moved(n0, cl, nc), cr, nc).dom() =~= n0.dom());
        if cl == cr { assert(x0.remove(cl).remove(cr).insert(nc, new_exec) =~= x0.remove(cl).insert(nc, new_exec)); }
    }
//@end
    proof fn lemma_noted(&self, g: AnnotationGraph, done: Done, k: int, a: Seq<BinaryOperatorArguments>, b: Seq<BinaryOperatorArguments>)
        requires self.noted(g, done, a), self.is_op(k), if self.strict(g, k) { b.len() == a.len() + 1 && b.take(a.len() as int) == a && self.arg_of(b.last(), k) } else { b == a },
        ensures self.noted(g, Done { un: done.un, bin: done.bin.insert(k) }, b),
    {
        let d2 = Done { un: done.un, bin: done.bin.insert(k) };
        assert forall|j: int| #![trigger self.is_op(j)] d2.bin.contains(j) && self.is_op(j) && self.strict(g, j) implies exists|i: int| #![trigger b[i]] 0 <= i < b.len() && self.arg_of(b[i], j) by {
            if done.bin.contains(j) { let i = choose|i: int| #![trigger a[i]] 0 <= i < a.len() && self.arg_of(a[i], j); assert(b[i] == a[i]); } else { assert(self.arg_of(b[b.len() - 1], k)); }
        }
        assert forall|i: int| #![trigger b[i]] 0 <= i < b.len() implies self.from_op(g, d2, b[i]) by {
            if i < a.len() { assert(self.from_op(g, done, a[i])); assert(b[i] == a[i]); let j = choose|j: int| #![trigger self.is_op(j)] done.bin.contains(j) && self.is_op(j) && self.strict(g, j) && self.arg_of(a[i], j); assert(d2.bin.contains(j)); } else { assert(d2.bin.contains(k)); }
        }
    }
}

//@item src=graphannis/src/annis/db/aql/conjunction.rs item="struct AddNodeToExecutionPlanOutput"
//@rewrite struct AddNodeToExecutionPlanOutput<'a> => pub struct AddNodeToExecutionPlanOutput
//@rewrite (?m)^    ([a-z]\w*): => pub $1:
//@rewrite BTreeMap<usize, Box<dyn ExecutionNode<Item = Result<MatchGroup>> \+ 'a>> => OrdMap<Exec>
/// a search for the left operands of an operator delivers all of them
pub open spec fn narrowed(e: Exec, c: Conjunction, g: AnnotationGraph, s: NodeSearchDesc, nr: usize) -> bool {
    &&& e.ns is Some && *(e.ns->0).desc == s
    &&& forall|m: Seq<Match>| #![trigger (e.g@)(m)] (e.g@)(m) ==> (sel_fn(s))(m)
    &&& forall|a: Answer, m: Seq<Match>| #![trigger c.solution(g, a), (e.g@)(m)] c.solution(g, a) && (sel_fn(s))(m) && m[0] == a[nr] ==> (e.g@)(m)
}
pub open spec fn whole_of(g: AnnotationGraph, s: Arc<NodeSearchDesc>, cs: Seq<Component>, es: Option<EdgeAnnoSearchSpec>, e: Exec) -> bool {
    e.ns is Some && (e.ns->0).desc == s && forall|m: Seq<Match>| #![trigger (e.g@)(m)] (e.g@)(m) <==> (sel_fn(*s))(m) && is_source(g, cs, es, m[0])
}
impl Conjunction {
    proof fn lemma_narrowed(&self, g: AnnotationGraph, s: Arc<NodeSearchDesc>, k: int, cs: Seq<Component>, es: Option<EdgeAnnoSearchSpec>, e: Exec)
        requires whole_of(g, s, cs, es, e), self.is_op(k), self.binary_operators@[k].op.from_sources(), cs == self.binary_operators@[k].op.comps(g), es == self.binary_operators@[k].op.edge_spec(),
        ensures narrowed(e, *self, g, *s, self.l(k)),
    {
        assert forall|a: Answer, m: Seq<Match>| #![trigger self.solution(g, a), (e.g@)(m)] self.solution(g, a) && (sel_fn(*s))(m) && m[0] == a[self.l(k)] implies (e.g@)(m) by {
            assert(self.holds(g, k, a[self.l(k)], a[self.r(k)]));
            self.binary_operators@[k].op.sources(g, a[self.l(k)], a[self.r(k)]);
        }
    }
}
pub open spec fn at_zero(nr: usize) -> Map<usize, usize> { Map::<usize, usize>::empty().insert(nr, 0) }
proof fn lemma_at_zero(nr: usize)
    ensures onto(at_zero(nr)), at_zero(nr).dom().len() == 1, at_zero(nr)[nr] == 0,
{
    let p = at_zero(nr);
    assert(p.dom() =~= Set::<usize>::empty().insert(nr));
    assert(p.contains_key(nr) && p[nr] == 0);
    assert(at_pos(p, 0));
}
pub open spec fn none_done() -> Done { Done { un: 0, bin: Set::empty() } }
impl Conjunction {
    /// a node search is a step for its node
    proof fn lemma_search(&self, g: AnnotationGraph, e: Exec, nr: usize)
        requires self.wanted(nr as int), e.d is Some, e.pos() == at_zero(nr), (e.ns matches Some(s) && narrowed(e, *self, g, *s.desc, nr) && forall|m: Match| #![trigger s.desc.selects(m)] s.desc.selects(m) <==> self.node_ok(g, nr, m)),
        ensures self.step_ok(g, none_done(), e),
    {
        lemma_at_zero(nr);
        let s = *(e.ns->0).desc;
        let p = at_zero(nr);
        assert forall|m: Seq<Match>| (sel_fn(s))(m) implies #[trigger] self.fits(g, none_done(), p, m) by { assert(s.selects(m[0])); }
        assert forall|m: Seq<Match>| #[trigger] (sel_fn(s))(m) implies self.fits(g, none_done(), p, m) by { assert(s.selects(m[0])); }
        assert forall|a: Answer, m: Seq<Match>| #![trigger part_of(m, p, a), (sel_fn(s))(m)] self.solution(g, a) && part_of(m, p, a) implies (sel_fn(s))(m) by { let _ = p[nr]; let _ = a[nr]; assert(p.contains_key(nr)); assert(m[p[nr] as int] == a[nr]); assert(s.selects(m[0])); }
        assert forall|a: Answer, m: Seq<Match>| #![trigger part_of(m, p, a), (e.g@)(m)] self.solution(g, a) && part_of(m, p, a) implies (e.g@)(m) by { assert((sel_fn(s))(m)); assert(p.contains_key(nr)); assert(m[p[nr] as int] == a[nr]); }
    }
    /// nodes up to this one have been added
    pub open spec fn added(&self, g: AnnotationGraph, o: AddNodeToExecutionPlanOutput, n: int) -> bool {
        &&& self.planned(g, none_done(), o.component2exec@, o.helper)
        &&& o.helper.node2component@.dom().len() <= n
        &&& forall|i: usize| #![trigger o.helper.node2component@[i]] #![trigger o.helper.node2component@.contains_key(i)] o.helper.node2component@.contains_key(i) ==> i < n && o.helper.node2component@[i] == i
        &&& o.node_search_errors@.len() == 0 ==> forall|i: usize| #![trigger self.wanted(i as int)] self.wanted(i as int) && i < n ==> o.helper.node2component@.contains_key(i)
        &&& forall|c: usize| #![trigger o.component2exec@[c]] o.component2exec@.contains_key(c) ==> o.component2exec@[c].pos() == at_zero(c)
    }
    pub open spec fn search_for(&self, g: AnnotationGraph, e: Exec, nr: usize) -> bool {
        e.d is Some && e.pos() == at_zero(nr) && (e.d->0).component_nr == nr && (e.ns matches Some(s) && narrowed(e, *self, g, *s.desc, nr) && forall|m: Match| #![trigger s.desc.selects(m)] s.desc.selects(m) <==> self.node_ok(g, nr, m))
    }
    proof fn lemma_added(&self, g: AnnotationGraph, o: AddNodeToExecutionPlanOutput, o2: AddNodeToExecutionPlanOutput, nr: usize, e: Exec)
        requires self.added(g, o, nr as int), self.wanted(nr as int), self.search_for(g, e, nr), o2.component2exec@ == o.component2exec@.insert(nr, e),
            o2.helper.node2component@ == o.helper.node2component@.insert(nr, nr), o2.helper.non_reflexive_args@ == o.helper.non_reflexive_args@, o2.node_search_errors@ == o.node_search_errors@,
        ensures self.added(g, o2, nr + 1),
    {
        self.lemma_search(g, e, nr);
        let (x, n) = (o.component2exec@, o.helper.node2component@);
        let (x2, n2) = (o2.component2exec@, o2.helper.node2component@);
        assert(!n.contains_key(nr)) by { let _ = n[nr]; }
        assert(n2.dom() =~= n.dom().insert(nr));
        lemma_at_zero(nr);
        assert forall|c: usize, i: usize| #![trigger x2[c].pos().contains_key(i)] x2.contains_key(c) implies (x2[c].pos().contains_key(i) <==> n2.contains_key(i) && n2[i] == c) by {
            if c == nr { if n2.contains_key(i) && i != nr { let _ = n[i]; } } else { let _ = x[c].pos().contains_key(i); assert(x[c].pos() == at_zero(c)); let _ = n[i]; }
        }
        assert forall|i: usize| #![trigger n2[i]] #![trigger n2.contains_key(i)] n2.contains_key(i) implies self.wanted(i as int) && x2.contains_key(n2[i]) && i < nr + 1 && n2[i] == i by { if i != nr { let _ = n[i]; let _ = n.contains_key(i); } }
        assert forall|c: usize| #![trigger x2[c]] x2.contains_key(c) implies self.step_ok(g, none_done(), x2[c]) && (x2[c].d->0).component_nr == c && x2[c].pos() == at_zero(c) by { if c != nr { let _ = x[c]; } }
    }
//@fn src=graphannis/src/annis/db/aql/conjunction.rs item=Conjunction::optimize_node_search_by_operator ret=ret
//@rewrite <'a> =>
//@rewrite &'a => &
//@rewrite Box<dyn Iterator<Item = & BinaryOperatorSpecEntry> \+ 'a> => &Vec<BinaryOperatorSpecEntry>
//@rewrite Result<Option<Box<dyn ExecutionNode<Item = Result<MatchGroup>> \+ 'a>>> => Result<Option<Exec>>
//@rewrite for e in EIT: op_spec_entries => for e in EIT: op_spec_entries.iter()
//@rewrite for c in &components => for c in components.iter()
//@rewrite &dyn EdgeAnnotationStorage => &EdgeAnnos
//@rewrite estimated_component_search \+= (edge_anno_est|stats\.nodes) => estimated_component_search = more(estimated_component_search, $1)
//@rewrite return Ok\(Some\(Box::new\(poc_search\)\)\); => let poc = poc_search.boxed(); proof { assert(whole_of(*db, nsd, cs, es, poc)); self.lemma_narrowed(*db, nsd, k, cs, es, poc); } return Ok(Some(poc));
//@rewrite desc: Option<&ExecutionNodeDesc> => of: Option<&ExecutionNodeDesc>
//@spec
    requires self.wf(), op_spec_entries@ == self.binary_operators@,
    ensures ret matches Ok(Some(e)) ==> of is Some && e.d is Some && (e.d->0).node_pos == (of->0).node_pos && (e.d->0).component_nr == (of->0).component_nr && narrowed(e, *self, *db, *node_search_desc, (of->0).component_nr),
//@at fn_start
    let desc = of;
//@forname 0 EIT
//@loop 0
    invariant of == Some(desc), self.wf(), EIT.seq() == self.binary_operators@.map_values(|x: BinaryOperatorSpecEntry| &x),
//@at loop_start 0
    let ghost k = EIT.index();
    proof { assert(*e == self.binary_operators@[k]); assert(self.is_op(k)); }
//@at before_call new_partofcomponentsearch 0
    let ghost (cs, es, nsd) = (components@, op_spec.edge_spec(), node_search_desc);
    proof { assert(*op_spec == self.binary_operators@[k].op); }
//@end
//@fn src=graphannis/src/annis/db/aql/conjunction.rs item=Conjunction::add_node_to_exec_plan ret=ret
//@rewrite <'a> =>
//@rewrite &'a => &
//@rewrite &mut HashMap<usize, usize> => &mut SizeCache
//@rewrite self\.location_in_query\.get\(n_var\)\.cloned\(\) => self.location_in_query.of(n_var)
//@rewrite (?s)let \(orig_query_frag, orig_impl_desc, cost\) =\s*if let .*?\n                    \}; => let (orig_query_frag, orig_impl_desc, cost) = remembered(&node_search, &mut output.helper.node2cost, node_nr);
//@rewrite BTreeMap::new\(\) => OrdMap::new()
//@rewrite Box::new\(self\.binary_operators\.iter\(\)\) => &self.binary_operators
//@rewrite Box::new\(node_search\) => node_search.boxed()
//@spec
    requires self.wf(), self.wanted(node_nr as int), self.added(*g, *old(output), node_nr as int),
    ensures ret is Ok ==> self.added(*g, *final(output), node_nr + 1),
//@at fn_start
    let ghost o0 = *output;
//@at fn_end
    proof {
        if output.node_search_errors@.len() == o0.node_search_errors@.len() {
            let (x, n2) = (output.component2exec@, output.helper.node2component@);
            assert(x.contains_key(node_nr));
            let e = x[node_nr];
            assert(x == o0.component2exec@.insert(node_nr, e));
            assert(n2 == o0.helper.node2component@.insert(node_nr, node_nr));
            assert(self.search_for(*g, e, node_nr));
            self.lemma_added(*g, o0, *output, node_nr, e);
        } else {
            assert(output.node_search_errors@.len() > 0);
        }
    }
//@end
    pub open spec fn covers(&self, o: Seq<usize>) -> bool {
        &&& forall|j: int| #![trigger o[j]] 0 <= j < o.len() ==> self.is_op(o[j] as int)
        &&& forall|k: int| #![trigger self.is_op(k)] self.is_op(k) ==> exists|j: int| #![trigger o[j]] 0 <= j < o.len() && o[j] == k
    }
    pub open spec fn is_answer(&self, g: AnnotationGraph, p: Map<usize, usize>, m: Seq<Match>) -> bool { exists|a: Answer| #![trigger self.solution(g, a)] self.solution(g, a) && part_of(m, p, a) }
    /// exactly the assignments that fulfil the query, and all nodes have a place in the result
    pub open spec fn answers(&self, g: AnnotationGraph, e: Exec) -> bool {
        &&& e.d is Some && onto(e.pos())
        &&& forall|n: usize| #![trigger e.pos().contains_key(n)] e.pos().contains_key(n) <==> self.wanted(n as int)
        &&& forall|m: Seq<Match>| #![trigger (e.g@)(m)] (e.g@)(m) <==> self.is_answer(g, e.pos(), m)
    }
    /// each node is still on its own, and this many unary operators have been applied
    pub open spec fn single(&self, g: AnnotationGraph, un: int, o: AddNodeToExecutionPlanOutput) -> bool {
        &&& self.planned(g, Done { un: un, bin: Set::empty() }, o.component2exec@, o.helper)
        &&& forall|i: usize| #![trigger o.helper.node2component@[i]] #![trigger o.helper.node2component@.contains_key(i)] o.helper.node2component@.contains_key(i) ==> o.helper.node2component@[i] == i
        &&& o.node_search_errors@.len() == 0 ==> forall|i: usize| #![trigger self.wanted(i as int)] self.wanted(i as int) ==> o.helper.node2component@.contains_key(i)
        &&& forall|c: usize| #![trigger o.component2exec@[c]] o.component2exec@.contains_key(c) ==> o.component2exec@[c].pos() == at_zero(c)
        &&& forall|k: int| #![trigger self.unary_operators@[k]] 0 <= k < un ==> self.wanted(self.unary_operators@[k].idx as int)
    }
    proof fn lemma_unary(&self, g: AnnotationGraph, un: int, o: AddNodeToExecutionPlanOutput, o2: AddNodeToExecutionPlanOutput, c: usize, e: Exec, op: UnOp)
        requires self.single(g, un, o), 0 <= un < self.unary_operators@.len(), c == self.unary_operators@[un].idx, o.component2exec@.contains_key(c),
            same_place(e, o.component2exec@[c]), forall|m: Seq<Match>| #![trigger (e.g@)(m)] (e.g@)(m) <==> (o.component2exec@[c].g@)(m) && op.accepts(m[0]),
            forall|a: Match| #![trigger op.accepts(a)] op.accepts(a) == self.unary_operators@[un].op.holds(g, a),
            o2.component2exec@ == o.component2exec@.insert(c, e), o2.helper == o.helper, o2.node_search_errors == o.node_search_errors,
        ensures self.single(g, un + 1, o2),
    {
        let (x, x2, n) = (o.component2exec@, o2.component2exec@, o.helper.node2component@);
        let (d1, d2) = (Done { un: un, bin: Set::<int>::empty() }, Done { un: un + 1, bin: Set::<int>::empty() });
        let old_e = x[c];
        lemma_at_zero(c);
        assert(old_e.pos() == at_zero(c) && e.pos() == at_zero(c));
        assert(at_zero(c).contains_key(c) && at_zero(c)[c] == 0);
        assert(x[c].pos().contains_key(c));
        assert(n.contains_key(c) && self.wanted(c as int));
        assert(self.step_ok(g, d1, old_e));
        assert forall|m: Seq<Match>| #[trigger] (e.g@)(m) implies self.fits(g, d2, e.pos(), m) by {
            assert(self.fits(g, d1, e.pos(), m));
            assert forall|k: int| #![trigger self.unary_operators@[k]] 0 <= k < d2.un && e.pos().contains_key(self.unary_operators@[k].idx) implies self.unary_operators@[k].op.holds(g, m[e.pos()[self.unary_operators@[k].idx] as int]) by {
                if k == un { assert(op.accepts(m[0])); }
            }
        }
        assert forall|a: Answer, m: Seq<Match>| #![trigger part_of(m, e.pos(), a), (e.g@)(m)] self.solution(g, a) && part_of(m, e.pos(), a) implies (e.g@)(m) by {
            assert((old_e.g@)(m));
            assert(m[e.pos()[c] as int] == a[c]);
            let _ = self.unary_operators@[un];
            assert(op.accepts(m[0]));
        }
        assert(self.step_ok(g, d2, e));
        assert forall|b: usize| #![trigger x2[b]] x2.contains_key(b) implies self.step_ok(g, d2, x2[b]) && (x2[b].d->0).component_nr == b && x2[b].pos() == at_zero(b) by {
            if b != c {
                let y = x[b];
                lemma_at_zero(b);
                assert(self.step_ok(g, d1, y) && y.pos() == at_zero(b));
                assert forall|m: Seq<Match>| self.fits(g, d1, y.pos(), m) implies #[trigger] self.fits(g, d2, y.pos(), m) by {}
            }
        }
        assert forall|b: usize, i: usize| #![trigger x2[b].pos().contains_key(i)] x2.contains_key(b) implies (x2[b].pos().contains_key(i) <==> n.contains_key(i) && n[i] == b) by { let _ = x[b].pos().contains_key(i); }
        assert forall|i: usize| #![trigger n[i]] #![trigger n.contains_key(i)] n.contains_key(i) implies self.wanted(i as int) && x2.contains_key(n[i]) by { let _ = n[i]; }
        assert(self.noted(g, d2, o2.helper.non_reflexive_args@)) by {
            let a = o2.helper.non_reflexive_args@;
            assert forall|j: int| #![trigger a[j]] 0 <= j < a.len() implies self.from_op(g, d2, a[j]) by { assert(self.from_op(g, d1, a[j])); }
        }
    }
    /// one step is left and contains all nodes
    proof fn lemma_last(&self, g: AnnotationGraph, done: Done, x: Map<usize, Exec>, n2c: Map<usize, usize>, c: usize)
        requires self.steps(g, done, x, n2c), self.connected(), x.contains_key(c), forall|k: int| #![trigger self.is_op(k)] self.is_op(k) ==> done.bin.contains(k),
            forall|i: usize| #![trigger self.wanted(i as int)] self.wanted(i as int) ==> n2c.contains_key(i),
            self.nodes@.len() <= usize::MAX,
        ensures forall|n: usize| #![trigger x[c].pos().contains_key(n)] x[c].pos().contains_key(n) <==> self.wanted(n as int),
    {
        let e = x[c];
        let f = |n: int| n2c[n as usize] as int;
        assert(self.agrees(f)) by {
            assert forall|k: int| #![trigger self.is_op(k)] self.is_op(k) && self.binary_operators@[k].op.binding() implies f(self.l(k) as int) == f(self.r(k) as int) by { assert(done.bin.contains(k)); }
        }
        assert(self.step_ok(g, done, e));
        assert(at_pos(e.pos(), 0));
        let n0 = choose|n: usize| e.pos().contains_key(n) && #[trigger] e.pos()[n] == 0;
        assert(x[c].pos().contains_key(n0));
        assert(n2c.contains_key(n0) && n2c[n0] == c);
        assert(self.wanted(n0 as int));
        assert forall|n: usize| #![trigger x[c].pos().contains_key(n)] x[c].pos().contains_key(n) <==> self.wanted(n as int) by {
            if x[c].pos().contains_key(n) { let _ = n2c[n]; }
            if self.wanted(n as int) { assert(n2c.contains_key(n)); assert(f(n as int) == f(n0 as int)); }
        }
    }
    pub open spec fn placed(&self, a: BinaryOperatorArguments, b: BinaryOperatorArguments, p: Map<usize, usize>) -> bool {
        p.contains_key(a.left) && p.contains_key(a.right) && b.left == p[a.left] && b.right == p[a.right] && b.global_reflexivity == a.global_reflexivity
    }
    pub open spec fn all_refl(&self, m: Seq<Match>, b: Seq<BinaryOperatorArguments>) -> bool { forall|k: int| #![trigger b[k]] 0 <= k < b.len() ==> refl_arg(m, b[k]) }
    /// after the reflexivity filter, the operands of an operator are different
    proof fn lemma_strict(&self, g: AnnotationGraph, k: int, p: Map<usize, usize>, m: Seq<Match>, s: Answer, b: BinaryOperatorArguments)
        requires onto(p), self.is_op(k), b.global_reflexivity == self.global(k), p.contains_key(self.l(k)), p.contains_key(self.r(k)), part_of(m, p, s),
            (b.left == p[self.l(k)] && b.right == p[self.r(k)]) || (b.left == p[self.r(k)] && b.right == p[self.l(k)]),
            forall|n: usize| #![trigger p.contains_key(n)] p.contains_key(n) <==> self.wanted(n as int),
        ensures refl_arg(m, b) <==> self.strict_ok(k, s),
    {
        broadcast use axiom_diff;
        let (l, q) = (self.l(k), self.r(k));
        let (x, y) = (b.left as int, b.right as int);
        assert(m[p[l] as int] == s[l] && m[p[q] as int] == s[q]);
        if self.global(k) {
            if refl_arg(m, b) {
                assert forall|n: usize| #![trigger s[n]] self.wanted(n as int) implies (n != l ==> diff(s[l], s[n])) && (n != q ==> diff(s[q], s[n])) by {
                    assert(p.contains_key(n));
                    let j = p[n] as int;
                    assert(m[j] == s[n]);
                }
            }
            if self.strict_ok(k, s) {
                assert forall|j: int| #![trigger m[j]] 0 <= j < m.len() implies (j != x ==> diff(m[x], m[j])) && (j != y ==> diff(m[y], m[j])) by {
                    assert(at_pos(p, j));
                    let n = choose|n: usize| p.contains_key(n) && #[trigger] p[n] == j;
                    assert(m[j] == s[n]);
                }
            }
        }
    }
    proof fn lemma_answers(&self, g: AnnotationGraph, done: Done, e: Exec, a: Seq<BinaryOperatorArguments>, b: Seq<BinaryOperatorArguments>, r: Exec)
        requires self.step_ok(g, done, e), self.noted(g, done, a), a.len() == b.len(), self.wf(),
            forall|i: int| #![trigger b[i]] #![trigger a[i]] 0 <= i < a.len() ==> self.placed(a[i], b[i], e.pos()),
            done.un == self.unary_operators@.len(), forall|k: int| #![trigger self.unary_operators@[k]] 0 <= k < done.un ==> self.wanted(self.unary_operators@[k].idx as int),
            forall|k: int| #![trigger self.is_op(k)] self.is_op(k) ==> done.bin.contains(k) && self.wanted(self.l(k) as int) && self.wanted(self.r(k) as int),
            forall|n: usize| #![trigger e.pos().contains_key(n)] e.pos().contains_key(n) <==> self.wanted(n as int),
            r.d == e.d, forall|m: Seq<Match>| #![trigger (r.g@)(m)] (r.g@)(m) <==> (e.g@)(m) && self.all_refl(m, b),
        ensures self.answers(g, r),
    {
        let p = e.pos();
        assert forall|m: Seq<Match>| #![trigger (r.g@)(m)] (r.g@)(m) implies self.is_answer(g, p, m) by { self.lemma_sound(g, done, e, a, b, m); }
        assert forall|m: Seq<Match>| #![trigger (r.g@)(m)] self.is_answer(g, p, m) implies (r.g@)(m) by {
            let s = choose|s: Answer| #![trigger self.solution(g, s)] self.solution(g, s) && part_of(m, p, s);
            assert((e.g@)(m));
            assert forall|i: int| #![trigger b[i]] 0 <= i < b.len() implies refl_arg(m, b[i]) by {
                assert(self.placed(a[i], b[i], p));
                assert(self.from_op(g, done, a[i]));
                let k = choose|k: int| #![trigger self.is_op(k)] done.bin.contains(k) && self.is_op(k) && self.strict(g, k) && self.arg_of(a[i], k);
                assert(self.strict_ok(k, s));
                self.lemma_strict(g, k, p, m, s, b[i]);
            }
        }
    }
    proof fn lemma_sound(&self, g: AnnotationGraph, done: Done, e: Exec, a: Seq<BinaryOperatorArguments>, b: Seq<BinaryOperatorArguments>, m: Seq<Match>)
        requires self.step_ok(g, done, e), self.noted(g, done, a), a.len() == b.len(), self.wf(),
            forall|i: int| #![trigger b[i]] #![trigger a[i]] 0 <= i < a.len() ==> self.placed(a[i], b[i], e.pos()),
            done.un == self.unary_operators@.len(), forall|k: int| #![trigger self.unary_operators@[k]] 0 <= k < done.un ==> self.wanted(self.unary_operators@[k].idx as int),
            forall|k: int| #![trigger self.is_op(k)] self.is_op(k) ==> done.bin.contains(k) && self.wanted(self.l(k) as int) && self.wanted(self.r(k) as int),
            forall|n: usize| #![trigger e.pos().contains_key(n)] e.pos().contains_key(n) <==> self.wanted(n as int),
            (e.g@)(m), self.all_refl(m, b),
        ensures self.is_answer(g, e.pos(), m),
    {
        let p = e.pos();
        assert(self.fits(g, done, p, m));
        let s: Answer = Map::new(p.dom(), |n: usize| m[p[n] as int]);
        assert forall|n: usize| #![trigger p[n]] #![trigger s[n]] p.contains_key(n) implies m[p[n] as int] == s[n] by { assert(p.dom().contains(n)); }
        assert(part_of(m, p, s));
        assert forall|n: usize| #![trigger s[n]] self.wanted(n as int) implies self.node_ok(g, n, s[n]) by { assert(p.contains_key(n)); let _ = p[n]; }
        assert forall|k: int| #![trigger self.unary_operators@[k]] 0 <= k < self.unary_operators@.len() implies self.unary_operators@[k].op.holds(g, s[self.unary_operators@[k].idx]) by { let i = self.unary_operators@[k].idx; assert(p.contains_key(i)); let _ = p[i]; }
        assert forall|k: int| #![trigger self.is_op(k)] self.is_op(k) implies self.holds(g, k, s[self.l(k)], s[self.r(k)]) && (self.strict(g, k) ==> self.strict_ok(k, s)) by {
            let (l, q) = (self.l(k), self.r(k));
            assert(p.contains_key(l) && p.contains_key(q));
            assert(m[p[l] as int] == s[l] && m[p[q] as int] == s[q]);
            if self.strict(g, k) {
                let i = choose|i: int| #![trigger a[i]] 0 <= i < a.len() && self.arg_of(a[i], k);
                assert(self.placed(a[i], b[i], p));
                assert(refl_arg(m, b[i]));
                self.lemma_strict(g, k, p, m, s, b[i]);
            }
        }
        assert(self.solution(g, s));
    }
//@fn src=graphannis/src/annis/db/aql/conjunction.rs item=Conjunction::make_exec_plan_with_order ret=ret
//@rewrite <'a> =>
//@rewrite &'a => &
//@rewrite &mut HashMap<usize, usize> => &mut SizeCache
//@rewrite Result<Box<dyn ExecutionNode<Item\s=\sResult<MatchGroup>> \+ 'a>> => Result<Exec>
//@rewrite BTreeMap::new\(\) => OrdMap::new()
//@rewrite Box::new\(filter_exec\) => filter_exec
//@rewrite \.into_values\(\)\.next\(\) => .first_value()
//@rewrite (?s)\.ok_or_else\(\|\| \{.*?\}\)\? => .ok_or(GraphAnnisError::ImpossibleSearch(some_string()))?
//@rewrite &mut output\.helper,\s*\)\? => &mut output.helper, Ghost(i as int), Ghost(done))?
//@rewrite return Ok\(Box::new\(Filter::new_reflexivity\(exec, op_args\)\)\); => let ghost b = op_args@; let res = Filter::new_reflexivity(exec, op_args); proof { self.lemma_answers(*db, done, exec, args0, b, res); } return Ok(res);
//@spec
    requires self.wf(), self.connected(), self.covers(operator_order@),
    ensures ret matches Ok(e) ==> self.answers(*db, e),
//@forname 0 NIT
//@loop 0
    invariant self.wf(), NIT.seq().len() == self.nodes@.len(), self.added(*db, output, NIT.index()),
//@forname 1 UIT
//@at before_loop 1
    proof { assert(self.single(*db, 0, output)); }
//@loop 1
    invariant self.wf(), UIT.seq() == self.unary_operators@.map_values(|x: UnaryOperatorSpecEntry| &x), self.single(*db, UIT.index(), output),
//@at loop_start 1
    let ghost o1 = output; let ghost un = UIT.index();
    proof { assert(*op_spec_entry == self.unary_operators@[un]); }
//@at before_call create_operator 0
    proof {
        let c = op_spec_entry.idx;
        lemma_at_zero(c);
        assert(o1.component2exec@[c].pos() == at_zero(c));
        assert(o1.component2exec@[c].pos().contains_key(c));
        let _ = o1.helper.node2component@[c];
        assert(self.wanted(c as int));
    }
//@at before_call new_unary 0
    let ghost uop = op;
//@at loop_end 1
    proof {
        let e = output.component2exec@[op_spec_entry.idx];
        assert(output.component2exec@ =~= o1.component2exec@.insert(op_spec_entry.idx, e));
        self.lemma_unary(*db, un, o1, output, op_spec_entry.idx, e, uop);
    }
//@forname 2 BIT
//@at before_loop 2
    let ghost ord = operator_order@;
    let ghost n0 = output.helper.node2component@.dom();
    let ghost err0 = output.node_search_errors@;
    let ghost mut done = Done { un: self.unary_operators@.len() as int, bin: Set::empty() };
    proof { assert(self.planned(*db, done, output.component2exec@, output.helper)); }
//@loop 2
    invariant self.wf(), self.covers(ord), BIT.seq() == ord, self.planned(*db, done, output.component2exec@, output.helper), output.helper.node2component@.dom() == n0, output.node_search_errors@ == err0,
        done.un == self.unary_operators@.len(),
        forall|j: int| #![trigger ord[j]] 0 <= j < BIT.index() ==> done.bin.contains(ord[j] as int),
//@at loop_start 2
    proof { assert(i == ord[BIT.index()]); assert(self.is_op(i as int)); }
//@at loop_end 2
    proof { done = Done { un: done.un, bin: done.bin.insert(i as int) }; }
//@at before_call into_values 0
    let ghost (x, n2c, args0) = (output.component2exec@, output.helper.node2component@, output.helper.non_reflexive_args@);
    proof {
        assert forall|n: usize| #![trigger self.wanted(n as int)] self.wanted(n as int) implies n2c.contains_key(n) by { assert(n0.contains(n)); }
        assert forall|k: int| #![trigger self.is_op(k)] self.is_op(k) implies done.bin.contains(k) && self.wanted(self.l(k) as int) && self.wanted(self.r(k) as int) by {
            let j = choose|j: int| #![trigger ord[j]] 0 <= j < ord.len() && ord[j] == k;
            assert(done.bin.contains(ord[j] as int));
            let _ = n2c[self.l(k)]; let _ = n2c[self.r(k)];
        }
    }
//@at after_call into_values 0
    let ghost c = choose|c: usize| x.contains_key(c) && #[trigger] x[c] == exec;
    proof { self.lemma_last(*db, done, x, n2c, c); let _ = x[c]; }
//@forname 3 AIT
//@loop 3
    invariant
        AIT.seq() == args0, node_pos@ == exec.pos(), op_args@.len() == AIT.index(), self.noted(*db, done, args0), onto(exec.pos()),
        forall|k: int| #![trigger self.is_op(k)] self.is_op(k) ==> self.wanted(self.l(k) as int) && self.wanted(self.r(k) as int),
        forall|n: usize| #![trigger exec.pos().contains_key(n)] exec.pos().contains_key(n) <==> self.wanted(n as int),
        forall|i: int| #![trigger op_args@[i]] #![trigger args0[i]] 0 <= i < AIT.index() ==> self.placed(args0[i], op_args@[i], exec.pos()),
//@at loop_start 3
    let ghost ix = AIT.index();
    proof {
        assert(args == args0[ix]);
        assert(self.from_op(*db, done, args0[ix]));
        assert(exec.pos().contains_key(args.left) && exec.pos().contains_key(args.right));
    }
//@at fn_end
    proof { self.lemma_answers(*db, done, exec, args0, args0, exec); }
//@end
    proof fn lemma_swap(&self, o: Seq<usize>, q: Seq<usize>, a: int, b: int)
        requires self.covers(o), 0 <= a < o.len(), 0 <= b < o.len(), q == o.update(a, o[b]).update(b, o[a]),
        ensures self.covers(q),
    {
        assert forall|j: int| #![trigger q[j]] 0 <= j < q.len() implies self.is_op(q[j] as int) by { let _ = (o[a], o[b], o[j]); }
        assert forall|k: int| #![trigger self.is_op(k)] self.is_op(k) implies exists|j: int| #![trigger q[j]] 0 <= j < q.len() && q[j] == k by {
            let j = choose|j: int| #![trigger o[j]] 0 <= j < o.len() && o[j] == k;
            if j == a { assert(q[b] == k); } else if j == b { assert(q[a] == k); } else { assert(q[j] == k); }
        }
    }
    /// nodes of one component are connected by binding operators
    pub open spec fn linked(&self, n2c: Map<usize, usize>) -> bool {
        &&& forall|n: usize| #![trigger n2c.contains_key(n)] #![trigger n2c[n]] n2c.contains_key(n) <==> self.var_idx_offset <= n && self.wanted(n - self.var_idx_offset)
        &&& forall|f: spec_fn(int) -> int, n: usize| #![trigger self.agrees(f), n2c[n]] self.agrees(f) && n2c.contains_key(n) ==> f(n - self.var_idx_offset) == f(n2c[n] - self.var_idx_offset)
    }
    proof fn lemma_link(&self, n2c: Map<usize, usize>, k: int, n2: Map<usize, usize>)
        requires self.wf(), self.linked(n2c), self.is_op(k), self.binary_operators@[k].op.binding(),
            ({ let (l, r) = (self.binary_operators@[k].args.left, self.binary_operators@[k].args.right); n2c.contains_key(l) && n2c.contains_key(r) && n2 == moved(moved(n2c, n2c[l], n2c[l]), n2c[r], n2c[l]) }),
        ensures self.linked(n2),
    {
        let (l, r) = (self.binary_operators@[k].args.left, self.binary_operators@[k].args.right);
        let off = self.var_idx_offset as int;
        assert(moved(n2c, n2c[l], n2c[l]) =~= n2c);
        assert forall|n: usize| #![trigger n2.contains_key(n)] #![trigger n2[n]] n2.contains_key(n) <==> self.var_idx_offset <= n && self.wanted(n - self.var_idx_offset) by { assert(n2.contains_key(n) == n2c.contains_key(n)); }
        assert forall|f: spec_fn(int) -> int, n: usize| #![trigger self.agrees(f), n2[n]] self.agrees(f) && n2.contains_key(n) implies f(n - off) == f(n2[n] - off) by {
            let _ = (n2c[n], n2c[l], n2c[r]);
            assert(n2c.contains_key(n));
            assert(self.is_op(k) && f(self.l(k) as int) == f(self.r(k) as int));
        }
    }
    #[verifier::exec_allows_no_decreases_clause]
//@fn src=graphannis/src/annis/db/aql/conjunction.rs item=Conjunction::optimize_join_order_heuristics ret=ret
//@rewrite &mut HashMap<usize, usize> => &mut SizeCache
//@rewrite SmallRng::from_seed\([^)]*\) => SmallRng::new()
//@rewrite Vec<_> = \(0\.\.self\.binary_operators\.len\(\)\)\.collect\(\) => Vec<usize> = below(self.binary_operators.len())
//@rewrite tmp_operators\.swap\(a, b\); => let ghost o0 = tmp_operators@; exchange(&mut tmp_operators, a, b); proof { self.lemma_swap(o0, tmp_operators@, a as int, b as int); }
//@rewrite best_operator_order\.clone_from\(op_order\); => best_operator_order = op_order.clone();
//@rewrite for op_order in OIT: family_operators\.iter\(\)\.skip\(1\) => for oi in OIT: 1..family_operators.len()
//@rewrite (let mut a) = 0; => $1: usize = 0;
//@rewrite (let mut b) = 0; => $1: usize = 0;
//@spec
    requires self.wf(), self.connected(), self.binary_operators@.len() * 5 <= usize::MAX,
    ensures ret matches Ok(o) ==> self.covers(o@),
//@at before_call make_exec_plan_with_order 0
    proof {
        let o = best_operator_order@;
        assert forall|k: int| #![trigger self.is_op(k)] self.is_op(k) implies exists|j: int| #![trigger o[j]] 0 <= j < o.len() && o[j] == k by { assert(o[k] == k); }
        assert(self.covers(o));
    }
//@loop 0
    invariant self.wf(), self.connected(), self.covers(best_operator_order@), best_operator_order@.len() == self.binary_operators@.len(), max_unsuccessful_tries <= usize::MAX, dist.bounds(0, self.binary_operators@.len() as int), num_new_generations == 4, self.binary_operators@.len() > 1,
//@forname 1 GIT
//@loop 1
    invariant self.covers(best_operator_order@), family_operators@.len() == GIT.index() + 1, dist.bounds(0, self.binary_operators@.len() as int), self.binary_operators@.len() > 1,
        forall|j: int| #![trigger family_operators@[j]] 0 <= j < family_operators@.len() ==> self.covers(family_operators@[j]@) && family_operators@[j]@.len() == self.binary_operators@.len(),
//@loop 2
    invariant a < self.binary_operators@.len(), b < self.binary_operators@.len(), dist.bounds(0, self.binary_operators@.len() as int),
//@forname 3 OIT
//@loop 3
    invariant self.wf(), self.connected(), self.covers(best_operator_order@), best_operator_order@.len() == self.binary_operators@.len(), unsucessful < max_unsuccessful_tries,
        forall|j: int| #![trigger family_operators@[j]] 0 <= j < family_operators@.len() ==> self.covers(family_operators@[j]@) && family_operators@[j]@.len() == self.binary_operators@.len(),
//@at loop_start 3
    let op_order = &family_operators[oi];
    proof { let _ = family_operators@[oi as int]; }
//@end
//@fn src=graphannis/src/annis/db/aql/conjunction.rs item=Conjunction::check_components_connected ret=ret
//@rewrite BTreeMap<usize, usize> => OrdMap<usize>
//@rewrite BTreeMap::new\(\) => OrdMap::new()
//@rewrite node2component\s*\.extend\(\s*self\s*\.nodes\s*\.iter\(\)\s*\.enumerate\(\)(?:\s*//[^\n]*\n)*\s*\.filter\(\|\(_i, n\)\| (.*?)\)\n(?:\s*//[^\n]*\n)*\s*\.map\(\|\(i, _n\)\| (.*?)\)\n(?:\s*//[^\n]*\n)*\s*\.map\(\|i\| \((\w+), (\w+)\)\),?\s*\); => for i in FIT: 0..self.nodes.len() invariant self.wf(), forall|n: usize| #![trigger node2component@.contains_key(n)] #![trigger node2component@[n]] (node2component@.contains_key(n) <==> self.var_idx_offset <= n < self.var_idx_offset + i && self.wanted(n - self.var_idx_offset)) && (node2component@.contains_key(n) ==> node2component@[n] == n), { let n = &self.nodes[i]; if $1 { let i = $2; let ghost m0 = node2component@; node2component.insert($3, $4); } }
//@rewrite for \(node_nr, cid\) in CIT: &node2component => let ents = node2component.entries(); for ent in CIT: ents
//@rewrite self\.location_in_query\.get\(n_var\) => self.location_in_query.of(n_var)
//@rewrite location\.cloned\(\) => location
//@rewrite (?s)desc: format!\(.*?\),\s*location => desc: some_string(), location
//@spec
    requires self.wf(),
    ensures ret is Ok ==> self.connected(),
//@forname 0 EIT
//@at before_loop 0
    proof { assert(self.linked(node2component@)); }
//@loop 0
    invariant self.wf(), self.linked(node2component@), EIT.seq() == self.binary_operators@.map_values(|x: BinaryOperatorSpecEntry| &x),
//@at loop_start 0
    let ghost (k, m0) = (EIT.index(), node2component@);
    proof { assert(*op_entry == self.binary_operators@[k]); assert(self.is_op(k)); }
//@at loop_end 0
    proof {
        let (l, r) = (op_entry.args.left, op_entry.args.right);
        if self.binary_operators@[k].op.binding() && m0.contains_key(l) && m0.contains_key(r) { self.lemma_link(m0, k, node2component@); }
    }
//@forname 1 CIT
//@at before_loop 1
    let ghost n2c = node2component@;
//@loop 1
    invariant self.wf(), self.linked(n2c),
        forall|i: int| #![trigger CIT.seq()[i]] 0 <= i < CIT.seq().len() ==> n2c.contains_key(*CIT.seq()[i].0) && n2c[*CIT.seq()[i].0] == *CIT.seq()[i].1,
        forall|i: int| #![trigger CIT.seq()[i]] 0 <= i < CIT.index() ==> first_component_id == Some(n2c[*CIT.seq()[i].0]),
        CIT.index() == 0 ==> first_component_id is None,
        CIT.index() > 0 ==> first_component_id is Some,
//@at loop_start 1
    let (node_nr, cid) = ent; let ghost ix = CIT.index();
    proof { let _ = CIT.seq()[ix]; }
//@at fn_end
    proof {
        assert forall|f: spec_fn(int) -> int| #![trigger self.agrees(f)] self.agrees(f) implies forall|a: int, b: int| #![trigger f(a), f(b)] self.wanted(a) && self.wanted(b) ==> f(a) == f(b) by {
            assert forall|a: int, b: int| #![trigger f(a), f(b)] self.wanted(a) && self.wanted(b) implies f(a) == f(b) by {
                let (x, y) = ((a + self.var_idx_offset) as usize, (b + self.var_idx_offset) as usize);
                assert(n2c.contains_key(x) && n2c.contains_key(y));
                assert(first_component_id == Some(n2c[x]) && first_component_id == Some(n2c[y]));
            }
        }
    }
//@end
//@fn src=graphannis/src/annis/db/aql/conjunction.rs item=Conjunction::make_exec_node ret=ret
//@rewrite <'a> =>
//@rewrite &'a => &
//@rewrite Result<Box<dyn ExecutionNode<Item\s=\sResult<MatchGroup>> \+ 'a>> => Result<Exec>
//@rewrite HashMap::new\(\) => SizeCache::new()
//@spec
    requires self.wf(), self.binary_operators@.len() * 5 <= usize::MAX,
    ensures ret matches Ok(e) ==> self.answers(*db, e),
//@end
}
/// costs and descriptions are remembered (they do not affect the results)
#[verifier::external_body]
pub fn remembered(n: &NodeSearch, c: &mut OrdMap<CostEstimate>, nr: usize) -> (String, String, Option<CostEstimate>) { unimplemented!() }

} // verus!
