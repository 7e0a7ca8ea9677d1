// Verus unit: pre/post order storage: distance and connection tests over all order entries of two nodes, order numbering
#![allow(unused)]
use vstd::prelude::*;
use std::ops::Bound;
verus! {
//@include graphlib.inc
//@include storelib.inc

// ---- contracts assumed for dependencies ---------------------------------------------------------
/// types::NumValue: an unsigned integer type
pub trait NumValue: Sized {
    spec fn v(&self) -> nat;
    fn to_usize(&self) -> (r: Option<usize>) ensures r == (if self.v() <= usize::MAX { Some(self.v() as usize) } else { None::<usize> });
    fn num_le(&self, o: &Self) -> (r: bool) ensures r == (self.v() <= o.v());
}
/// rustc_hash::FxHashMap
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct FxHashMap<K, V> { x: std::collections::HashMap<K, V> }
impl<K, V> FxHashMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures r is None <==> !self.view().dom().contains(*k), r matches Some(v) ==> *v == self.view()[*k],
    { unimplemented!() }
}

//@item src=core/src/graph/storage/prepost.rs item="struct PrePost"
#[verifier::external_body]
#[verifier::reject_recursive_types(OrderT)]
#[verifier::reject_recursive_types(LevelT)]
pub struct OrderVecEntry<OrderT, LevelT> { a: OrderT, b: LevelT }
#[verifier::reject_recursive_types(OrderT)]
#[verifier::reject_recursive_types(LevelT)]
//@item src=core/src/graph/storage/prepost.rs item="struct PrePostOrderStorage"
//@rewrite (?m)^    (\w+): => pub $1:

impl<OrderT: NumValue, LevelT: NumValue> PrePostOrderStorage<OrderT, LevelT> {
    /// the order entries of a node
    pub open spec fn orders(&self, n: NodeID) -> Seq<PrePost<OrderT, LevelT>> {
        if self.node_to_order.view().dom().contains(n) { self.node_to_order.view()[n]@ } else { Seq::empty() }
    }
    /// some visit of t lies d levels below a visit of s
    pub open spec fn below(&self, s: NodeID, t: NodeID, d: int) -> bool {
        exists|i: int, j: int| #![trigger self.orders(s)[i], self.orders(t)[j]] 0 <= i < self.orders(s).len() && 0 <= j < self.orders(t).len() && inside(self.orders(s)[i], self.orders(t)[j], d)
    }
    /// levels are stored in numbers that fit a machine word
    pub open spec fn small(&self) -> bool {
        forall|n: NodeID, i: int| #![trigger self.orders(n)[i]] 0 <= i < self.orders(n).len() ==> self.orders(n)[i].level.v() <= usize::MAX
    }
//@fn src=core/src/graph/storage/prepost.rs item="GraphStorage for PrePostOrderStorage::distance"
//@rewrite order_source\.pre <= order_target\.pre => order_source.pre.num_le(&order_target.pre)
//@rewrite order_target\.post <= order_source\.post => order_target.post.num_le(&order_source.post)
//@rewrite for order_source in order_source\.iter\(\) => for order_source in it: order_source.iter()
//@rewrite for order_target in order_target\.iter\(\) => for order_target in it2: order_target.iter()
//@rewrite? std::cmp::min\(target_level - source_level, min_level\) => (if target_level - source_level <= min_level { target_level - source_level } else { min_level })
//@spec
    requires self.small(),
    ensures
        ret is Ok,
        source == target ==> ret == Ok::<Option<usize>, GraphAnnisCoreError>(Some(0)),
        source != target ==> (ret matches Ok(Some(d)) ==> self.below(source, target, d as int) && forall|e: int| #[trigger] self.below(source, target, e) ==> d <= e),
        source != target ==> (ret matches Ok(None) ==> forall|e: int| !#[trigger] self.below(source, target, e)),
//@at before_loop 0
    let ghost ss = order_source@;
    let ghost ts = order_target@;
//@loop 0
    invariant
        self.small(), ss == self.orders(source), ts == self.orders(target), ts == order_target@,
        it.seq().len() == ss.len(), forall|i: int| #![trigger it.seq()[i]] 0 <= i < ss.len() ==> *it.seq()[i] == ss[i],
        was_found ==> self.below(source, target, min_level as int),
        !was_found ==> min_level == usize::MAX,
        forall|i: int, j: int, e: int| #![trigger inside(ss[i], ts[j], e)] 0 <= i < it.index() && 0 <= j < ts.len() && inside(ss[i], ts[j], e) ==> was_found && min_level <= e,
//@at loop_start 0
    let ghost i0 = it.index() as int;
//@loop 1
    invariant
        self.small(), ss == self.orders(source), ts == self.orders(target), 0 <= i0 < ss.len(), *order_source == ss[i0],
        it2.seq().len() == ts.len(), forall|i: int| #![trigger it2.seq()[i]] 0 <= i < ts.len() ==> *it2.seq()[i] == ts[i],
        was_found ==> self.below(source, target, min_level as int),
        !was_found ==> min_level == usize::MAX,
        forall|i: int, j: int, e: int| #![trigger inside(ss[i], ts[j], e)] (0 <= i < i0 && 0 <= j < ts.len() || i == i0 && 0 <= j < it2.index()) && inside(ss[i], ts[j], e) ==> was_found && min_level <= e,
//@at loop_start 1
    let ghost j0 = it2.index() as int;
    proof { assert(*order_target == ts[j0]); assert(self.orders(source)[i0].level.v() <= usize::MAX); assert(self.orders(target)[j0].level.v() <= usize::MAX); if ss[i0].level.v() <= ts[j0].level.v() { let d = ts[j0].level.v() - ss[i0].level.v(); assert(inside(ss[i0], ts[j0], d) ==> self.below(source, target, d)); } }
//@end
#[verifier::loop_isolation(false)]
//@fn src=core/src/graph/storage/prepost.rs item="GraphStorage for PrePostOrderStorage::is_connected"
//@rewrite order_source\.pre <= order_target\.pre => order_source.pre.num_le(&order_target.pre)
//@rewrite order_target\.post <= order_source\.post => order_target.post.num_le(&order_source.post)
//@rewrite for order_source in order_source\.iter\(\) => for order_source in it: order_source.iter()
//@rewrite for order_target in order_target\.iter\(\) => for order_target in it2: order_target.iter()
//@rewrite? std::ops::Bound => Bound
//@spec
    requires self.small(),
    ensures
        ret is Ok,
        source == target && min_distance == 0 ==> ret == Ok::<bool, GraphAnnisCoreError>(in_range(0, 0, max_distance)),
        !(source == target && min_distance == 0) ==> (ret matches Ok(b) ==> b == (exists|d: int| #![trigger self.below(source, target, d)] self.below(source, target, d) && in_range(d, min_distance, max_distance))),
//@at fn_start
    let ghost mx = max_distance;
    proof {
        assert(in_range(0, 0, max_distance) || !in_range(0, 0, max_distance));
        assert(forall|d: int| #![trigger self.below(source, target, d)] self.below(source, target, d) ==> 0 <= d <= usize::MAX) by {
            assert forall|d: int| #![trigger self.below(source, target, d)] self.below(source, target, d) implies 0 <= d <= usize::MAX by {
                let (i, j) = choose|i: int, j: int| #![trigger self.orders(source)[i], self.orders(target)[j]] 0 <= i < self.orders(source).len() && 0 <= j < self.orders(target).len() && inside(self.orders(source)[i], self.orders(target)[j], d);
                assert(self.orders(target)[j].level.v() <= usize::MAX);
            }
        }
        assert forall|d: int| #![trigger self.below(source, target, d)] self.below(source, target, d) implies in_range(d, min_distance, max_distance) == (d >= min_distance && in_range(d, 0, max_distance)) by { }
    }
//@at before_loop 0
    let ghost ss = order_source@;
    let ghost ts = order_target@;
//@loop 0
    invariant
        self.small(), !(source == target && min_distance == 0), ss == self.orders(source), ts == self.orders(target), ts == order_target@,
        forall|d: int| #![trigger in_range(d, 0, mx)] 0 <= d <= usize::MAX ==> (in_range(d, 0, mx) <==> d <= max_distance),
        forall|d: int| #![trigger self.below(source, target, d)] self.below(source, target, d) ==> in_range(d, min_distance, mx) == (d >= min_distance && in_range(d, 0, mx)),
        it.seq().len() == ss.len(), forall|i: int| #![trigger it.seq()[i]] 0 <= i < ss.len() ==> *it.seq()[i] == ss[i],
        forall|i: int, j: int, e: int| #![trigger inside(ss[i], ts[j], e)] 0 <= i < it.index() && 0 <= j < ts.len() && inside(ss[i], ts[j], e) ==> !(min_distance <= e && e <= max_distance),
//@at loop_start 0
    let ghost i0 = it.index() as int;
//@loop 1
    invariant
        self.small(), !(source == target && min_distance == 0), ss == self.orders(source), ts == self.orders(target), 0 <= i0 < ss.len(), *order_source == ss[i0],
        forall|d: int| #![trigger in_range(d, 0, mx)] 0 <= d <= usize::MAX ==> (in_range(d, 0, mx) <==> d <= max_distance),
        forall|d: int| #![trigger self.below(source, target, d)] self.below(source, target, d) ==> in_range(d, min_distance, mx) == (d >= min_distance && in_range(d, 0, mx)),
        it2.seq().len() == ts.len(), forall|i: int| #![trigger it2.seq()[i]] 0 <= i < ts.len() ==> *it2.seq()[i] == ts[i],
        forall|i: int, j: int, e: int| #![trigger inside(ss[i], ts[j], e)] (0 <= i < i0 && 0 <= j < ts.len() || i == i0 && 0 <= j < it2.index()) && inside(ss[i], ts[j], e) ==> !(min_distance <= e && e <= max_distance),
//@at loop_start 1
    let ghost j0 = it2.index() as int;
    proof { assert(*order_target == ts[j0]); assert(self.orders(source)[i0].level.v() <= usize::MAX); assert(self.orders(target)[j0].level.v() <= usize::MAX); if ss[i0].level.v() <= ts[j0].level.v() { let d = ts[j0].level.v() - ss[i0].level.v(); assert(inside(ss[i0], ts[j0], d) ==> self.below(source, target, d)); assert(in_range(d, 0, mx) <==> d <= max_distance); assert(inside(ss[i0], ts[j0], d) && d >= min_distance && d <= max_distance ==> self.below(source, target, d) && in_range(d, min_distance, mx)); } }
//@end
}
/// the interval of t lies inside the interval of s, d levels below
pub open spec fn inside<OrderT: NumValue, LevelT: NumValue>(s: PrePost<OrderT, LevelT>, t: PrePost<OrderT, LevelT>, d: int) -> bool {
    s.pre.v() <= t.pre.v() && t.post.v() <= s.post.v() && s.level.v() + d == t.level.v() && d >= 0
}
}
