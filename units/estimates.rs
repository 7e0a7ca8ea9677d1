// Verus unit: cost estimates never overflow and keep their bounds
#![allow(unused)]
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use std::ops::Bound;
use std::sync::Arc;
verus! {
global size_of usize == 8;
#[derive(Debug)]
pub struct GraphAnnisError { pub code: u64 }
pub type Result<T> = std::result::Result<T, GraphAnnisError>;

// ---- floating point numbers: calculations never fail, conversions saturate ----------------------
pub mod floats {
    use vstd::std_specs::ops::*;
    use vstd::prelude::*;
    #[verifier::external_body]
    pub broadcast proof fn ax_mul(a: f64, b: f64) ensures #[trigger] a.mul_req(b) {}
    #[verifier::external_body]
    pub broadcast proof fn ax_div(a: f64, b: f64) ensures #[trigger] a.div_req(b) {}
    #[verifier::external_body]
    pub broadcast proof fn ax_add(a: f64, b: f64) ensures #[trigger] a.add_req(b) {}
    #[verifier::external_body]
    pub broadcast proof fn ax_sub(a: f64, b: f64) ensures #[trigger] a.sub_req(b) {}
}
broadcast use {floats::ax_mul, floats::ax_div, floats::ax_add, floats::ax_sub};
#[verifier::external_body]
pub fn float(x: usize) -> f64 { x as f64 }
#[verifier::external_body]
pub fn float_i32(x: i32) -> f64 { x as f64 }
/// `as usize` of a float saturates and takes 0 for anything that is no number
#[verifier::external_body]
pub fn rounded(x: f64) -> usize { x.round() as usize }
#[verifier::external_body]
pub fn fmax(a: f64, b: f64) -> f64 { a.max(b) }
#[verifier::external_body]
pub fn ge(a: f64, b: f64) -> bool { a >= b }
#[verifier::external_body]
pub fn gt(a: f64, b: f64) -> bool { a > b }
#[verifier::external_body]
pub fn is_zero(a: f64) -> bool { a == 0.0 }
#[verifier::external_body]
pub fn div(a: f64, b: f64) -> f64 { a / b }
#[verifier::external_body]
pub fn sub(a: f64, b: f64) -> f64 { a - b }
/// gives the verifier the type of a number taken from an enum
#[verifier::external_body]
pub fn same(x: f64) -> f64 { x }
pub open spec fn sat(x: int) -> int { if x > usize::MAX { usize::MAX as int } else { x } }
pub open spec fn at_least_one(x: int) -> int { if x < 1 { 1 } else { x } }

// ---- what estimates are made from ----------------------------------------------------------------
//@item src=core/src/graph/storage/mod.rs item="struct GraphStatistic"
/// statistics of a component of a corpus that fits on a machine
pub open spec fn stats_ok(s: GraphStatistic) -> bool {
    &&& s.nodes < 0x1_0000_0000_0000 && s.root_nodes <= s.nodes && s.max_fan_out <= s.nodes && s.max_depth <= s.nodes
    &&& s.fan_out_99_percentile <= s.nodes && s.inverse_fan_out_99_percentile <= s.nodes
}
/// the typical numbers of outgoing and ingoing edges are at most the number of edges, also when combined
pub open spec fn fan_ok(o: GraphStatistic, i: GraphStatistic) -> bool { o.fan_out_99_percentile * i.inverse_fan_out_99_percentile < 0x1_0000_0000_0000 }
pub open spec fn ov(x: Option<&str>) -> Option<Seq<char>> { match x { Some(s) => Some(s@), None => None } }
#[verifier::external_body]
pub struct Annos { x: u8 }
impl Annos {
    pub uninterp spec fn size(&self, ns: Option<Seq<char>>, name: Seq<char>) -> usize;
    #[verifier::external_body]
    pub fn number_of_annotations(&self) -> Result<usize> { unimplemented!() }
    #[verifier::external_body]
    pub fn number_of_annotations_by_name(&self, ns: Option<&str>, name: &str) -> (r: Result<usize>) ensures r matches Ok(n) ==> n == self.size(ov(ns), name@) { unimplemented!() }
    // contracts proved in the units of the annotation storages
    #[verifier::external_body]
    pub fn guess_max_count(&self, ns: Option<&str>, name: &str, lower: &str, upper: &str) -> (r: Result<usize>) ensures r matches Ok(n) ==> n <= self.size(ov(ns), name@) { unimplemented!() }
    #[verifier::external_body]
    pub fn guess_max_count_regex(&self, ns: Option<&str>, name: &str, pattern: &str) -> (r: Result<usize>) ensures r matches Ok(n) ==> n <= self.size(ov(ns), name@) { unimplemented!() }
    #[verifier::external_body]
    pub fn guess_most_frequent_value(&self, ns: Option<&str>, name: &str) -> Result<Option<String>> { unimplemented!() }
}
#[verifier::external_body]
pub struct Gs { x: u8 }
impl Gs {
    pub uninterp spec fn stats(&self) -> Option<GraphStatistic>;
    pub open spec fn ok(&self) -> bool { self.stats() matches Some(s) ==> stats_ok(s) && fan_ok(s, s) }
    #[verifier::external_body]
    pub fn get_statistics(&self) -> (r: Option<&GraphStatistic>) ensures match r { Some(s) => self.stats() == Some(*s), None => self.stats() is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn get_anno_storage(&self) -> &Annos { unimplemented!() }
}
pub open spec fn all_ok(v: Seq<Gs>) -> bool { v.len() < 0x4000 && forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> v[i].ok() }
pub struct TokenHelper { pub left: Gs, pub right: Gs, pub cov: Vec<Gs> }
impl TokenHelper {
    pub fn get_gs_left_token(&self) -> (r: &Gs) ensures *r == self.left { &self.left }
    pub fn get_gs_right_token(&self) -> (r: &Gs) ensures *r == self.right { &self.right }
    pub fn get_gs_coverage(&self) -> (r: &Vec<Gs>) ensures *r == self.cov { &self.cov }
    pub open spec fn ok(&self) -> bool { self.left.ok() && self.right.ok() && all_ok(self.cov@) }
}
//@item src=graphannis/src/annis/operator.rs item="enum EstimationType"
//@rewrite #\[derive\(Clone, Debug, PartialEq\)\] =>
//@item src=graphannis/src/annis/db/aql/operators/mod.rs item="enum RangeSpec"
impl RangeSpec {
    pub open spec fn lo(&self) -> usize { match self { RangeSpec::Bound { min_dist, .. } => *min_dist, RangeSpec::Unbound => 1 } }
    pub open spec fn hi(&self) -> Bound<usize> { match self { RangeSpec::Bound { max_dist, .. } => Bound::Included(*max_dist), RangeSpec::Unbound => Bound::Unbounded } }
//@fn src=graphannis/src/annis/db/aql/operators/mod.rs item=RangeSpec::max_dist
//@rewrite? std::ops::Bound => Bound
//@spec
    ensures ret == self.hi(),
//@end
//@fn src=graphannis/src/annis/db/aql/operators/mod.rs item=RangeSpec::min_dist
//@spec
    ensures ret == self.lo(),
//@end
}
pub fn usize_min(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
pub fn usize_max(a: usize, b: usize) -> (r: usize) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }

// ---- joins and filters ---------------------------------------------------------------------------
//@item src=graphannis/src/annis/db/exec/mod.rs item="struct CostEstimate"
//@rewrite #\[derive\(Debug, Clone\)\] =>
#[verifier::external_body]
pub struct Op { x: u8 }
impl Op {
    #[verifier::external_body]
    pub fn estimation_type(&self) -> Result<EstimationType> { unimplemented!() }
    #[verifier::external_body]
    pub fn edge_anno_selectivity(&self) -> Result<Option<f64>> { unimplemented!() }
}
#[verifier::external_body]
pub struct UnOp { x: u8 }
impl UnOp {
    #[verifier::external_body]
    pub fn estimation_type(&self) -> EstimationType { unimplemented!() }
}
//@fn src=graphannis/src/annis/db/exec/mod.rs item=calculate_outputsize ret=ret
//@rewrite calculate_outputsize<Op: BinaryOperatorBase \+ \?Sized> => calculate_outputsize
//@rewrite? ([\w.]+) as f64 => float($1)
//@rewrite? (\([^()]*\))\.round\(\) as usize => rounded($1)
//@rewrite? EstimationType::Selectivity\((\w+)\)\s=>\s\{ => EstimationType::Selectivity($1) => { let ${1} = same($1);
//@rewrite? std::cmp::min\( => usize_min(
//@rewrite? std::cmp::max\( => usize_max(
//@spec
    ensures ret matches Ok(n) ==> 1 <= n <= at_least_one(sat(cost_lhs.output * cost_rhs.output)),
//@end
//@fn src=graphannis/src/annis/db/exec/filter.rs item=calculate_binary_outputsize ret=ret
//@rewrite &dyn BinaryOperatorBase => &Op
//@rewrite? ([\w.]+) as f64 => float($1)
//@rewrite? (\([^()]*\))\.round\(\) as usize => rounded($1)
//@rewrite? EstimationType::Selectivity\((\w+)\)\s=>\s\{ => EstimationType::Selectivity($1) => { let ${1} = same($1);
//@rewrite? std::cmp::min\( => usize_min(
//@rewrite? std::cmp::max\( => usize_max(
//@spec
    ensures ret matches Ok(n) ==> 1 <= n <= at_least_one(num_tuples as int),
//@end
//@fn src=graphannis/src/annis/db/exec/filter.rs item=calculate_unary_outputsize ret=ret
//@rewrite &dyn UnaryOperator => &UnOp
//@rewrite? ([\w.]+) as f64 => float($1)
//@rewrite? (\([^()]*\))\.round\(\) as usize => rounded($1)
//@rewrite? EstimationType::Selectivity\((\w+)\)\s=>\s\{ => EstimationType::Selectivity($1) => { let ${1} = same($1);
//@rewrite? std::cmp::min\( => usize_min(
//@rewrite? std::cmp::max\( => usize_max(
//@spec
    ensures 1 <= ret <= at_least_one(num_tuples as int),
//@end

/// the description of a step without the parts that are only shown to the user
pub struct ExecutionNodeDesc { pub cost: Option<CostEstimate> }
/// the estimate a strategy makes for its own work
#[verifier::external_body]
pub fn processed_func(e: EstimationType, l: usize, r: usize) -> usize { unimplemented!() }
pub open spec fn join_cost(l: CostEstimate, r: CostEstimate, c: CostEstimate) -> bool {
    &&& 1 <= c.output <= at_least_one(sat(l.output * r.output))
    &&& c.intermediate_sum == sat(c.processed_in_step + l.intermediate_sum + r.intermediate_sum)
}
impl ExecutionNodeDesc {
//@fn src=graphannis/src/annis/db/exec/mod.rs item=ExecutionNodeDesc::join ret=ret
//@rewrite join<Op: BinaryOperatorBase \+ \?Sized> => join
//@rewrite (?s)\s*impl_description: &str,\s*query_fragment: &str,\s*processed_func: &dyn Fn\(EstimationType, usize, usize\) -> usize, =>
//@rewrite (?s)let component_nr = .*?// merge costs => 
//@rewrite (?s)Ok\(ExecutionNodeDesc \{.*?\n        \}\) => Ok(ExecutionNodeDesc { cost })
//@spec
    ensures ret matches Ok(d) ==> match (lhs, rhs) {
        (Some(l), Some(r)) => match (l.cost, r.cost) { (Some(a), Some(b)) => d.cost matches Some(c) && join_cost(a, b, c), _ => d.cost is None },
        _ => d.cost is None,
    },
//@end
}

// ---- estimates of the operators ------------------------------------------------------------------
pub struct NearSpec { pub dist: RangeSpec }
pub struct PrecedenceSpec { pub dist: RangeSpec }
//@item src=graphannis/src/annis/db/aql/operators/arity.rs item="struct ArityOperator"
//@rewrite Arc<dyn GraphStorage> => Gs
//@rewrite (?m)^    (\w+): => pub $1:
//@rewrite struct => pub struct
impl ArityOperator {
//@fn src=graphannis/src/annis/db/aql/operators/arity.rs item="UnaryOperator for ArityOperator::estimation_type"
//@rewrite? in self\.graphstorages\.iter\(\) => in &self.graphstorages
//@rewrite? ([\w.]+) as f64 => float($1)
//@rewrite? (\w+)\.max\((\w+|[\d.]+)\) => fmax($1, $2)
//@rewrite? (\w+) >= (1\.0) => ge($1, $2)
//@rewrite? std::cmp::min\( => usize_min(
//@rewrite? std::cmp::max\( => usize_max(
//@forname 0 it
//@spec
    requires all_ok(self.graphstorages@),
//@loop 0
    invariant all_ok(self.graphstorages@), it.seq().len() == self.graphstorages@.len(), forall|i: int| #![trigger it.seq()[i]] 0 <= i < it.seq().len() ==> *it.seq()[i] == self.graphstorages@[i],
//@at loop_start 0
    proof { let _ = it.seq()[it.index()]; let _ = self.graphstorages@[it.index()]; }
//@end
}
pub struct Inclusion { pub gs_order: Gs, pub tok_helper: TokenHelper }
impl Inclusion {
//@fn src=graphannis/src/annis/db/aql/operators/inclusion.rs item="BinaryOperatorBase for Inclusion::estimation_type"
//@rewrite? in self\.tok_helper\.get_gs_coverage\(\)\.iter\(\) => in self.tok_helper.get_gs_coverage()
//@rewrite? \(([\w.]+) as f64\) => float($1)
//@rewrite? ([\w.]+) as f64 => float($1)
//@rewrite? let mut (sum_\w+) = 0; => let mut $1: usize = 0;
//@forname 0 it
//@spec
    requires self.tok_helper.ok(), self.gs_order.ok(),
        forall|i: int| #![trigger self.tok_helper.cov@[i]] 0 <= i < self.tok_helper.cov@.len() && self.tok_helper.cov@[i].stats() is Some && self.tok_helper.left.stats() is Some ==> fan_ok(self.tok_helper.cov@[i].stats()->0, self.tok_helper.left.stats()->0),
//@loop 0
    invariant all_ok(self.tok_helper.cov@), it.seq().len() == self.tok_helper.cov@.len(), forall|i: int| #![trigger it.seq()[i]] 0 <= i < it.seq().len() ==> *it.seq()[i] == self.tok_helper.cov@[i],
        self.tok_helper.left.stats() == Some(*stats_left),
        forall|i: int| #![trigger self.tok_helper.cov@[i]] 0 <= i < self.tok_helper.cov@.len() && self.tok_helper.cov@[i].stats() is Some ==> fan_ok(self.tok_helper.cov@[i].stats()->0, *stats_left),
        sum_cov_nodes <= it.index() * 0x1_0000_0000_0000, sum_included <= it.index() * 0x2_0000_0000_0000,
//@at loop_start 0
    proof { let _ = it.seq()[it.index()]; let _ = self.tok_helper.cov@[it.index()]; }
//@end
}
pub struct Overlap { pub gs_order: Gs, pub tok_helper: TokenHelper, pub reflexive: bool }
impl Overlap {
//@fn src=graphannis/src/annis/db/aql/operators/overlap.rs item="BinaryOperatorBase for Overlap::estimation_type"
//@rewrite? in self\.tok_helper\.get_gs_coverage\(\)\.iter\(\) => in self.tok_helper.get_gs_coverage()
//@rewrite? \(([\w.]+) as f64\) => float($1)
//@rewrite? ([\w.]+) as f64 => float($1)
//@rewrite? let mut (sum_\w+) = 0; => let mut $1: usize = 0;
//@forname 0 it
//@spec
    requires self.tok_helper.ok(), self.gs_order.ok(),
//@loop 0
    invariant all_ok(self.tok_helper.cov@), it.seq().len() == self.tok_helper.cov@.len(), forall|i: int| #![trigger it.seq()[i]] 0 <= i < it.seq().len() ==> *it.seq()[i] == self.tok_helper.cov@[i],
        sum_cov_nodes <= it.index() * 0x1_0000_0000_0000, sum_included <= it.index() * 0x2_0000_0000_0000,
//@at loop_start 0
    proof { let _ = it.seq()[it.index()]; let _ = self.tok_helper.cov@[it.index()]; }
//@end
}
pub struct Near { pub gs_order: Gs, pub spec: NearSpec }
impl Near {
//@fn src=graphannis/src/annis/db/aql/operators/near.rs item="BinaryOperatorBase for Near::estimation_type"
//@rewrite? std::ops::Bound:: => Bound::
//@rewrite? std::cmp::min\( => usize_min(
//@rewrite? ([\w.]+) as f64 => float($1)
//@spec
    requires self.gs_order.ok(),
//@end
}
pub struct Precedence { pub gs_order: Gs, pub spec: PrecedenceSpec }
impl Precedence {
//@fn src=graphannis/src/annis/db/aql/operators/precedence.rs item="BinaryOperatorBase for Precedence::estimation_type"
//@rewrite? std::ops::Bound:: => Bound::
//@rewrite? std::cmp::min\( => usize_min(
//@rewrite? ([\w.]+) as f64 => float($1)
//@spec
    requires self.gs_order.ok(),
//@end
}
pub struct InversePrecedence { pub gs_order: Gs, pub spec: PrecedenceSpec }
impl InversePrecedence {
//@fn src=graphannis/src/annis/db/aql/operators/precedence.rs item="BinaryOperatorBase for InversePrecedence::estimation_type"
//@rewrite? std::ops::Bound:: => Bound::
//@rewrite? std::cmp::min\( => usize_min(
//@rewrite? ([\w.]+) as f64 => float($1)
//@spec
    requires self.gs_order.ok(),
//@end
}
pub struct Inner { pub x: u8 }
//@item src=graphannis/src/annis/operator.rs item="enum EdgeAnnoSearchSpec"
impl EdgeAnnoSearchSpec {
//@fn src=graphannis/src/annis/operator.rs item=EdgeAnnoSearchSpec::guess_max_count
//@rewrite &dyn EdgeAnnotationStorage => &Annos
//@rewrite? ns\.as_ref\(\)\.map\(String::as_str\) => opt_str(ns)
//@end
}
#[verifier::external_body]
pub fn opt_str(x: &Option<String>) -> (r: Option<&str>) ensures ov(r) == (match x { Some(s) => Some(s@), None => None::<Seq<char>> }) { x.as_deref() }
pub struct BaseEdgeOpSpec { pub dist: RangeSpec, pub edge_anno: Option<EdgeAnnoSearchSpec> }
pub struct BaseEdgeOp { pub gs: Vec<Gs>, pub spec: BaseEdgeOpSpec, pub max_nodes_estimate: usize, pub inverse: bool }
#[verifier::external_body]
pub fn reachable_by_path_length(stats: &GraphStatistic, path_length: i32) -> f64 { unimplemented!() }
#[verifier::external_body]
pub fn clamp_i32(x: usize) -> i32 { unimplemented!() }
impl BaseEdgeOp {
//@fn src=graphannis/src/annis/db/aql/operators/edge_op.rs item="BinaryOperatorBase for BaseEdgeOp::estimation_type"
//@rewrite? std::ops::Bound:: => Bound::
//@rewrite? std::cmp::min\( => usize_min(
//@rewrite? ([\w.]+) as f64 => float($1)
//@rewrite? Arc<dyn GraphStorage> => Gs
//@rewrite? i32::try_from\((\w+)\)\.unwrap_or\(i32::MAX\) => clamp_i32($1)
//@rewrite? max_nodes == 0\.0 => is_zero(max_nodes)
//@rewrite? worst_sel < gs_selectivity => gt(gs_selectivity, worst_sel)
//@rewrite? return Ok\(Selectivity => return Ok(EstimationType::Selectivity
//@forname 0 it
//@spec
    requires all_ok(self.gs@),
//@loop 0
    invariant all_ok(self.gs@), it.seq().len() == self.gs@.len(), forall|i: int| #![trigger it.seq()[i]] 0 <= i < it.seq().len() ==> *it.seq()[i] == self.gs@[i],
//@at loop_start 0
    proof { let _ = it.seq()[it.index()]; let _ = self.gs@[it.index()]; }
//@end
//@fn src=graphannis/src/annis/db/aql/operators/edge_op.rs item="BinaryOperatorBase for BaseEdgeOp::edge_anno_selectivity"
//@rewrite? \((\w+) as f64\) => float($1)
//@rewrite? Arc<dyn GraphStorage> => Gs
//@rewrite? ns\.as_ref\(\)\.map\(String::as_str\) => opt_str(ns)
//@rewrite? g_sel > worst_sel => gt(g_sel, worst_sel)
//@spec
    requires all_ok(self.gs@),
//@end
}

// ---- estimates of the annotation storages --------------------------------------------------------
#[verifier::external_body]
pub struct AnnoKey { x: u8 }
/// ordered map with values compared by content
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct BTreeMap<K, V> { x: std::collections::BTreeMap<K, V> }
impl<K, V> BTreeMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>) ensures r is None <==> !self.view().dom().contains(*k), r matches Some(v) ==> *v == self.view()[*k] { unimplemented!() }
}
pub open spec fn size_of_key(m: Map<AnnoKey, usize>, k: AnnoKey) -> int { if m.dom().contains(k) { m[k] as int } else { 0 } }
pub open spec fn total(m: Map<AnnoKey, usize>, k: Seq<AnnoKey>) -> int decreases k.len() { if k.len() == 0 { 0 } else { total(m, k.drop_last()) + size_of_key(m, k.last()) } }
pub proof fn lemma_total(m: Map<AnnoKey, usize>, k: Seq<AnnoKey>, n: int)
    requires 0 <= n < k.len()
    ensures total(m, k.take(n)) + size_of_key(m, k[n]) == total(m, k.take(n + 1)), 0 <= total(m, k.take(n)) <= total(m, k.take(n + 1)) <= total(m, k),
    decreases k.len() - n
{
    assert(k.take(n + 1).drop_last() =~= k.take(n));
    lemma_total_pos(m, k.take(n));
    if n + 1 < k.len() { lemma_total(m, k, n + 1); } else { assert(k.take(n + 1) =~= k); }
}
pub proof fn lemma_total_pos(m: Map<AnnoKey, usize>, k: Seq<AnnoKey>) ensures total(m, k) >= 0 decreases k.len() { if k.len() > 0 { lemma_total_pos(m, k.drop_last()); } }
/// a share of a number (floating point)
#[verifier::external_body]
pub fn share(count: usize, of: usize, size: usize) -> (r: usize) requires count <= of, of > 0 ensures r <= size
{ let selectivity: f64 = (count as f64) / (of as f64); ((selectivity * (size as f64)).round() as usize).min(size) }
#[verifier::external_body]
pub fn str_le(a: &str, b: &str) -> bool { a <= b }
#[verifier::external_body]
pub struct Parsed { x: u8 }
#[verifier::external_body]
pub fn regex_full_match(p: &str) -> String { unimplemented!() }
#[verifier::external_body]
pub fn parse_regex(p: &String) -> Result<Parsed> { unimplemented!() }
#[verifier::external_body]
pub fn guess_from_pattern(p: Parsed, s: &str) -> usize { unimplemented!() }
//@inlined new
pub struct MemAnnos { pub anno_key_sizes: BTreeMap<AnnoKey, usize>, pub histogram_bounds: BTreeMap<usize, Vec<String>> }
impl MemAnnos {
    /// the keys a name (with or without namespace) stands for
    pub uninterp spec fn keys_seq(&self, ns: Option<Seq<char>>, name: Seq<char>) -> Seq<AnnoKey>;
    pub open spec fn size(&self, ns: Option<Seq<char>>, name: Seq<char>) -> int { total(self.anno_key_sizes.view(), self.keys_seq(ns, name)) }
    /// the numbers of annotations and histogram entries fit into memory
    pub open spec fn wf(&self) -> bool {
        &&& forall|ns: Option<Seq<char>>, name: Seq<char>| #![trigger self.keys_seq(ns, name)] self.size(ns, name) <= usize::MAX && self.keys_seq(ns, name).len() < 0x1_0000_0000
        &&& forall|k: usize| #![trigger self.histogram_bounds.view()[k]] self.histogram_bounds.view().dom().contains(k) ==> self.histogram_bounds.view()[k]@.len() < 0x1_0000_0000
    }
    #[verifier::external_body]
    pub fn keys(&self, ns: Option<&str>, name: &str) -> (r: Result<Vec<AnnoKey>>) ensures r matches Ok(v) ==> v@ == self.keys_seq(ov(ns), name@) { unimplemented!() }
    #[verifier::external_body]
    pub fn symbol(&self, k: &AnnoKey) -> Option<usize> { unimplemented!() }
//@fn src=core/src/annostorage/inmemory.rs item="AnnotationStorage for AnnoStorageImpl::number_of_annotations_by_name"
//@rewrite (?s)match ns \{.*?\n        \}; => self.keys(ns, name)?;
//@rewrite? let mut result = 0; => let mut result: usize = 0;
//@rewrite? result \+= anno_size; => result += *anno_size;
//@forname 0 it
//@spec
    requires self.wf(),
    ensures ret matches Ok(n) ==> n == self.size(ov(ns), name@),
//@loop 0
    invariant keys == self.keys_seq(ov(ns), name@), it.seq() == keys, self.size(ov(ns), name@) <= usize::MAX, self.wf(),
        result == total(self.anno_key_sizes.view(), keys.take(it.index())),
//@at before_loop 0
    let ghost keys = qualified_keys@;
    proof { let _ = self.keys_seq(ov(ns), name@); assert(keys.take(0) =~= Seq::empty()); }
//@at loop_start 0
    proof { lemma_total(self.anno_key_sizes.view(), keys, it.index() as int); }
//@at after_loop 0
    proof { assert(keys.take(keys.len() as int) =~= keys); }
//@end
//@fn src=core/src/annostorage/inmemory.rs item="AnnotationStorage for AnnoStorageImpl::guess_max_count"
//@rewrite (?s)match ns \{.*?\n        \}; => self.keys(ns, name)?;
//@rewrite? bucket_begin\.as_str\(\) <= (\w+) => str_le(bucket_begin.as_str(), $1)
//@rewrite? (\w+) <= bucket_end\.as_str\(\) => str_le($1, bucket_end.as_str())
//@rewrite? self\.anno_keys\.get_symbol\( => self.symbol(
//@rewrite (?s)let selectivity: f64 = \(count_matches as f64\) / \(sum_histogram_buckets as f64\); =>
//@rewrite \(selectivity \* \(universe_size as f64\)\)\.round\(\) as usize => share(count_matches, sum_histogram_buckets, universe_size)
//@forname 0 it
//@forname 1 jt
//@spec
    requires self.wf(),
    ensures ret matches Ok(n) ==> n <= self.size(ov(ns), name@),
//@loop 0
    invariant keys == self.keys_seq(ov(ns), name@), it.seq() == keys, self.size(ov(ns), name@) <= usize::MAX, self.wf(), keys.len() < 0x1_0000_0000,
        universe_size == total(self.anno_key_sizes.view(), keys.take(it.index())),
        count_matches <= sum_histogram_buckets <= it.index() * 0x1_0000_0000,
//@loop 1
    invariant count_matches + (histo@.len() - 1 - jt.index()) <= sum_histogram_buckets, histo@.len() >= 2, jt.seq().len() == histo@.len() - 1,
        forall|i: int| #![trigger jt.seq()[i]] 0 <= i < jt.seq().len() ==> jt.seq()[i] == i,
//@at loop_start 1
    proof { let _ = jt.seq()[jt.index()]; }
//@at before_loop 0
    let ghost keys = qualified_keys@;
    proof { let _ = self.keys_seq(ov(ns), name@); assert(keys.take(0) =~= Seq::empty()); }
//@at loop_start 0
    proof { lemma_total(self.anno_key_sizes.view(), keys, it.index() as int); }
//@at after_loop 0
    proof { assert(keys.take(keys.len() as int) =~= keys); lemma_total_pos(self.anno_key_sizes.view(), keys); }
//@end
//@fn src=core/src/annostorage/inmemory.rs item="AnnotationStorage for AnnoStorageImpl::guess_max_count_regex"
//@rewrite util::regex_full_match => regex_full_match
//@rewrite (?s)(regex_syntax::)?Parser::new\(\)\.parse\(&full_match_pattern\) => parse_regex(&full_match_pattern)
//@rewrite (?s)let mut guessed_count = 0;.*\n            Ok\(guessed => let guessed_count = guess_from_pattern(parsed, pattern); Ok(guessed
//@rewrite? guessed_count\.min\(total\) => usize_min(guessed_count, total)
//@rewrite? std::cmp::min\( => usize_min(
//@spec
    requires self.wf(),
    ensures ret matches Ok(n) ==> n <= self.size(ov(ns), name@),
//@at fn_start
    proof { lemma_total_pos(self.anno_key_sizes.view(), self.keys_seq(ov(ns), name@)); }
//@end
}
pub struct DiskAnnos { pub anno_key_sizes: BTreeMap<AnnoKey, usize>, pub histogram_bounds: BTreeMap<AnnoKey, Vec<String>> }
impl DiskAnnos {
    /// the keys a name (with or without namespace) stands for
    pub uninterp spec fn keys_seq(&self, ns: Option<Seq<char>>, name: Seq<char>) -> Seq<AnnoKey>;
    pub open spec fn size(&self, ns: Option<Seq<char>>, name: Seq<char>) -> int { total(self.anno_key_sizes.view(), self.keys_seq(ns, name)) }
    /// the numbers of annotations and histogram entries fit into memory
    pub open spec fn wf(&self) -> bool {
        &&& forall|ns: Option<Seq<char>>, name: Seq<char>| #![trigger self.keys_seq(ns, name)] self.size(ns, name) <= usize::MAX && self.keys_seq(ns, name).len() < 0x1_0000_0000
        &&& forall|k: AnnoKey| #![trigger self.histogram_bounds.view()[k]] self.histogram_bounds.view().dom().contains(k) ==> self.histogram_bounds.view()[k]@.len() < 0x1_0000_0000
    }
    #[verifier::external_body]
    pub fn keys(&self, ns: Option<&str>, name: &str) -> (r: Result<Vec<AnnoKey>>) ensures r matches Ok(v) ==> v@ == self.keys_seq(ov(ns), name@) { unimplemented!() }
//@fn src=core/src/annostorage/ondisk.rs item="AnnotationStorage for AnnoStorageImpl::number_of_annotations_by_name"
//@rewrite (?s)match ns \{.*?\n        \}; => self.keys(ns, name)?;
//@rewrite? let mut result = 0; => let mut result: usize = 0;
//@rewrite? result \+= anno_size; => result += *anno_size;
//@forname 0 it
//@spec
    requires self.wf(),
    ensures ret matches Ok(n) ==> n == self.size(ov(ns), name@),
//@loop 0
    invariant keys == self.keys_seq(ov(ns), name@), it.seq() == keys, self.size(ov(ns), name@) <= usize::MAX, self.wf(),
        result == total(self.anno_key_sizes.view(), keys.take(it.index())),
//@at before_loop 0
    let ghost keys = qualified_keys@;
    proof { let _ = self.keys_seq(ov(ns), name@); assert(keys.take(0) =~= Seq::empty()); }
//@at loop_start 0
    proof { lemma_total(self.anno_key_sizes.view(), keys, it.index() as int); }
//@at after_loop 0
    proof { assert(keys.take(keys.len() as int) =~= keys); }
//@end
//@fn src=core/src/annostorage/ondisk.rs item="AnnotationStorage for AnnoStorageImpl::guess_max_count"
//@rewrite (?s)match ns \{.*?\n        \}; => self.keys(ns, name)?;
//@rewrite? bucket_begin\.as_str\(\) <= (\w+) => str_le(bucket_begin.as_str(), $1)
//@rewrite? (\w+) <= bucket_end\.as_str\(\) => str_le($1, bucket_end.as_str())
//@rewrite? self\.anno_keys\.get_symbol\( => self.symbol(
//@rewrite (?s)let selectivity: f64 = \(count_matches as f64\) / \(sum_histogram_buckets as f64\); =>
//@rewrite \(selectivity \* \(universe_size as f64\)\)\.round\(\) as usize => share(count_matches, sum_histogram_buckets, universe_size)
//@forname 0 it
//@forname 1 jt
//@spec
    requires self.wf(),
    ensures ret matches Ok(n) ==> n <= self.size(ov(ns), name@),
//@loop 0
    invariant keys == self.keys_seq(ov(ns), name@), it.seq() == keys, self.size(ov(ns), name@) <= usize::MAX, self.wf(), keys.len() < 0x1_0000_0000,
        universe_size == total(self.anno_key_sizes.view(), keys.take(it.index())),
        count_matches <= sum_histogram_buckets <= it.index() * 0x1_0000_0000,
//@loop 1
    invariant count_matches + (histo@.len() - 1 - jt.index()) <= sum_histogram_buckets, histo@.len() >= 2, jt.seq().len() == histo@.len() - 1,
        forall|i: int| #![trigger jt.seq()[i]] 0 <= i < jt.seq().len() ==> jt.seq()[i] == i,
//@at loop_start 1
    proof { let _ = jt.seq()[jt.index()]; }
//@at before_loop 0
    let ghost keys = qualified_keys@;
    proof { let _ = self.keys_seq(ov(ns), name@); assert(keys.take(0) =~= Seq::empty()); }
//@at loop_start 0
    proof { lemma_total(self.anno_key_sizes.view(), keys, it.index() as int); }
//@at after_loop 0
    proof { assert(keys.take(keys.len() as int) =~= keys); lemma_total_pos(self.anno_key_sizes.view(), keys); }
//@end
//@fn src=core/src/annostorage/ondisk.rs item="AnnotationStorage for AnnoStorageImpl::guess_max_count_regex"
//@rewrite util::regex_full_match => regex_full_match
//@rewrite (?s)(regex_syntax::)?Parser::new\(\)\.parse\(&full_match_pattern\) => parse_regex(&full_match_pattern)
//@rewrite (?s)let mut guessed_count = 0;.*\n            Ok\(guessed => let guessed_count = guess_from_pattern(parsed, pattern); Ok(guessed
//@rewrite? guessed_count\.min\(total\) => usize_min(guessed_count, total)
//@rewrite? std::cmp::min\( => usize_min(
//@spec
    requires self.wf(),
    ensures ret matches Ok(n) ==> n <= self.size(ov(ns), name@),
//@at fn_start
    proof { lemma_total_pos(self.anno_key_sizes.view(), self.keys_seq(ov(ns), name@)); }
//@end
}
} // verus!
