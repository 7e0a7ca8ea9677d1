// Verus unit: comparison of annotation values, negated operators
#![allow(unused)]
use vstd::prelude::*;
use std::ops::Bound;
use std::sync::Arc;
verus! {
global size_of usize == 8;
//@include opslib.inc

#[allow(inconsistent_fields)]
//@item src=graphannis/src/annis/db/exec/nodesearch.rs item="enum NodeSearchSpec"
//@item src=core/src/annostorage/mod.rs item="enum ValueSearch"
//@item src=graphannis/src/annis/db/aql/model.rs item="const TOK"
//@rewrite ^(pub )?const (\w+): &str => pub const ${2}: &'static str
//@item src=core/src/graph/mod.rs item="const ANNIS_NS"
//@rewrite ^(pub )?const (\w+): &str => pub const ${2}: &'static str
impl Clone for NodeSearchSpec {
    #[verifier::external_body]
    fn clone(&self) -> (r: NodeSearchSpec) ensures r == *self { unimplemented!() }
}
/// the token annotation
#[verifier::external_body]
pub fn tok_key() -> (r: Arc<AnnoKey>) ensures r.ns@ == ANNIS_NS@, r.name@ == TOK@ { unimplemented!() }
#[verifier::external_body]
pub fn opt_str<'a>(s: &'a Option<String>) -> (r: Option<&'a str>) ensures r is Some == s is Some, r is Some ==> r->0@ == s->0@ { unimplemented!() }

/// name of an annotation in a query, with or without namespace
pub open spec fn named(ns: Option<Seq<char>>, name: Seq<char>, k: AnnoKey) -> bool { k.name@ == name && (ns matches Some(x) ==> k.ns@ == x) }
pub open spec fn view_opt(s: Option<&str>) -> Option<Seq<char>> { match s { Some(x) => Some(x@), None => None } }
impl NodeAnnos {
    /// value of an annotation (a number stands for each string)
    pub uninterp spec fn value(&self, n: NodeID, ns: Seq<char>, name: Seq<char>) -> Option<u64>;
    pub open spec fn val(&self, n: NodeID, k: AnnoKey) -> Option<u64> { self.value(n, k.ns@, k.name@) }
    #[verifier::external_body]
    pub fn get_value_for_item(&self, n: &NodeID, k: &Arc<AnnoKey>) -> (r: Result<Option<u64>>) ensures r matches Ok(v) ==> v == self.val(*n, **k) { unimplemented!() }
    /// P06, P07: all annotations with this name and value
    #[verifier::external_body]
    pub fn exact_anno_search(&self, ns: Option<&str>, name: &str, v: ValueSearch<&u64>) -> (r: It<Result<Match>>)
        ensures forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> (r@[i] matches Ok(m) ==> named(view_opt(ns), name@, *m.anno_key) && has_value(self.val(m.node, *m.anno_key), v)),
            (forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> r@[i] is Ok) ==> forall|n: NodeID, k: AnnoKey| #![trigger self.val(n, k)] named(view_opt(ns), name@, k) && has_value(self.val(n, k), v) ==> exists|i: int| #![trigger r@[i]] 0 <= i < r@.len() && r@[i] is Ok && r@[i]->Ok_0.node == n && r@[i]->Ok_0.anno_key.ns@ == k.ns@ && r@[i]->Ok_0.anno_key.name@ == k.name@,
    { unimplemented!() }
}
pub open spec fn has_value(v: Option<u64>, s: ValueSearch<&u64>) -> bool {
    v matches Some(x) && match s { ValueSearch::Any => true, ValueSearch::Some(y) => x == *y, ValueSearch::NotSome(y) => x != *y }
}
/// annotation a node search delivers, no one for "node"
pub open spec fn of_spec(s: NodeSearchSpec) -> Option<(Option<Seq<char>>, Seq<char>)> {
    match s {
        NodeSearchSpec::ExactValue { ns, name, .. } | NodeSearchSpec::NotExactValue { ns, name, .. } | NodeSearchSpec::RegexValue { ns, name, .. } | NodeSearchSpec::NotRegexValue { ns, name, .. } =>
            Some((match ns { Some(x) => Some(x@), None => None }, name@)),
        NodeSearchSpec::AnyNode => None,
        _ => Some((Some(ANNIS_NS@), TOK@)),
    }
}
pub open spec fn is_value_spec(s: NodeSearchSpec) -> bool { s is ExactValue || s is NotExactValue || s is RegexValue || s is NotRegexValue }
/// the value which is compared
pub open spec fn operand(a: NodeAnnos, n: NodeID, k: AnnoKey, s: NodeSearchSpec) -> Option<u64> {
    if is_value_spec(s) { a.val(n, k) } else if s is AnyNode { None } else { a.value(n, ANNIS_NS@, TOK@) }
}
#[verifier::external_body]
pub struct AnnotationGraph { x: u8 }
impl AnnotationGraph {
    pub uninterp spec fn annos(&self) -> NodeAnnos;
    #[verifier::external_body]
    pub fn get_node_annos(&self) -> (r: &NodeAnnos) ensures *r == self.annos() { unimplemented!() }
}
//@item src=graphannis/src/annis/db/aql/operators/equal_value.rs item="struct EqualValue"
//@rewrite &'a dyn NodeAnnotationStorage => &'a NodeAnnos
//@rewrite (?m)^    (\w+): => pub $1:
impl<'a> EqualValue<'a> {
    pub open spec fn accepts(&self, a: NodeID, ka: AnnoKey, b: NodeID, kb: AnnoKey) -> bool {
        let (x, y) = (operand(*self.node_annos, a, ka, self.spec_left), operand(*self.node_annos, b, kb, self.spec_right));
        x is Some && y is Some && (self.negated <==> x != y)
    }
//@fn src=graphannis/src/annis/db/aql/operators/equal_value.rs item=EqualValue::value_for_match
//@rewrite Cow<'_, str> => u64
//@rewrite &TOKEN_KEY => &tok_key()
//@spec
    ensures ret matches Ok(v) ==> v == operand(*self.node_annos, m.node, *m.anno_key, *spec),
//@end
//@fn src=graphannis/src/annis/db/aql/operators/equal_value.rs item=EqualValue::anno_def_for_spec
//@rewrite ns\.as_ref\(\)\.map\(String::as_str\), name => opt_str(ns), name.as_str()
//@spec
    ensures match ret { Some(r) => of_spec(*spec) matches Some(x) && x.0 == view_opt(r.0) && x.1 == r.1@, None => of_spec(*spec) is None },
//@end
//@fn src=graphannis/src/annis/db/aql/operators/equal_value.rs item="BinaryOperatorBase for EqualValue::filter_match"
//@spec
    ensures ret matches Ok(b) ==> b == self.accepts(lhs.node, *lhs.anno_key, rhs.node, *rhs.anno_key),
//@end
//@fn src=graphannis/src/annis/db/aql/operators/equal_value.rs item="BinaryOperatorBase for EqualValue::get_inverse_operator"
//@rewrite Result<Option<BinaryOperator<'b>>> => Result<Option<EqualValue<'b>>>
//@rewrite (?s)BinaryOperator::Index\(Box::from\((.*)\)\); => $1;
//@spec
    requires *self.node_annos == graph.annos(),
    ensures ret matches Ok(Some(i)) ==> forall|a: NodeID, ka: AnnoKey, b: NodeID, kb: AnnoKey| #![trigger i.accepts(a, ka, b, kb)] i.accepts(a, ka, b, kb) == self.accepts(b, kb, a, ka),
//@end
//@fn src=graphannis/src/annis/db/aql/operators/equal_value.rs item="BinaryOperatorIndex for EqualValue::retrieve_matches"
//@rewrite Box<dyn Iterator<Item\s=\sResult<Match>> \+ 'b> => It<Result<Match>>
//@rewrite try_as_boxed_iter!\((.*)\)(;?\n) => match $1 { Ok(v) => v, Err(e) => return it_err(e) }$2
//@rewrite ValueSearch<&str> => ValueSearch<&u64>
//@rewrite (?s)\s*\.map\(\|m\| m\.map_err\(\|e\| e\.into\(\)\)\) =>
//@rewrite Box::new\(rhs_candidates\) => rhs_candidates
//@rewrite Box::new\(std::iter::empty\(\)\) => it_empty()
//@spec
    ensures // every listed annotation is accepted, and all annotations of the right-hand description that are accepted are listed
        forall|i: int| #![trigger ret@[i]] 0 <= i < ret@.len() ==> (ret@[i] matches Ok(m) ==> self.accepts(lhs.node, *lhs.anno_key, m.node, *m.anno_key)),
        (forall|i: int| #![trigger ret@[i]] 0 <= i < ret@.len() ==> ret@[i] is Ok) ==> forall|n: NodeID, k: AnnoKey| #![trigger self.accepts(lhs.node, *lhs.anno_key, n, k)]
            (of_spec(self.spec_right) matches Some(x) && named(x.0, x.1, k)) && self.accepts(lhs.node, *lhs.anno_key, n, k) ==> exists|i: int| #![trigger ret@[i]] 0 <= i < ret@.len() && ret@[i] is Ok && ret@[i]->Ok_0.node == n && ret@[i]->Ok_0.anno_key.ns@ == k.ns@ && ret@[i]->Ok_0.anno_key.name@ == k.name@,
//@end
}

// ---- negation ----------------------------------------------------------------------------------
#[verifier::external_body]
pub struct BinaryOperator { x: u8 }
impl BinaryOperator {
    pub uninterp spec fn accepts(&self, a: Match, b: Match) -> bool;
    pub uninterp spec fn reflexive(&self) -> bool;
    #[verifier::external_body]
    pub fn filter_match(&self, lhs: &Match, rhs: &Match) -> (r: Result<bool>) ensures r matches Ok(b) ==> b == self.accepts(*lhs, *rhs) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_reflexive(&self) -> (r: bool) ensures r == self.reflexive() { unimplemented!() }
}
//@item src=graphannis/src/annis/db/aql/operators/negated_op.rs item="struct NegatedOp"
//@rewrite NegatedOp<'a> => NegatedOp
//@rewrite BinaryOperator<'a> => BinaryOperator
//@rewrite (?m)^    ([a-z]\w*): => pub $1:
/// an operator without any component holds for no pair of nodes
pub open spec fn holds(op: Option<BinaryOperator>, a: Match, b: Match) -> bool { op matches Some(o) && o.accepts(a, b) }
impl NegatedOp {
//@fn src=graphannis/src/annis/db/aql/operators/negated_op.rs item="BinaryOperatorBase for NegatedOp::filter_match"
//@spec
    ensures ret matches Ok(b) ==> b == !holds(self.negated_op, *lhs, *rhs),
//@end
//@fn src=graphannis/src/annis/db/aql/operators/negated_op.rs item="BinaryOperatorBase for NegatedOp::is_reflexive"
//@spec
    ensures ret == (self.negated_op matches Some(o) ==> o.reflexive()),
//@end
}

// ---- no partner exists -------------------------------------------------------------------------
/// matches of a node search (a search without annotation matches by the node type)
impl NodeSearchSpec {
    pub uninterp spec fn qname(&self) -> (Option<Seq<char>>, Option<Seq<char>>);
    pub uninterp spec fn cond(&self, g: AnnotationGraph, m: Match) -> bool;
    /// the node has the annotation and fulfills the conditions
    pub open spec fn matches(&self, g: AnnotationGraph, m: Match) -> bool { g.keys(self.qname(), m) && self.cond(g, m) }
    #[verifier::external_body]
    pub fn get_anno_qname(&self) -> (r: (Option<String>, Option<String>)) ensures qview(r) == self.qname() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_value_filter(&self, g: &AnnotationGraph, loc: Option<u64>) -> (r: Result<Vec<ValueFilter>>)
        ensures r matches Ok(v) ==> forall|m: Match| #![trigger self.cond(*g, m)] self.cond(*g, m) <==> forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() ==> v@[i].accepts(m)
    { unimplemented!() }
}
pub open spec fn qview(r: (Option<String>, Option<String>)) -> (Option<Seq<char>>, Option<Seq<char>>) {
    (match r.0 { Some(x) => Some(x@), None => None }, match r.1 { Some(x) => Some(x@), None => None })
}
#[verifier::external_body]
pub struct ValueFilter { x: u8 }
impl ValueFilter {
    pub uninterp spec fn accepts(&self, m: Match) -> bool;
    #[verifier::external_body]
    pub fn check(&self, m: &Match, a: &NodeAnnos) -> (r: Result<bool>) ensures r matches Ok(b) ==> b == self.accepts(*m) { unimplemented!() }
}
impl AnnotationGraph {
    /// the node has an annotation with this name
    pub uninterp spec fn keys(&self, q: (Option<Seq<char>>, Option<Seq<char>>), m: Match) -> bool;
}
/// P06, P07: the annotations with this name of the given nodes, or the first error
#[verifier::external_body]
pub fn keys_for(g: &AnnotationGraph, q: &(Option<String>, Option<String>), it: It<Result<Match>>) -> (r: Result<Vec<Match>>)
    ensures r matches Ok(v) ==> (forall|i: int| #![trigger it@[i]] 0 <= i < it@.len() ==> it@[i] is Ok)
        && (forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() ==> g.keys(qview(*q), v@[i]) && exists|j: int| #![trigger it@[j]] 0 <= j < it@.len() && it@[j] is Ok && it@[j]->Ok_0.node == v@[i].node)
        && (forall|m: Match| #![trigger g.keys(qview(*q), m)] g.keys(qview(*q), m) && (exists|j: int| #![trigger it@[j]] 0 <= j < it@.len() && it@[j] is Ok && it@[j]->Ok_0.node == m.node) ==> exists|i: int| #![trigger v@[i]] 0 <= i < v@.len() && v@[i] == m),
{ unimplemented!() }
/// an index operator which depends on the matched nodes only (P12)
#[verifier::external_body]
pub struct IndexOp { x: u8 }
impl IndexOp {
    pub uninterp spec fn pairs(&self, a: NodeID, b: NodeID) -> bool;
    pub open spec fn partner(&self, m: Match) -> spec_fn(NodeID) -> bool { |n: NodeID| self.pairs(m.node, n) }
    #[verifier::external_body]
    pub fn retrieve_matches(&self, m: &Match) -> (r: It<Result<Match>>) ensures partners(r@, self.partner(*m)) { unimplemented!() }
}
/// every delivered group is one match of the search, and without errors all of them are delivered
pub open spec fn search_ok(r: Seq<Result<Vec<Match>>>, spec: NodeSearchSpec, g: AnnotationGraph) -> bool {
    &&& forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> (r[i] matches Ok(v) ==> v@.len() == 1 && spec.matches(g, v@[0]))
    &&& (forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> r[i] is Ok) ==> forall|m: Match| #![trigger spec.matches(g, m)] spec.matches(g, m) ==> exists|i: int| #![trigger r[i]] 0 <= i < r.len() && r[i] is Ok && r[i]->Ok_0@[0] == m
}
#[verifier::external_body]
pub fn node_search(spec: NodeSearchSpec, g: &AnnotationGraph) -> (r: Result<Vec<Result<Vec<Match>>>>) ensures r matches Ok(v) ==> search_ok(v@, spec, *g) { unimplemented!() }
pub struct EstimationType { pub x: u8 }
pub proof fn lemma_listed(r: Seq<Result<Match>>, p: spec_fn(NodeID) -> bool, n: NodeID)
    requires partners(r, p), exists|j: int| #![trigger r[j]] 0 <= j < r.len() && r[j] is Ok && r[j]->Ok_0.node == n,
    ensures p(n),
{}
//@item src=graphannis/src/annis/db/aql/operators/non_existing.rs item="struct NonExistingUnaryOperatorIndex"
//@rewrite Box<dyn BinaryOperatorIndex \+ 'a> => IndexOp
//@rewrite (?m)^    ([a-z]\w*): => pub $1:
//@item src=graphannis/src/annis/db/aql/operators/non_existing.rs item="struct NonExistingUnaryOperatorFilter"
//@rewrite BinaryOperator<'a> => BinaryOperator
//@rewrite (?m)^    ([a-z]\w*): => pub $1:
impl<'a> NonExistingUnaryOperatorIndex<'a> {
#[verifier::loop_isolation(false)]
//@fn src=graphannis/src/annis/db/aql/operators/non_existing.rs item="UnaryOperator for NonExistingUnaryOperatorIndex::filter_match"
//@rewrite &graphannis_core::annostorage::Match => &Match
//@rewrite (?s)let it = (self\.negated_op\.retrieve_matches\(m\)\.fuse\(\))\.map\(\|m\| match m \{.*?\n        \}\); => let it = $1; let ghost g0 = it@;
//@rewrite (?s)let it: Box<\s*dyn .*?>,?\s*> = Box::from\(it\); =>
//@rewrite (?s)self\.graph\.get_node_annos\(\)\.get_keys_for_iterator\(\s*qname\.0\.as_deref\(\),\s*qname\.1\.as_deref\(\),\s*Box::new\(it\),\s*\) => keys_for(self.graph, &qname, it)
//@rewrite f\(&c, => f.check(&c,
//@rewrite value_filter\.iter\(\) => &value_filter
//@spec
    ensures ret matches Ok(b) ==> b == !exists|n: Match| #![trigger self.target.matches(*self.graph, n)] self.target.matches(*self.graph, n) && self.negated_op.pairs(m.node, n.node),
//@rewrite return Ok\(false\); => proof { assert(self.target.cond(*self.graph, c)); assert(c0[CIT.index()] == c); lemma_listed(g0, self.negated_op.partner(*m), c.node); assert(self.target.matches(*self.graph, c)); } return Ok(false);
//@at fn_end
    proof {
        assert forall|n: Match| #![trigger self.target.matches(*self.graph, n)] !(self.target.matches(*self.graph, n) && self.negated_op.pairs(m.node, n.node)) by {
            if self.target.matches(*self.graph, n) && self.negated_op.pairs(m.node, n.node) {
                assert((self.negated_op.partner(*m))(n.node));
                let j = choose|j: int| #![trigger g0[j]] 0 <= j < g0.len() && g0[j] is Ok && g0[j]->Ok_0.node == n.node;
                assert(g0[j] is Ok);
                assert(self.graph.keys(self.target.qname(), n));
                let i = choose|i: int| #![trigger c0[i]] 0 <= i < c0.len() && c0[i] == n;
                assert(self.target.cond(*self.graph, c0[i]));
            }
        }
    }
//@at before_loop 0
    let ghost c0 = candidates@;
//@forname 0 CIT
//@loop 0
    invariant forall|i: int| #![trigger CIT.seq()[i]] 0 <= i < CIT.index() ==> !self.target.cond(*self.graph, CIT.seq()[i]),
        CIT.seq() == c0,
        forall|m: Match| #![trigger self.target.cond(*self.graph, m)] self.target.cond(*self.graph, m) <==> forall|i: int| #![trigger value_filter@[i]] 0 <= i < value_filter@.len() ==> value_filter@[i].accepts(m),
//@forname 1 FIT
//@loop 1
    invariant candidate_is_match <==> forall|i: int| #![trigger value_filter@[i]] 0 <= i < FIT.index() ==> value_filter@[i].accepts(c),
//@end
}
impl<'a> NonExistingUnaryOperatorFilter<'a> {
//@fn src=graphannis/src/annis/db/aql/operators/non_existing.rs item="UnaryOperator for NonExistingUnaryOperatorFilter::filter_match"
//@rewrite &graphannis_core::annostorage::Match => &Match
//@rewrite (?s)NodeSearch::from_spec\(\s*(self\.target\.clone\(\)),\s*0,\s*self\.graph,.*?\n        \)\? => node_search($1, self.graph)?
//@spec
    ensures ret matches Ok(b) ==> b == !exists|n: Match| #![trigger self.target.matches(*self.graph, n)] self.target.matches(*self.graph, n) && if self.target_left { holds(self.negated_op, n, *m) } else { holds(self.negated_op, *m, n) },
//@forname 0 LIT
//@loop 0
    invariant LIT.seq() == g0, self.target_left,
        forall|i: int| #![trigger g0[i]] 0 <= i < LIT.index() ==> g0[i] is Ok && !negated_op.accepts(g0[i]->Ok_0@[0], *m),
        search_ok(g0, self.target, *self.graph), self.negated_op == Some(*negated_op),
//@forname 1 RIT
//@loop 1
    invariant RIT.seq() == g0, !self.target_left,
        forall|i: int| #![trigger g0[i]] 0 <= i < RIT.index() ==> g0[i] is Ok && !negated_op.accepts(*m, g0[i]->Ok_0@[0]),
        search_ok(g0, self.target, *self.graph), self.negated_op == Some(*negated_op),
//@at before_loop 0
    let ghost g0 = node_search@;
//@at before_loop 1
    let ghost g0 = node_search@;
//@end
}
} // verus!
