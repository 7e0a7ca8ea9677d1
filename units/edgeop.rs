// Verus unit: operators for edges (dominance, pointing relation, part-of): test of a pair, listing, inverse, edge annotations
#![allow(unused)]
use vstd::prelude::*;
use std::ops::Bound;
use std::sync::Arc;
verus! {
global size_of usize == 8;
//@include opslib.inc

//@item src=graphannis/src/annis/db/aql/operators/mod.rs item="enum RangeSpec"
impl RangeSpec {
    pub open spec fn lo(&self) -> usize { match self { RangeSpec::Bound { min_dist, .. } => *min_dist, RangeSpec::Unbound => 1 } }
    pub open spec fn hi(&self) -> Bound<usize> { match self { RangeSpec::Bound { max_dist, .. } => Bound::Included(*max_dist), RangeSpec::Unbound => Bound::Unbounded } }
    #[verifier::external_body]
    pub fn max_dist(&self) -> (ret: Bound<usize>) ensures ret == self.hi() { unimplemented!() }
    #[verifier::external_body]
    pub fn min_dist(&self) -> (ret: usize) ensures ret == self.lo() { unimplemented!() }
}
#[allow(inconsistent_fields)]
//@item src=graphannis/src/annis/operator.rs item="enum EdgeAnnoSearchSpec"
/// annotations of edges (P06, P07)
#[verifier::external_body]
pub struct EdgeAnnos { x: u8 }
impl EdgeAnnos {
    pub uninterp spec fn of(&self, e: Edge) -> Seq<Annotation>;
    #[verifier::external_body]
    pub fn get_annotations_for_item(&self, e: &Edge) -> (r: Result<Vec<Annotation>>) ensures r matches Ok(v) ==> v@ == self.of(*e) { unimplemented!() }
}
impl Gs {
    pub uninterp spec fn annos(&self) -> EdgeAnnos;
    #[verifier::external_body]
    pub fn get_anno_storage(&self) -> (r: &EdgeAnnos) ensures *r == self.annos() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_statistics(&self) -> (r: Option<&GraphStatistic>) { unimplemented!() }
}
pub struct GraphStatistic { pub inverse_fan_out_99_percentile: usize, pub fan_out_99_percentile: usize }
// regular expressions: a pattern has to match the whole value
pub uninterp spec fn re_valid(p: Seq<char>) -> bool;
pub uninterp spec fn re_full(p: Seq<char>) -> Seq<char>;
pub uninterp spec fn re_match(p: Seq<char>, v: Seq<char>) -> bool;
#[verifier::external_body]
pub fn regex_full_match(p: &String) -> (r: String) ensures r@ == re_full(p@) { unimplemented!() }
#[verifier::external_body]
pub struct Regex { x: u8 }
impl Regex {
    pub uninterp spec fn pat(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn new(p: &String) -> (r: std::result::Result<Regex, u8>) ensures r is Ok <==> re_valid(p@), r matches Ok(x) ==> x.pat() == p@ { unimplemented!() }
    #[verifier::external_body]
    pub fn is_match(&self, v: &String) -> (b: bool) ensures b == re_match(self.pat(), v@) { unimplemented!() }
}
impl EdgeAnnoSearchSpec {
    /// one annotation fulfils the description
    pub open spec fn ok(&self, a: Annotation) -> bool {
        match self {
            EdgeAnnoSearchSpec::ExactValue { ns, name, val } => name@ == a.key.name@ && (ns matches Some(x) ==> x@ == a.key.ns@) && (val matches Some(x) ==> x@ == a.val@),
            EdgeAnnoSearchSpec::NotExactValue { ns, name, val } => name@ == a.key.name@ && (ns matches Some(x) ==> x@ == a.key.ns@) && val@ != a.val@,
            EdgeAnnoSearchSpec::RegexValue { ns, name, val } => name@ == a.key.name@ && (ns matches Some(x) ==> x@ == a.key.ns@) && re_valid(re_full(val@)) && re_match(re_full(val@), a.val@),
            EdgeAnnoSearchSpec::NotRegexValue { ns, name, val } => name@ == a.key.name@ && (ns matches Some(x) ==> x@ == a.key.ns@) && re_valid(re_full(val@)) && !re_match(re_full(val@), a.val@),
        }
    }
}
pub open spec fn edge_ok(s: Option<EdgeAnnoSearchSpec>, g: Gs, a: NodeID, b: NodeID) -> bool {
    match s { None => true, Some(x) => exists|i: int| #![trigger g.annos().of(Edge { source: a, target: b })[i]] 0 <= i < g.annos().of(Edge { source: a, target: b }).len() && x.ok(g.annos().of(Edge { source: a, target: b })[i]) }
}
#[verifier::loop_isolation(false)]
//@fn src=graphannis/src/annis/db/aql/operators/edge_op.rs item=check_edge_annotation
//@rewrite &dyn GraphStorage => &Gs
//@rewrite graphannis_core::util::regex_full_match => regex_full_match
//@rewrite regex::Regex::new => Regex::new
//@rewrite name != &a\.key\.name => !(*name == a.key.name)
//@rewrite template_ns != &a\.key\.ns => !(*template_ns == a.key.ns)
//@rewrite template_val != &\*a\.val => !(*template_val == a.val)
//@rewrite (?s)for a in gs\s*\.get_anno_storage\(\)\s*\.get_annotations_for_item\(&Edge \{ source, target \}\)\?\s*\{ => let av = gs.get_anno_storage().get_annotations_for_item(&Edge { source, target })?; let mut ai: usize = 0; while ai < av.len() invariant 0 <= ai <= av@.len(), forall|i: int| #![trigger av@[i]] 0 <= i < ai ==> !edge_anno->0.ok(av@[i]), decreases av@.len() - ai { let a = &av[ai]; ai = ai + 1;
//@spec
    ensures ret matches Ok(b) ==> b == edge_ok(*edge_anno, *gs, source, target),
//@end

pub struct Comp { pub c: u64 }
//@item src=graphannis/src/annis/db/aql/operators/edge_op.rs item="struct BaseEdgeOpSpec"
//@rewrite Component<AnnotationComponentType> => Comp
//@rewrite struct => pub struct
impl Clone for BaseEdgeOpSpec {
    #[verifier::external_body]
    fn clone(&self) -> (r: BaseEdgeOpSpec) ensures r == *self { unimplemented!() }
}
//@item src=graphannis/src/annis/db/aql/operators/edge_op.rs item="struct BaseEdgeOp"
//@rewrite Arc<dyn GraphStorage> => Gs
//@rewrite (?m)^    (\w+): => pub $1:
//@rewrite struct => pub struct
#[verifier::external_body]
pub struct AnnotationGraph { x: u8 }
#[verifier::external_body]
pub fn calculate_max_node_estimate(db: &AnnotationGraph, spec: &BaseEdgeOpSpec, gs: &Vec<Gs>, inverse: bool) -> (r: Result<usize>) { unimplemented!() }
#[verifier::external_body]
pub fn clone_gs(v: &Vec<Gs>) -> (r: Vec<Gs>) ensures r@ == v@ { unimplemented!() }

// iterators
impl<T> It<Result<T>> {
    #[verifier::external_body]
    pub fn filter_map_ok<B, F: Fn(T) -> Option<B>>(self, f: F) -> (r: It<Result<B>>)
        requires forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() && self@[i] is Ok ==> call_requires(f, (self@[i]->Ok_0,)),
        ensures forall|k: int| #![trigger r@[k]] 0 <= k < r@.len() ==> (r@[k] matches Ok(y) ==> exists|i: int| #![trigger self@[i]] 0 <= i < self@.len() && self@[i] is Ok && call_ensures(f, (self@[i]->Ok_0,), Some(y))),
            forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() ==> match self@[i] {
                Ok(x) => call_ensures(f, (x,), None) || exists|k: int| #![trigger r@[k]] 0 <= k < r@.len() && r@[k] is Ok && call_ensures(f, (x,), Some(r@[k]->Ok_0)),
                Err(_) => exists|k: int| #![trigger r@[k]] 0 <= k < r@.len() && r@[k] is Err },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn try_collect(self) -> (r: Result<Vec<T>>)
        ensures r matches Ok(v) ==> v@.len() == self@.len() && forall|i: int| #![trigger self@[i]] #![trigger v@[i]] 0 <= i < v@.len() ==> self@[i] == Ok::<T, GraphAnnisError>(v@[i]),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn it_flat_map<F: Fn(&Gs) -> It<Result<Match>>>(gs: &Vec<Gs>, f: F) -> (r: It<Result<Match>>)
    requires forall|i: int| #![trigger gs@[i]] 0 <= i < gs@.len() ==> call_requires(f, (&gs@[i],)),
    ensures exists|parts: Seq<It<Result<Match>>>| #![trigger parts.len()] parts.len() == gs@.len() && (forall|i: int| #![trigger parts[i]] 0 <= i < parts.len() ==> call_ensures(f, (&gs@[i],), parts[i])) && concat(parts, r@),
{ unimplemented!() }
pub open spec fn union_of(gs: Seq<Gs>, d: spec_fn(Gs) -> spec_fn(NodeID) -> bool) -> spec_fn(NodeID) -> bool { |n: NodeID| exists|i: int| #![trigger gs[i]] 0 <= i < gs.len() && (d(gs[i]))(n) }
proof fn lemma_parts(gs: Seq<Gs>, d: spec_fn(Gs) -> spec_fn(NodeID) -> bool, parts: Seq<It<Result<Match>>>, s: Seq<Result<Match>>)
    requires parts.len() == gs.len(), concat(parts, s), forall|i: int| #![trigger parts[i]] 0 <= i < parts.len() ==> partners(parts[i]@, d(gs[i])),
    ensures partners(s, union_of(gs, d)),
{
        let p = union_of(gs, d);
        assert forall|k: int| #![trigger s[k]] 0 <= k < s.len() implies (s[k] matches Ok(x) ==> p(x.node)) by {
            let (i, j) = choose|i: int, j: int| #![trigger parts[i]@[j]] 0 <= i < parts.len() && 0 <= j < parts[i]@.len() && parts[i]@[j] == s[k];
            let _ = parts[i]; let _ = gs[i];
            if s[k] is Ok { assert((d(gs[i]))(s[k]->Ok_0.node)); }
        }
        if forall|k: int| #![trigger s[k]] 0 <= k < s.len() ==> s[k] is Ok {
            assert forall|n: NodeID| #![trigger p(n)] p(n) implies exists|k: int| #![trigger s[k]] 0 <= k < s.len() && s[k] is Ok && s[k]->Ok_0.node == n by {
                let i = choose|i: int| #![trigger gs[i]] 0 <= i < gs.len() && (d(gs[i]))(n);
                let q = d(gs[i]);
                let it = parts[i]@;
                assert(partners(it, q));
                assert(q(n));
                assert forall|j: int| #![trigger it[j]] 0 <= j < it.len() implies it[j] is Ok by { let _ = parts[i]@[j]; }
                let j = choose|j: int| #![trigger it[j]] 0 <= j < it.len() && it[j] is Ok && it[j]->Ok_0.node == n;
                let _ = parts[i]@[j];
            }
        }
}
/// the partners found in any of the components
pub fn it_flat_map_union<F: Fn(&Gs) -> It<Result<Match>>>(gs: &Vec<Gs>, Ghost(d): Ghost<spec_fn(Gs) -> spec_fn(NodeID) -> bool>, f: F) -> (r: It<Result<Match>>)
    requires forall|i: int| #![trigger gs@[i]] 0 <= i < gs@.len() ==> call_requires(f, (&gs@[i],)), forall|g: &Gs, o: It<Result<Match>>| #![trigger call_ensures(f, (g,), o)] call_ensures(f, (g,), o) ==> partners(o@, d(*g)),
    ensures partners(r@, union_of(gs@, d)),
{
    let r = it_flat_map(gs, f);
    proof {
        let s = r@;
        let parts = choose|parts: Seq<It<Result<Match>>>| #![trigger parts.len()] parts.len() == gs@.len() && (forall|i: int| #![trigger parts[i]] 0 <= i < parts.len() ==> call_ensures(f, (&gs@[i],), parts[i])) && concat(parts, s);
        assert forall|i: int| #![trigger parts[i]] 0 <= i < parts.len() implies partners(parts[i]@, d(gs@[i])) by { let _ = gs@[i]; let _ = parts[i]; }
        lemma_parts(gs@, d, parts, s);
    }
    r
}
proof fn lemma_same(a: Seq<Match>, b: Seq<Match>, p: spec_fn(NodeID) -> bool)
    requires found(a, p), forall|m: Match| #![trigger b.contains(m)] b.contains(m) <==> a.contains(m) ensures found(b, p)
{
    assert forall|i: int| #![trigger b[i]] 0 <= i < b.len() implies p(b[i].node) by { assert(b.contains(b[i])); let j = choose|j: int| #![trigger a[j]] 0 <= j < a.len() && a[j] == b[i]; }
    assert forall|n: NodeID| #![trigger p(n)] p(n) implies exists|i: int| #![trigger b[i]] 0 <= i < b.len() && b[i].node == n by {
        let j = choose|j: int| #![trigger a[j]] 0 <= j < a.len() && a[j].node == n; assert(a.contains(a[j])); assert(b.contains(a[j]));
        let i = choose|i: int| #![trigger b[i]] 0 <= i < b.len() && b[i] == a[j];
        assert(b[i].node == n);
    }
}
proof fn lemma_final(v: Seq<Match>, d: spec_fn(NodeID) -> bool, p: spec_fn(NodeID) -> bool)
    requires found(v, d), forall|n: NodeID| #![trigger p(n)] #![trigger d(n)] p(n) <==> d(n)
    ensures forall|r: Seq<Result<Match>>| #![trigger partners(r, p)] r.len() == v.len() && (forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> r[i] == Ok::<Match, GraphAnnisError>(v[i])) ==> partners(r, p)
{
    assert forall|r: Seq<Result<Match>>| #![trigger partners(r, p)] r.len() == v.len() && (forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> r[i] == Ok::<Match, GraphAnnisError>(v[i])) implies partners(r, p) by {
        assert forall|i: int| #![trigger r[i]] 0 <= i < r.len() implies (r[i] matches Ok(x) ==> p(x.node)) by { let _ = v[i]; assert(d(v[i].node)); }
        assert forall|n: NodeID| #![trigger p(n)] p(n) implies exists|i: int| #![trigger r[i]] 0 <= i < r.len() && r[i] is Ok && r[i]->Ok_0.node == n by { let j = choose|j: int| #![trigger v[j]] 0 <= j < v.len() && v[j].node == n; let _ = r[j]; }
    }
}
pub open spec fn concat(v: Seq<It<Result<Match>>>, r: Seq<Result<Match>>) -> bool {
    &&& forall|k: int| #![trigger r[k]] 0 <= k < r.len() ==> exists|i: int, j: int| #![trigger v[i]@[j]] 0 <= i < v.len() && 0 <= j < v[i]@.len() && v[i]@[j] == r[k]
    &&& forall|i: int, j: int| #![trigger v[i]@[j]] 0 <= i < v.len() && 0 <= j < v[i]@.len() ==> exists|k: int| #![trigger r[k]] 0 <= k < r.len() && r[k] == v[i]@[j]
}
#[verifier::external_body]
pub fn sort_unstable(v: &mut Vec<Match>) ensures final(v)@.to_multiset() == old(v)@.to_multiset(), forall|m: Match| #![trigger final(v)@.contains(m)] final(v)@.contains(m) <==> old(v)@.contains(m) { unimplemented!() }
#[verifier::external_body]
pub fn dedup(v: &mut Vec<Match>) ensures forall|m: Match| #![trigger final(v)@.contains(m)] final(v)@.contains(m) <==> old(v)@.contains(m) { unimplemented!() }
#[verifier::external_body]
pub fn it_ok(v: Vec<Match>) -> (r: It<Result<Match>>) ensures r@.len() == v@.len(), forall|i: int| #![trigger r@[i]] #![trigger v@[i]] 0 <= i < v@.len() ==> r@[i] == Ok::<Match, GraphAnnisError>(v@[i]) { unimplemented!() }
/// the nodes of the matches
pub open spec fn found(v: Seq<Match>, p: spec_fn(NodeID) -> bool) -> bool {
    &&& forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> p(v[i].node)
    &&& forall|n: NodeID| #![trigger p(n)] p(n) ==> exists|i: int| #![trigger v[i]] 0 <= i < v.len() && v[i].node == n
}
/// the connected nodes with their test result, without the rejected ones
pub proof fn lemma_checked(r0: Seq<Result<NodeID>>, r1: Seq<Result<(NodeID, bool)>>, r2: Seq<Result<Match>>, q: spec_fn(NodeID) -> bool, c: spec_fn(NodeID) -> bool, p: spec_fn(NodeID) -> bool)
    requires lists_all(r0, q), r1.len() == r0.len(), forall|n: NodeID| #![trigger p(n)] p(n) <==> q(n) && c(n),
        forall|i: int| #![trigger r1[i]] 0 <= i < r1.len() ==> match r0[i] { Ok(n) => r1[i] matches Ok(x) ==> x == (n, c(n)), Err(_) => r1[i] is Err },
        forall|k: int| #![trigger r2[k]] 0 <= k < r2.len() ==> (r2[k] matches Ok(y) ==> exists|i: int| #![trigger r1[i]] 0 <= i < r1.len() && r1[i] is Ok && r1[i]->Ok_0.1 && r1[i]->Ok_0.0 == y.node),
        forall|i: int| #![trigger r1[i]] 0 <= i < r1.len() ==> match r1[i] { Ok(x) => !x.1 || exists|k: int| #![trigger r2[k]] 0 <= k < r2.len() && r2[k] is Ok && r2[k]->Ok_0.node == x.0, Err(_) => exists|k: int| #![trigger r2[k]] 0 <= k < r2.len() && r2[k] is Err },
    ensures partners(r2, p),
{
    assert forall|k: int| #![trigger r2[k]] 0 <= k < r2.len() implies (r2[k] matches Ok(y) ==> p(y.node)) by {
        if r2[k] is Ok { let i = choose|i: int| #![trigger r1[i]] 0 <= i < r1.len() && r1[i] is Ok && r1[i]->Ok_0.1 && r1[i]->Ok_0.0 == r2[k]->Ok_0.node; let _ = r0[i]; assert(q(r0[i]->Ok_0)); }
    }
    if forall|k: int| #![trigger r2[k]] 0 <= k < r2.len() ==> r2[k] is Ok {
        assert forall|i: int| #![trigger r1[i]] 0 <= i < r1.len() implies r1[i] is Ok by {}
        assert forall|i: int| #![trigger r0[i]] 0 <= i < r0.len() implies r0[i] is Ok by { let _ = r1[i]; }
        assert forall|n: NodeID| #![trigger p(n)] p(n) implies exists|k: int| #![trigger r2[k]] 0 <= k < r2.len() && r2[k] is Ok && r2[k]->Ok_0.node == n by {
            assert(q(n));
            let i = choose|i: int| #![trigger r0[i]] 0 <= i < r0.len() && r0[i] == Ok::<NodeID, GraphAnnisError>(n);
            let _ = r1[i];
        }
    }
}
pub open spec fn edge_ok_ref(s: Option<EdgeAnnoSearchSpec>, g: &Gs, a: NodeID, b: NodeID) -> bool { edge_ok(s, *g, a, b) }
impl It<Result<Match>> {
    pub fn collect_matches(self) -> (r: Result<Vec<Match>>)
        ensures r matches Ok(v) ==> forall|p: spec_fn(NodeID) -> bool| #![trigger partners(self@, p)] partners(self@, p) ==> found(v@, p),
    {
        let ghost s = self@;
        let r = self.try_collect();
        proof {
            if r is Ok {
                let v = r->Ok_0;
                assert forall|p: spec_fn(NodeID) -> bool| #![trigger partners(s, p)] partners(s, p) implies found(v@, p) by {
                    assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies s[i] is Ok by { let _ = v@[i]; }
                    assert forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() implies p(v@[i].node) by { let _ = s[i]; }
                    assert forall|n: NodeID| #![trigger p(n)] p(n) implies exists|i: int| #![trigger v@[i]] 0 <= i < v@.len() && v@[i].node == n by {
                        let i = choose|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i] is Ok && s[i]->Ok_0.node == n; let _ = v@[i];
                    }
                }
            }
        }
        r
    }
}
impl BaseEdgeOp {
    pub open spec fn dir_of(&self, g: Gs, a: NodeID) -> spec_fn(NodeID) -> bool { |n: NodeID| self.dir(g, a, n) }
    pub open spec fn dirs(&self, a: NodeID) -> spec_fn(Gs) -> spec_fn(NodeID) -> bool { |g: Gs| self.dir_of(g, a) }
    proof fn lemma_union_accepts(&self, a: NodeID, n: NodeID) ensures (union_of(self.gs@, self.dirs(a)))(n) == self.accepts(a, n) {
        if self.accepts(a, n) { let i = choose|i: int| #![trigger self.gs@[i]] 0 <= i < self.gs@.len() && self.dir(self.gs@[i], a, n); let _ = self.gs@[i]; }
    }
    pub open spec fn q_of(&self, g: Gs, a: NodeID) -> spec_fn(NodeID) -> bool { if self.inverse { |t: NodeID| g.conn(t, a, self.spec.dist.lo(), self.spec.dist.hi()) } else { |t: NodeID| g.conn(a, t, self.spec.dist.lo(), self.spec.dist.hi()) } }
    pub open spec fn c_of(&self, g: Gs, a: NodeID) -> spec_fn(NodeID) -> bool { |n: NodeID| if self.inverse { edge_ok(self.spec.edge_anno, g, n, a) } else { edge_ok(self.spec.edge_anno, g, a, n) } }
    /// connected in one component, in this direction
    pub open spec fn via(&self, g: Gs, a: NodeID, b: NodeID) -> bool { g.conn(a, b, self.spec.dist.lo(), self.spec.dist.hi()) && edge_ok(self.spec.edge_anno, g, a, b) }
    pub open spec fn dir(&self, g: Gs, a: NodeID, b: NodeID) -> bool { if self.inverse { self.via(g, b, a) } else { self.via(g, a, b) } }
    pub open spec fn accepts(&self, a: NodeID, b: NodeID) -> bool { exists|i: int| #![trigger self.gs@[i]] 0 <= i < self.gs@.len() && self.dir(self.gs@[i], a, b) }
//@fn src=graphannis/src/annis/db/aql/operators/edge_op.rs item="BinaryOperatorBase for BaseEdgeOp::filter_match"
//@forname 0 it
//@spec
    ensures ret matches Ok(b) ==> b == self.accepts(lhs.node, rhs.node),
//@loop 0
    invariant it.seq().len() == self.gs@.len(), forall|i: int| #![trigger it.seq()[i]] 0 <= i < it.seq().len() ==> *it.seq()[i] == self.gs@[i],
        forall|i: int| #![trigger self.gs@[i]] 0 <= i < it.index() ==> !self.dir(self.gs@[i], lhs.node, rhs.node),
//@at loop_start 0
            proof { let _ = it.seq()[it.index()]; let _ = self.gs@[it.index()]; }
//@end
//@fn src=graphannis/src/annis/db/aql/operators/edge_op.rs item="BinaryOperatorBase for BaseEdgeOp::get_inverse_operator"
//@rewrite Result<Option<BinaryOperator<'a>>> => Result<Option<BaseEdgeOp>>
//@rewrite BinaryOperator::Index\(Box::new\((\w+)\)\) => $1
//@rewrite self\.gs\.clone\(\) => clone_gs(&self.gs)
//@spec
    ensures ret matches Ok(Some(i)) ==> forall|a: NodeID, b: NodeID| #![trigger i.accepts(a, b)] i.accepts(a, b) == self.accepts(b, a),
//@loop 0
    invariant true,
//@at fn_end
        proof {
            assert forall|a: NodeID, b: NodeID| #![trigger edge_op.accepts(a, b)] edge_op.accepts(a, b) == self.accepts(b, a) by {
                assert forall|i: int| #![trigger self.gs@[i]] 0 <= i < self.gs@.len() implies edge_op.dir(edge_op.gs@[i], a, b) == self.dir(self.gs@[i], b, a) by {}
            }
        }
//@end
//@fn src=graphannis/src/annis/db/aql/operators/edge_op.rs item="BinaryOperatorIndex for BaseEdgeOp::retrieve_matches"
//@rewrite Box<dyn Iterator<Item\s=\sResult<Match>>> => It<Result<Match>>
//@rewrite Result<VecDeque<_>> => Result<Vec<Match>>
//@rewrite Result<Vec<_>> => Result<Vec<Match>>
//@rewrite try_as_boxed_iter!\((.*)\)(;?\n) => match $1 { Ok(v) => v, Err(e) => return it_err(e) }$2
//@rewrite DEFAULT_ANNO_KEY.clone\(\) => default_anno_key()
//@rewrite Box::new\(result\.into_iter\(\)\.map\(Ok\)\) => proof { let d = self.dir_of(self.gs[0], lhs.node); let p = |n: NodeID| self.accepts(lhs.node, n); assert(found(result@, d)); assert forall|n: NodeID| #![trigger p(n)] #![trigger d(n)] p(n) <==> d(n) by { assert(self.gs@.len() == 1); } lemma_final(result@, d, p); } it_ok(result)
//@rewrite all\.sort_unstable\(\) => let ghost all0 = all@; sort_unstable(&mut all)
//@rewrite all\.dedup\(\) => dedup(&mut all)
//@rewrite Box::new\(all\.into_iter\(\)\.map\(Ok\)\) => proof { let d = union_of(self.gs@, self.dirs(lhs.node)); let p = |n: NodeID| self.accepts(lhs.node, n); assert(found(all0, d)); lemma_same(all0, all@, d); assert forall|n: NodeID| #![trigger p(n)] #![trigger d(n)] p(n) <==> d(n) by { self.lemma_union_accepts(lhs.node, n); } lemma_final(all@, d, p); } it_ok(all)
//@rewrite (?s)\.filter_map_ok\(move \|\(n, has_annotation\)\| \{ => .filter_map_ok(move |m: (NodeID, bool)| -> (o: Option<Match>) ensures m.1 <==> o is Some, o matches Some(x) ==> x.node == m.0 { let (n, has_annotation) = m;
//@rewrite (?s)\.map\(move \|candidate\| \{\s*let candidate = candidate\?;\s*let has_annotation = check_edge_annotation\(([^,;]*),\s*self\.gs\[0\]\.as_ref\(\),\s*candidate,\s*lhs\.node, => .map(move |candidate: Result<NodeID>| -> (o: Result<(NodeID, bool)>) ensures match candidate { Ok(n) => o matches Ok(x) ==> x == (n, edge_ok_ref(self.spec.edge_anno, &self.gs[0], n, lhs.node)), Err(_) => o is Err } { let candidate = candidate?; let has_annotation = check_edge_annotation(${1}, (&self.gs[0]).as_ref(), candidate, lhs.node,
//@rewrite (?s)\.map\(move \|candidate\| \{\s*let candidate = candidate\?;\s*let has_annotation = check_edge_annotation\(([^,;]*),\s*self\.gs\[0\]\.as_ref\(\),\s*lhs\.node,\s*candidate, => .map(move |candidate: Result<NodeID>| -> (o: Result<(NodeID, bool)>) ensures match candidate { Ok(n) => o matches Ok(x) ==> x == (n, edge_ok_ref(self.spec.edge_anno, &self.gs[0], lhs.node, n)), Err(_) => o is Err } { let candidate = candidate?; let has_annotation = check_edge_annotation(${1}, (&self.gs[0]).as_ref(), lhs.node, candidate,
//@rewrite (?s)\.map\(move \|candidate\| \{\s*let candidate = candidate\?;\s*let has_annotation = check_edge_annotation\(([^,;]*),\s*e\.as_ref\(\),\s*candidate,\s*lhs\.node, => .map(move |candidate: Result<NodeID>| -> (o: Result<(NodeID, bool)>) ensures match candidate { Ok(n) => o matches Ok(x) ==> x == (n, edge_ok_ref(self.spec.edge_anno, e, n, lhs.node)), Err(_) => o is Err } { let candidate = candidate?; let has_annotation = check_edge_annotation(${1}, (e).as_ref(), candidate, lhs.node,
//@rewrite (?s)\.map\(move \|candidate\| \{\s*let candidate = candidate\?;\s*let has_annotation = check_edge_annotation\(([^,;]*),\s*e\.as_ref\(\),\s*lhs\.node,\s*candidate, => .map(move |candidate: Result<NodeID>| -> (o: Result<(NodeID, bool)>) ensures match candidate { Ok(n) => o matches Ok(x) ==> x == (n, edge_ok_ref(self.spec.edge_anno, e, lhs.node, n)), Err(_) => o is Err } { let candidate = candidate?; let has_annotation = check_edge_annotation(${1}, (e).as_ref(), lhs.node, candidate,
//@rewrite (?s)(self\.gs\[0\]|e\.as_ref\(\))\s*(\.find_connected(?:_inverse)?\([^;]*?\))\s*\.fuse\(\)\s*\.map\( => let r0 = ${1}${2}; let ghost g0 = r0@; let r1 = r0.map(
//@rewrite (?s)\}\)\s*\.filter_map_ok\( => }); let ghost g1 = r1@; let r2 = r1.filter_map_ok(
//@rewrite (?s)self\.gs\s*\.iter\(\)\s*\.flat_map\(move \|e\| \{ => it_flat_map_union(&self.gs, Ghost(self.dirs(lhs.node)), |e: &Gs| -> (o: It<Result<Match>>) ensures partners(o@, self.dir_of(*e, lhs.node)) {
//@rewrite (?s)\}\)\s*\}\)\s*\.collect\(\) => }); proof { lemma_checked(g0, g1, r2@, self.q_of(*e, lhs.node), self.c_of(*e, lhs.node), self.dir_of(*e, lhs.node)); } r2 }).collect_matches()
//@rewrite (?s)\}\)\s*\.collect\(\) => }); proof { lemma_checked(g0, g1, r2@, self.q_of(self.gs[0], lhs.node), self.c_of(self.gs[0], lhs.node), self.dir_of(self.gs[0], lhs.node)); } r2.collect_matches()
//@spec
    ensures partners(ret@, |n: NodeID| self.accepts(lhs.node, n)),
//@end
}
} // verus!
