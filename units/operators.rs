// Verus unit: the query operators: test of a pair, listing of the partners, inverse
#![allow(unused)]
use vstd::prelude::*;
use std::ops::Bound;
use std::sync::Arc;
verus! {
global size_of usize == 8;
//@include opslib.inc

//@item src=graphannis/src/annis/db/aql/operators/mod.rs item="enum RangeSpec"
impl RangeSpec {
    pub open spec fn lo(&self) -> usize { match self { RangeSpec::Bound { min_dist, .. } => *min_dist, RangeSpec::Unbound => 1 } }
    pub open spec fn hi(&self) -> Bound<usize> { match self { RangeSpec::Bound { max_dist, .. } => Bound::Included(*max_dist), RangeSpec::Unbound => Bound::Unbounded } }
//@fn src=graphannis/src/annis/db/aql/operators/mod.rs item=RangeSpec::max_dist
//@rewrite? std::ops::Bound => Bound
//@spec
    ensures ret == self.hi(),
//@end
//@fn src=graphannis/src/annis/db/aql/operators/mod.rs item=RangeSpec::min_dist
//@spec
    ensures ret == self.lo(),
//@end
}

// ---- tokens ------------------------------------------------------------------------------------
//@item src=graphannis/src/annis/db/token_helper.rs item="struct TokenHelper"
//@rewrite Arc<dyn GraphStorage> => Gs
//@rewrite &'a dyn NodeAnnotationStorage => &'a NodeAnnos
//@rewrite (?m)^    (\w+): => pub $1:
impl<'a> TokenHelper<'a> {
    pub open spec fn covers_any(&self, n: NodeID) -> bool { exists|i: int| #![trigger self.cov_edges@[i]] 0 <= i < self.cov_edges@.len() && self.cov_edges@[i].out_seq(n).len() > 0 }
    pub open spec fn tok(&self, n: NodeID) -> bool { self.node_annos.is_labelled(n) && !self.covers_any(n) }
    pub open spec fn left(&self, n: NodeID) -> Option<NodeID> { if self.tok(n) { Some(n) } else { first(self.left_edges.out_seq(n)) } }
    pub open spec fn right(&self, n: NodeID) -> Option<NodeID> { if self.tok(n) { Some(n) } else { first(self.right_edges.out_seq(n)) } }
    /// one of the coverage components has an edge
    pub open spec fn cov_edge(&self, n: NodeID, t: NodeID) -> bool { exists|i: int| #![trigger self.cov_edges@[i]] 0 <= i < self.cov_edges@.len() && self.cov_edges@[i].out_seq(n).contains(t) }
    /// the node is the token or covers it
    pub open spec fn covers(&self, n: NodeID, t: NodeID) -> bool { n == t || self.cov_edge(n, t) }
    /// what P10 guarantees for the derived components: at most one left and right token, none for tokens
    pub open spec fn aligned_wf(&self) -> bool {
        &&& forall|n: NodeID| #![trigger self.left_edges.out_seq(n)] self.left_edges.out_seq(n).len() <= (if self.tok(n) { 0int } else { 1 })
        &&& forall|n: NodeID| #![trigger self.right_edges.out_seq(n)] self.right_edges.out_seq(n).len() <= (if self.tok(n) { 0int } else { 1 })
        &&& forall|n: NodeID| #![trigger self.left_edges.out_seq(n)] #![trigger self.right_edges.out_seq(n)] self.left_edges.out_seq(n).len() > 0 <==> self.right_edges.out_seq(n).len() > 0
        &&& forall|n: NodeID| #![trigger self.left_edges.out_seq(n)] self.left_edges.out_seq(n).len() > 0 ==> self.tok(self.left_edges.out_seq(n)[0])
        &&& forall|n: NodeID| #![trigger self.right_edges.out_seq(n)] self.right_edges.out_seq(n).len() > 0 ==> self.tok(self.right_edges.out_seq(n)[0])
    }
//@fn src=graphannis/src/annis/db/token_helper.rs item=TokenHelper::get_gs_coverage
//@rewrite Vec<Arc<dyn GraphStorage>> => Vec<Gs>
//@spec
    ensures ret@ == self.cov_edges@,
//@end
//@fn src=graphannis/src/annis/db/token_helper.rs item=TokenHelper::get_gs_left_token
//@rewrite &dyn GraphStorage => &Gs
//@spec
    ensures *ret == self.left_edges,
//@end
//@fn src=graphannis/src/annis/db/token_helper.rs item=TokenHelper::get_gs_right_token
//@rewrite &dyn GraphStorage => &Gs
//@spec
    ensures *ret == self.right_edges,
//@end
//@fn src=graphannis/src/annis/db/token_helper.rs item=TokenHelper::is_token
//@rewrite &TOKEN_KEY => &token_key()
//@spec
    ensures ret matches Ok(b) ==> b == self.tok(id),
//@end
//@fn src=graphannis/src/annis/db/token_helper.rs item=TokenHelper::has_outgoing_coverage_edges
//@forname 0 it
//@spec
    ensures ret matches Ok(b) ==> b == self.covers_any(id),
//@loop 0
    invariant forall|i: int| #![trigger self.cov_edges@[i]] 0 <= i < it.index() ==> self.cov_edges@[i].out_seq(id).len() == 0, it.seq().len() == self.cov_edges@.len(),
        forall|i: int| #![trigger it.seq()[i]] 0 <= i < it.seq().len() ==> *it.seq()[i] == self.cov_edges@[i],
//@end
//@fn src=graphannis/src/annis/db/token_helper.rs item=TokenHelper::right_token_for
//@spec
    ensures ret matches Ok(t) ==> t == self.right(n),
//@end
//@fn src=graphannis/src/annis/db/token_helper.rs item=TokenHelper::left_token_for
//@spec
    ensures ret matches Ok(t) ==> t == self.left(n),
//@end
//@fn src=graphannis/src/annis/db/token_helper.rs item=TokenHelper::left_right_token_for
//@spec
    ensures ret matches Ok(t) ==> t.0 == self.left(n) && t.1 == self.right(n),
//@end
}

/// the graph an operator is created for
#[verifier::external_body]
pub struct AnnotationGraph { x: u8 }
impl<'a> TokenHelper<'a> {
    #[verifier::external_body]
    pub fn new(graph: &'a AnnotationGraph) -> (ret: Result<TokenHelper<'a>>) ensures ret matches Ok(h) ==> h.of(*graph) { unimplemented!() }
    /// the helper of this graph
    pub uninterp spec fn of(&self, g: AnnotationGraph) -> bool;
}
/// two helpers of the same graph see the same tokens
#[verifier::external_body]
pub broadcast proof fn axiom_helper(a: TokenHelper, b: TokenHelper, g: AnnotationGraph)
    requires #[trigger] a.of(g), #[trigger] b.of(g)
    ensures a.left_edges == b.left_edges, a.right_edges == b.right_edges, a.cov_edges@ == b.cov_edges@, forall|n: NodeID| #![auto] a.node_annos.is_labelled(n) == b.node_annos.is_labelled(n)
{}

// ---- precedence --------------------------------------------------------------------------------
//@item src=graphannis/src/annis/db/aql/operators/precedence.rs item="struct PrecedenceSpec"
//@item src=graphannis/src/annis/db/aql/operators/precedence.rs item="struct Precedence"
//@rewrite Arc<dyn GraphStorage> => Gs
//@rewrite (?m)^    (\w+): => pub $1:
//@item src=graphannis/src/annis/db/aql/operators/precedence.rs item="struct InversePrecedence"
//@rewrite Arc<dyn GraphStorage> => Gs
//@rewrite (?m)^    (\w+): => pub $1:

impl Clone for PrecedenceSpec {
    #[verifier::external_body]
    fn clone(&self) -> (r: PrecedenceSpec) ensures r == *self { unimplemented!() }
}
/// the order of a text is defined between tokens
pub open spec fn order_wf(o: Gs, h: TokenHelper) -> bool {
    forall|a: NodeID, b: NodeID, lo: usize, hi: Bound<usize>| #![trigger o.conn(a, b, lo, hi)] h.tok(a) && o.conn(a, b, lo, hi) || h.tok(b) && o.conn(a, b, lo, hi) ==> h.tok(a) && h.tok(b)
}
pub open spec fn precedes(o: Gs, h: TokenHelper, seg: bool, d: RangeSpec, a: NodeID, b: NodeID) -> bool {
    if seg { o.conn(a, b, d.lo(), d.hi()) }
    else { h.right(a) matches Some(s) && h.left(b) matches Some(e) && o.conn(s, e, d.lo(), d.hi()) }
}
impl<'a> Precedence<'a> {
    pub open spec fn wf(&self) -> bool {
        self.tok_helper.aligned_wf() && self.gs_left.dual() && self.gs_right.dual() && self.gs_left == self.tok_helper.left_edges && self.gs_right == self.tok_helper.right_edges
            && order_wf(self.gs_order, self.tok_helper)
    }
    pub open spec fn accepts(&self, a: NodeID, b: NodeID) -> bool { precedes(self.gs_order, self.tok_helper, self.spec.segmentation is Some, self.spec.dist, a, b) }
//@fn src=graphannis/src/annis/db/aql/operators/precedence.rs item="BinaryOperatorBase for Precedence::filter_match"
//@spec
    ensures ret matches Ok(b) ==> b == self.accepts(lhs.node, rhs.node),
//@end
//@fn src=graphannis/src/annis/db/aql/operators/precedence.rs item="BinaryOperatorBase for Precedence::get_inverse_operator"
//@rewrite Result<Option<BinaryOperator<'b>>> => Result<Option<InversePrecedence<'b>>>
//@rewrite BinaryOperator::Index\(Box::new\((\w+)\)\) => $1
//@spec
    requires self.wf(), self.tok_helper.of(*graph),
    ensures ret matches Ok(Some(i)) ==> i.wf() && forall|a: NodeID, b: NodeID| #![trigger i.accepts(a, b)] i.accepts(a, b) == self.accepts(b, a),
//@at fn_start
        broadcast use axiom_helper;
//@end
//@fn src=graphannis/src/annis/db/aql/operators/precedence.rs item="BinaryOperatorIndex for Precedence::retrieve_matches"
//@rewrite Box<dyn Iterator<Item\s=\sResult<Match>> \+ 'b> => It<Result<Match>>
//@rewrite Box::new\( => (
//@rewrite std::iter::empty => it_empty
//@rewrite std::iter::once => it_once
//@rewrite try_as_boxed_iter!\((.*)\)(;?\n) => match $1 { Ok(v) => v, Err(e) => return it_err(e) }$2
//@rewrite DEFAULT_ANNO_KEY.clone\(\) => default_anno_key()
//@rewrite (?s)\s*\.map\(\|t\| t\.map_err\(GraphAnnisError::from\)\) =>
//@rewrite GraphAnnisError::from\(e\) => e
//@rewrite (?s)let result = connected(.*?)\.flatten_ok\(\)(.*?)\.map\( => let ghost r0 = connected@; let r1 = connected$1; let ghost g1 = r1@; let r2 = r1.flatten_ok(); let ghost g2 = r2@; let result = r2.map(
//@rewrite (?s)\.map_ok\(move \|t\| \{(.*?)it_once\(Ok\(t\)\)\.chain\(it_aligned\)\s*\} => .map_ok(move |t: NodeID| -> (o: It<Result<NodeID>>) ensures lists_all(o@, |n: NodeID| (self.ex())(t, n)) {${1}proof { lemma_once_chain(t, if self.spec.segmentation is Some { Seq::empty() } else { self.gs_left.in_seq(t) }, it_aligned@); } let o = it_once(Ok(t)).chain(it_aligned); proof { assert((|n: NodeID| (self.ex())(t, n)) =~= (|n: NodeID| n == t || (if self.spec.segmentation is Some { Seq::empty() } else { self.gs_left.in_seq(t) }).contains(n))); } o }
//@rewrite (?s)\.map\(\|c\| match c \{(.*?)\}\);\s*\(result\) => .map(|c: Result<Result<NodeID>>| -> (o: Result<Match>) ensures match c { Ok(Ok(n)) => o is Ok && o->Ok_0.node == n, _ => o is Err } { match c {$1} }); proof { self.lemma_listing(lhs.node, r0, g1, g2, result@); } result
//@spec
    requires self.wf(),
    ensures partners(ret@, |n: NodeID| self.accepts(lhs.node, n)),
//@end
    pub open spec fn ex(&self) -> spec_fn(NodeID, NodeID) -> bool {
        |t: NodeID, n: NodeID| n == t || self.spec.segmentation is None && self.gs_left.in_seq(t).contains(n)
    }
    pub open spec fn start(&self, a: NodeID) -> Option<NodeID> { if self.spec.segmentation is Some { Some(a) } else { self.tok_helper.right(a) } }
    proof fn lemma_listing(&self, a: NodeID, r0: Seq<Result<NodeID>>, g1: Seq<Result<It<Result<NodeID>>>>, g2: Seq<Result<Result<NodeID>>>, r: Seq<Result<Match>>)
        requires self.wf(), self.start(a) matches Some(s) && lists_all(r0, |t: NodeID| self.gs_order.conn(s, t, self.spec.dist.lo(), self.spec.dist.hi())),
            expand_ok(r0, g1, self.ex()), flat(g1, g2), as_matches(g2, r),
        ensures partners(r, |n: NodeID| self.accepts(a, n)),
    {
        let s = self.start(a)->0;
        let q = |t: NodeID| self.gs_order.conn(s, t, self.spec.dist.lo(), self.spec.dist.hi());
        let p = |n: NodeID| self.accepts(a, n);
        let ex = self.ex();
        let h = self.tok_helper;
        assert forall|n: NodeID| #![trigger p(n)] p(n) implies exists|t: NodeID| #![trigger q(t)] q(t) && ex(t, n) by {
            if self.spec.segmentation is Some { assert(q(n) && ex(n, n)); }
            else {
                let e = h.left(n)->0;
                assert(q(e));
                if !h.tok(n) { assert(h.left_edges.out_seq(n).contains(e)) by { assert(h.left_edges.out_seq(n)[0] == e); } }
                assert(ex(e, n));
            }
        }
        assert forall|t: NodeID, n: NodeID| #![trigger q(t), ex(t, n)] q(t) && ex(t, n) implies p(n) by {
            if self.spec.segmentation is None {
                assert(h.tok(s)) by { if !h.tok(a) { let _ = h.right_edges.out_seq(a); } }
                assert(self.gs_order.conn(s, t, self.spec.dist.lo(), self.spec.dist.hi()));
                assert(h.tok(t));
                if n != t { assert(h.left_edges.out_seq(n).contains(t)); let _ = h.left_edges.out_seq(n); }
            }
        }
        lemma_partners(r0, g1, g2, r, q, ex, p);
    }
}
impl<'a> InversePrecedence<'a> {
    pub open spec fn wf(&self) -> bool {
        self.tok_helper.aligned_wf() && self.gs_left.dual() && self.gs_right.dual() && self.gs_left == self.tok_helper.left_edges && self.gs_right == self.tok_helper.right_edges
            && order_wf(self.gs_order, self.tok_helper)
    }
    pub open spec fn accepts(&self, a: NodeID, b: NodeID) -> bool { precedes(self.gs_order, self.tok_helper, self.spec.segmentation is Some, self.spec.dist, b, a) }
//@fn src=graphannis/src/annis/db/aql/operators/precedence.rs item="BinaryOperatorBase for InversePrecedence::filter_match"
//@spec
    ensures ret matches Ok(b) ==> b == self.accepts(lhs.node, rhs.node),
//@end
//@fn src=graphannis/src/annis/db/aql/operators/precedence.rs item="BinaryOperatorBase for InversePrecedence::get_inverse_operator"
//@rewrite Result<Option<BinaryOperator<'b>>> => Result<Option<Precedence<'b>>>
//@rewrite BinaryOperator::Index\(Box::new\((\w+)\)\) => $1
//@spec
    requires self.wf(), self.tok_helper.of(*graph),
    ensures ret matches Ok(Some(i)) ==> i.wf() && forall|a: NodeID, b: NodeID| #![trigger i.accepts(a, b)] i.accepts(a, b) == self.accepts(b, a),
//@at fn_start
        broadcast use axiom_helper;
//@end
//@fn src=graphannis/src/annis/db/aql/operators/precedence.rs item="BinaryOperatorIndex for InversePrecedence::retrieve_matches"
//@rewrite Box<dyn Iterator<Item\s=\sResult<Match>> \+ 'b> => It<Result<Match>>
//@rewrite Box::new\( => (
//@rewrite std::iter::empty => it_empty
//@rewrite std::iter::once => it_once
//@rewrite try_as_boxed_iter!\((.*)\)(;?\n) => match $1 { Ok(v) => v, Err(e) => return it_err(e) }$2
//@rewrite DEFAULT_ANNO_KEY.clone\(\) => default_anno_key()
//@rewrite GraphAnnisError::from\(e\) => e
//@rewrite (?s)let result = token_in_range(.*?)\.flatten_ok\(\)(.*?)\.map\( => let ghost r0 = token_in_range@; let r1 = token_in_range$1; let ghost g1 = r1@; let r2 = r1.flatten_ok(); let ghost g2 = r2@; let result = r2.map(
//@rewrite (?s)\.map_ok\(move \|t\| \{(.*?)it_once\(Ok\(t\)\)\.chain\(it_aligned\)\s*\} => .map_ok(move |t: NodeID| -> (o: It<Result<NodeID>>) ensures lists_all(o@, |n: NodeID| (self.ex())(t, n)) {${1}proof { lemma_once_chain(t, if self.spec.segmentation is Some { Seq::empty() } else { self.gs_right.in_seq(t) }, it_aligned@); } let o = it_once(Ok(t)).chain(it_aligned); proof { assert((|n: NodeID| (self.ex())(t, n)) =~= (|n: NodeID| n == t || (if self.spec.segmentation is Some { Seq::empty() } else { self.gs_right.in_seq(t) }).contains(n))); } o }
//@rewrite (?s)\.map\(\|c\| match c \{(.*?)\}\);\s*\(result\) => .map(|c: Result<Result<NodeID>>| -> (o: Result<Match>) ensures match c { Ok(Ok(n)) => o is Ok && o->Ok_0.node == n, _ => o is Err } { match c {$1} }); proof { self.lemma_listing(lhs.node, r0, g1, g2, result@); } result
//@spec
    requires self.wf(),
    ensures partners(ret@, |n: NodeID| self.accepts(lhs.node, n)),
//@end
    pub open spec fn ex(&self) -> spec_fn(NodeID, NodeID) -> bool {
        |t: NodeID, n: NodeID| n == t || self.spec.segmentation is None && self.gs_right.in_seq(t).contains(n)
    }
    pub open spec fn start(&self, a: NodeID) -> Option<NodeID> { if self.spec.segmentation is Some { Some(a) } else { self.tok_helper.left(a) } }
    proof fn lemma_listing(&self, a: NodeID, r0: Seq<Result<NodeID>>, g1: Seq<Result<It<Result<NodeID>>>>, g2: Seq<Result<Result<NodeID>>>, r: Seq<Result<Match>>)
        requires self.wf(), self.start(a) matches Some(s) && lists_all(r0, |t: NodeID| self.gs_order.conn(t, s, self.spec.dist.lo(), self.spec.dist.hi())),
            expand_ok(r0, g1, self.ex()), flat(g1, g2), as_matches(g2, r),
        ensures partners(r, |n: NodeID| self.accepts(a, n)),
    {
        let s = self.start(a)->0;
        let q = |t: NodeID| self.gs_order.conn(t, s, self.spec.dist.lo(), self.spec.dist.hi());
        let p = |n: NodeID| self.accepts(a, n);
        let ex = self.ex();
        let h = self.tok_helper;
        assert forall|n: NodeID| #![trigger p(n)] p(n) implies exists|t: NodeID| #![trigger q(t)] q(t) && ex(t, n) by {
            if self.spec.segmentation is Some { assert(q(n) && ex(n, n)); }
            else {
                let e = h.right(n)->0;
                assert(q(e));
                if !h.tok(n) { assert(h.right_edges.out_seq(n).contains(e)) by { assert(h.right_edges.out_seq(n)[0] == e); } }
                assert(ex(e, n));
            }
        }
        assert forall|t: NodeID, n: NodeID| #![trigger q(t), ex(t, n)] q(t) && ex(t, n) implies p(n) by {
            if self.spec.segmentation is None {
                assert(h.tok(s)) by { if !h.tok(a) { let _ = h.left_edges.out_seq(a); } }
                assert(self.gs_order.conn(t, s, self.spec.dist.lo(), self.spec.dist.hi()));
                assert(h.tok(t));
                if n != t { assert(h.right_edges.out_seq(n).contains(t)); let _ = h.right_edges.out_seq(n); }
            }
        }
        lemma_partners(r0, g1, g2, r, q, ex, p);
    }
}

// ---- near --------------------------------------------------------------------------------------
//@item src=graphannis/src/annis/db/aql/operators/near.rs item="struct NearSpec"
impl Clone for NearSpec {
    #[verifier::external_body]
    fn clone(&self) -> (r: NearSpec) ensures r == *self { unimplemented!() }
}
//@item src=graphannis/src/annis/db/aql/operators/near.rs item="struct Near"
//@rewrite Arc<dyn GraphStorage> => Gs
//@rewrite (?m)^    (\w+): => pub $1:
//@rewrite struct Near => pub struct Near
pub open spec fn near(o: Gs, h: TokenHelper, seg: bool, d: RangeSpec, a: NodeID, b: NodeID) -> bool {
    if seg { o.conn(a, b, d.lo(), d.hi()) || o.conn(b, a, d.lo(), d.hi()) }
    else { precedes(o, h, seg, d, a, b) || precedes(o, h, seg, d, b, a) }
}
pub open spec fn reach(o: Gs, s: NodeID, d: RangeSpec, fwd: bool) -> spec_fn(NodeID) -> bool { |t: NodeID| if fwd { o.conn(s, t, d.lo(), d.hi()) } else { o.conn(t, s, d.lo(), d.hi()) } }
pub open spec fn prec_of(o: Gs, h: TokenHelper, seg: bool, d: RangeSpec, fwd: bool, a: NodeID) -> spec_fn(NodeID) -> bool { |n: NodeID| if fwd { precedes(o, h, seg, d, a, n) } else { precedes(o, h, seg, d, n, a) } }
pub open spec fn ex_of(seg: bool, g: Gs) -> spec_fn(NodeID, NodeID) -> bool { |t: NodeID, n: NodeID| n == t || !seg && g.in_seq(t).contains(n) }
proof fn lemma_direction(h: TokenHelper, o: Gs, seg: bool, d: RangeSpec, fwd: bool, a: NodeID, r0: Seq<Result<NodeID>>, g1: Seq<Result<It<Result<NodeID>>>>, g2: Seq<Result<Result<NodeID>>>, r: Seq<Result<NodeID>>)
    requires h.aligned_wf(), h.left_edges.dual(), h.right_edges.dual(), order_wf(o, h),
        (if seg { Some(a) } else if fwd { h.right(a) } else { h.left(a) }) matches Some(s) && lists_all(r0, reach(o, s, d, fwd)),
        expand_ok(r0, g1, ex_of(seg, if fwd { h.left_edges } else { h.right_edges })), flat(g1, g2),
        r.len() == g2.len(), forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> match g2[i] { Ok(Ok(n)) => r[i] == Ok::<NodeID, GraphAnnisError>(n), _ => r[i] is Err },
    ensures lists_all(r, prec_of(o, h, seg, d, fwd, a)),
{
    let s = (if seg { Some(a) } else if fwd { h.right(a) } else { h.left(a) })->0;
    let q = reach(o, s, d, fwd);
    let g = if fwd { h.left_edges } else { h.right_edges };
    let ex = ex_of(seg, g);
    let p = prec_of(o, h, seg, d, fwd, a);
    assert forall|n: NodeID| #![trigger p(n)] p(n) implies exists|t: NodeID| #![trigger q(t)] q(t) && ex(t, n) by {
        if seg { assert(q(n) && ex(n, n)); }
        else {
            let e = (if fwd { h.left(n) } else { h.right(n) })->0;
            assert(q(e));
            if !h.tok(n) { assert(g.out_seq(n).contains(e)) by { assert(g.out_seq(n)[0] == e); } }
            assert(ex(e, n));
        }
    }
    assert forall|t: NodeID, n: NodeID| #![trigger q(t), ex(t, n)] q(t) && ex(t, n) implies p(n) by {
        if !seg {
            assert(h.tok(s)) by { if !h.tok(a) { let _ = h.right_edges.out_seq(a); let _ = h.left_edges.out_seq(a); } }
            if fwd { assert(o.conn(s, t, d.lo(), d.hi())); } else { assert(o.conn(t, s, d.lo(), d.hi())); }
            assert(h.tok(t));
            if n != t { assert(g.out_seq(n).contains(t)); let _ = g.out_seq(n); }
        }
    }
    lemma_expand(r0, g1, g2, q, ex);
    assert forall|i: int| #![trigger r[i]] 0 <= i < r.len() implies (r[i] matches Ok(x) ==> p(x)) by {
        if r[i] is Ok { let _ = g2[i]; let t = choose|t: NodeID| #![trigger q(t)] q(t) && ex(t, g2[i]->Ok_0->Ok_0); assert(p(r[i]->Ok_0)); }
    }
    if forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> r[i] is Ok {
        assert forall|k: int| #![trigger g2[k]] 0 <= k < g2.len() implies g2[k] is Ok && g2[k]->Ok_0 is Ok by { let _ = r[k]; }
        assert forall|n: NodeID| #![trigger p(n)] p(n) implies exists|i: int| #![trigger r[i]] 0 <= i < r.len() && r[i] == Ok::<NodeID, GraphAnnisError>(n) by {
            let t = choose|t: NodeID| #![trigger q(t)] q(t) && ex(t, n);
            let k = choose|k: int| #![trigger g2[k]] 0 <= k < g2.len() && g2[k] == Ok::<Result<NodeID>, GraphAnnisError>(Ok(n));
            let _ = r[k];
        }
    }
}
/// the set with the nodes of both lists
proof fn lemma_union(f: Seq<Result<NodeID>>, b: Seq<Result<NodeID>>, s: Set<NodeID>, l: Seq<NodeID>, r: Seq<Result<Match>>, pf: spec_fn(NodeID) -> bool, pb: spec_fn(NodeID) -> bool, p: spec_fn(NodeID) -> bool)
    requires lists_all(f, pf), lists_all(b, pb), forall|n: NodeID| #![trigger p(n)] p(n) <==> pf(n) || pb(n),
        forall|i: int| #![trigger (f + b)[i]] 0 <= i < (f + b).len() ==> (f + b)[i] is Ok && s.contains((f + b)[i]->Ok_0),
        forall|n: NodeID| #![trigger s.contains(n)] s.contains(n) ==> exists|i: int| #![trigger (f + b)[i]] 0 <= i < (f + b).len() && (f + b)[i] == Ok::<NodeID, GraphAnnisError>(n),
        forall|i: int| #![trigger l[i]] 0 <= i < l.len() ==> s.contains(l[i]),
        forall|n: NodeID| #![trigger s.contains(n)] s.contains(n) ==> exists|i: int| #![trigger l[i]] 0 <= i < l.len() && l[i] == n,
        r.len() == l.len(), forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> r[i] is Ok && r[i]->Ok_0.node == l[i],
    ensures partners(r, p),
{
    let fb = f + b;
    assert forall|i: int| #![trigger f[i]] 0 <= i < f.len() implies f[i] is Ok by { assert((f + b)[i] == f[i]); }
    assert forall|i: int| #![trigger b[i]] 0 <= i < b.len() implies b[i] is Ok by { assert((f + b)[f.len() + i] == b[i]); }
    assert forall|n: NodeID| #![trigger s.contains(n)] s.contains(n) <==> p(n) by {
        if s.contains(n) {
            let i = choose|i: int| #![trigger (f + b)[i]] 0 <= i < (f + b).len() && (f + b)[i] == Ok::<NodeID, GraphAnnisError>(n);
            if i < f.len() { assert(f[i] == (f + b)[i]); assert(pf(n)); } else { assert(b[i - f.len()] == (f + b)[i]); assert(pb(n)); }
        }
        if p(n) {
            if pf(n) { let i = choose|i: int| #![trigger f[i]] 0 <= i < f.len() && f[i] == Ok::<NodeID, GraphAnnisError>(n); assert((f + b)[i] == f[i]); }
            else { let i = choose|i: int| #![trigger b[i]] 0 <= i < b.len() && b[i] == Ok::<NodeID, GraphAnnisError>(n); assert((f + b)[f.len() + i] == b[i]); }
        }
    }
    assert forall|n: NodeID| #![trigger p(n)] p(n) implies exists|i: int| #![trigger r[i]] 0 <= i < r.len() && r[i] is Ok && r[i]->Ok_0.node == n by {
        assert(s.contains(n));
        let i = choose|i: int| #![trigger l[i]] 0 <= i < l.len() && l[i] == n;
        let _ = r[i];
    }
    assert forall|i: int| #![trigger r[i]] 0 <= i < r.len() implies (r[i] matches Ok(x) ==> p(x.node)) by { let _ = l[i]; assert(s.contains(l[i])); }
}
impl<'a> Near<'a> {
    pub open spec fn wf(&self) -> bool {
        self.tok_helper.aligned_wf() && self.tok_helper.left_edges.dual() && self.tok_helper.right_edges.dual() && order_wf(self.gs_order, self.tok_helper)
    }
    pub open spec fn accepts(&self, a: NodeID, b: NodeID) -> bool { near(self.gs_order, self.tok_helper, self.spec.segmentation is Some, self.spec.dist, a, b) }
//@fn src=graphannis/src/annis/db/aql/operators/near.rs item="BinaryOperatorBase for Near::filter_match"
//@spec
    requires self.wf(),
    ensures ret matches Ok(b) ==> b == self.accepts(lhs.node, rhs.node),
//@at fn_start
        proof { let _ = self.tok_helper.right_edges.out_seq(lhs.node); let _ = self.tok_helper.left_edges.out_seq(rhs.node); let _ = self.tok_helper.right_edges.out_seq(rhs.node); }
//@end
//@fn src=graphannis/src/annis/db/aql/operators/near.rs item="BinaryOperatorBase for Near::get_inverse_operator"
//@rewrite Result<Option<BinaryOperator<'b>>> => Result<Option<Near<'b>>>
//@rewrite (?s)BinaryOperator::Index\(Box::new\((.*)\)\)(;|\)\)) => $1$2
//@spec
    requires self.wf(), self.tok_helper.of(*graph),
    ensures ret matches Ok(Some(i)) ==> i.wf() && forall|a: NodeID, b: NodeID| #![trigger i.accepts(a, b)] i.accepts(a, b) == self.accepts(b, a),
//@at fn_start
        broadcast use axiom_helper;
//@end
//@fn src=graphannis/src/annis/db/aql/operators/near.rs item="BinaryOperatorIndex for Near::retrieve_matches"
//@rewrite (?s)let it = connected(.*?)\.flatten_ok\(\)(.*?)\.map\( => let ghost r0 = connected@; let r1 = connected$1; let ghost g1 = r1@; let r2 = r1.flatten_ok(); let ghost g2 = r2@; let it = r2.map(
//@rewrite (?s)\.map_ok\((?:move )?\|t\| \{(.{0,400}?)get_gs_left_token(.*?)std::iter::once\(Ok\(t\)\)\.chain\(it_aligned\)\s*\} => .map_ok(move |t: NodeID| -> (o: It<Result<NodeID>>) ensures lists_all(o@, |n: NodeID| (ex_of(self.spec.segmentation is Some, self.tok_helper.left_edges))(t, n)) {${1}get_gs_left_token${2}proof { lemma_once_chain(t, if self.spec.segmentation is Some { Seq::empty() } else { self.tok_helper.left_edges.in_seq(t) }, it_aligned@); } let o = it_once(Ok(t)).chain(it_aligned); proof { assert((|n: NodeID| (ex_of(self.spec.segmentation is Some, self.tok_helper.left_edges))(t, n)) =~= (|n: NodeID| n == t || (if self.spec.segmentation is Some { Seq::empty() } else { self.tok_helper.left_edges.in_seq(t) }).contains(n))); } o }
//@rewrite (?s)\.map_ok\((?:move )?\|t\| \{(.{0,400}?)get_gs_right_token(.*?)std::iter::once\(Ok\(t\)\)\.chain\(it_aligned\)\s*\} => .map_ok(move |t: NodeID| -> (o: It<Result<NodeID>>) ensures lists_all(o@, |n: NodeID| (ex_of(self.spec.segmentation is Some, self.tok_helper.right_edges))(t, n)) {${1}get_gs_right_token${2}proof { lemma_once_chain(t, if self.spec.segmentation is Some { Seq::empty() } else { self.tok_helper.right_edges.in_seq(t) }, it_aligned@); } let o = it_once(Ok(t)).chain(it_aligned); proof { assert((|n: NodeID| (ex_of(self.spec.segmentation is Some, self.tok_helper.right_edges))(t, n)) =~= (|n: NodeID| n == t || (if self.spec.segmentation is Some { Seq::empty() } else { self.tok_helper.right_edges.in_seq(t) }).contains(n))); } o }
//@rewrite (?s)\.map\(\|c\| match c \{(.*?)\}\);\s*Box::new\(it\) => .map(|c: Result<Result<NodeID>>| -> (o: Result<NodeID>) ensures match c { Ok(Ok(n)) => o == Ok::<NodeID, GraphAnnisError>(n), _ => o is Err } { match c {$1} }); proof { assert(r0 =~= r0); assert(reach(self.gs_order, start, self.spec.dist, FORWARD) =~= (if FORWARD { |t: NodeID| self.gs_order.conn(start, t, self.spec.dist.lo(), self.spec.dist.hi()) } else { |t: NodeID| self.gs_order.conn(t, start, self.spec.dist.lo(), self.spec.dist.hi()) })); lemma_direction(self.tok_helper, self.gs_order, self.spec.segmentation is Some, self.spec.dist, FORWARD, lhs.node, r0, g1, g2, it@); } (it)
//@rewrite (?s)FORWARD(.*?)FORWARD(.*?)FORWARD(.*?)FORWARD(.*?)FORWARD(.*?)FORWARD => true${1}true${2}true${3}false${4}false${5}false
//@rewrite Box<dyn Iterator<Item\s=\sResult<u64>>> => It<Result<NodeID>>
//@rewrite Result<FxHashSet<NodeID>> = it_forward.chain\(it_backward\).collect\(\) => Result<NodeSet> = { proof { pf = it_forward@; pb = it_backward@; } it_forward.chain(it_backward).collect_set() }
//@rewrite (?s)Box::new\(result.into_iter\(\).map\(\|n\| \{(.*?)\n        \}\)\) => let ghost rs = result@; let rl = result.into_iter(); let ghost l = rl@; let rr = rl.map(|n: NodeID| -> (o: Result<Match>) ensures o is Ok && o->Ok_0.node == n {${1} }); proof { let a = lhs.node; let seg = self.spec.segmentation is Some; let d = self.spec.dist; let o = self.gs_order; let h = self.tok_helper; lemma_union(pf, pb, rs, l, rr@, prec_of(o, h, seg, d, true, a), prec_of(o, h, seg, d, false, a), |n: NodeID| self.accepts(lhs.node, n)); } rr
//@rewrite try_as_boxed_iter!\(result\) => match result { Ok(v) => v, Err(e) => return it_err(e) }
//@rewrite? Box<dyn Iterator<Item\s=\sResult<Match>>(?: \+ 'b)?> => It<Result<Match>>
//@rewrite? Box::new\( => (
//@rewrite? std::iter::empty => it_empty
//@rewrite? std::iter::once => it_once
//@rewrite? try_as_boxed_iter!\((.*)\)(;?\n) => match $1 { Ok(v) => v, Err(e) => return it_err(e) }$2
//@rewrite? DEFAULT_ANNO_KEY.clone\(\) => default_anno_key()
//@rewrite? GraphAnnisError::from\(e\) => e
//@rewrite? FxHashSet => NodeSet
//@spec
    requires self.wf(),
    ensures partners(ret@, |n: NodeID| self.accepts(lhs.node, n)),
//@at fn_start
        let ghost mut pf: Seq<Result<NodeID>> = Seq::empty(); let ghost mut pb: Seq<Result<NodeID>> = Seq::empty();
//@end
}

//@item src=graphannis/src/annis/db/aql/operators/leftalignment.rs item="struct LeftAlignment"
//@rewrite (?m)^    (\w+): => pub $1:
impl<'a> LeftAlignment<'a> {
    pub open spec fn wf(&self) -> bool { self.tok_helper.aligned_wf() && self.tok_helper.left_edges.dual() }
    pub open spec fn accepts(&self, a: NodeID, b: NodeID) -> bool { self.tok_helper.left(a) is Some && self.tok_helper.left(a) == self.tok_helper.left(b) }
//@fn src=graphannis/src/annis/db/aql/operators/leftalignment.rs item="BinaryOperatorBase for LeftAlignment::filter_match"
//@spec
    ensures ret matches Ok(b) ==> b == self.accepts(lhs.node, rhs.node),
//@end
//@fn src=graphannis/src/annis/db/aql/operators/leftalignment.rs item="BinaryOperatorBase for LeftAlignment::get_inverse_operator"
//@rewrite Result<Option<BinaryOperator<'b>>> => Result<Option<LeftAlignment<'b>>>
//@rewrite (?s)BinaryOperator::Index\(Box::new\((.*)\)\)(;|\)\)) => $1$2
//@spec
    requires self.wf(), self.tok_helper.of(*graph),
    ensures ret matches Ok(Some(i)) ==> i.wf() && forall|a: NodeID, b: NodeID| #![trigger i.accepts(a, b)] i.accepts(a, b) == self.accepts(b, a),
//@at fn_start
        broadcast use axiom_helper;
//@end
//@fn src=graphannis/src/annis/db/aql/operators/leftalignment.rs item="BinaryOperatorIndex for LeftAlignment::retrieve_matches"
//@rewrite aligned\.extend\( => it_extend(&mut aligned, 
//@rewrite (?s)\.map_ok\(\|n\| Match \{(.*?)\}\) => .map_ok(|n: NodeID| -> (o: Match) ensures o.node == n { Match {${1}} })
//@rewrite (?s)Box::from\(\s*aligned\s*\.into_iter\(\)\s*\.map\(\|m\| m\.map_err\(GraphAnnisError::from\)\),?\s*\) => let r = It { v: aligned }; proof { self.lemma_listing(lhs.node, r@); } r
//@rewrite let mut aligned = Vec::default\(\) => let mut aligned: Vec<Result<Match>> = Vec::new()
//@rewrite? Box<dyn Iterator<Item\s=\sResult<Match>>(?: \+ 'b)?> => It<Result<Match>>
//@rewrite? Box::new\( => (
//@rewrite? std::iter::empty => it_empty
//@rewrite? std::iter::once => it_once
//@rewrite? try_as_boxed_iter!\((.*)\)(;?\n) => match $1 { Ok(v) => v, Err(e) => return it_err(e) }$2
//@rewrite? DEFAULT_ANNO_KEY.clone\(\) => default_anno_key()
//@rewrite? GraphAnnisError::from\(e\) => e
//@rewrite? FxHashSet => NodeSet
//@spec
    requires self.wf(),
    ensures partners(ret@, |n: NodeID| self.accepts(lhs.node, n)),
//@end
    proof fn lemma_listing(&self, a: NodeID, r: Seq<Result<Match>>)
        requires self.wf(), match self.tok_helper.left(a) {
            None => r.len() == 0,
            Some(t) => { let s = self.tok_helper.left_edges.in_seq(t); r.len() == s.len() + 1 && r[0] is Ok && r[0]->Ok_0.node == t && forall|i: int| #![trigger r[i]] 1 <= i < r.len() ==> (r[i] matches Ok(m) ==> m.node == s[i - 1]) },
        },
        ensures partners(r, |n: NodeID| self.accepts(a, n)),
    {
        let p = |n: NodeID| self.accepts(a, n);
        let h = self.tok_helper;
        if let Some(t) = h.left(a) {
            let s = h.left_edges.in_seq(t);
            assert(h.tok(t)) by { if !h.tok(a) { let _ = h.left_edges.out_seq(a); } }
            assert forall|i: int| #![trigger r[i]] 0 <= i < r.len() implies (r[i] matches Ok(x) ==> p(x.node)) by {
                if i > 0 && r[i] is Ok { let n = s[i - 1]; assert(s.contains(n)); assert(h.left_edges.out_seq(n).contains(t)); let _ = h.left_edges.out_seq(n); }
            }
            if forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> r[i] is Ok {
                assert forall|n: NodeID| #![trigger p(n)] p(n) implies exists|i: int| #![trigger r[i]] 0 <= i < r.len() && r[i] is Ok && r[i]->Ok_0.node == n by {
                    if h.tok(n) { assert(r[0]->Ok_0.node == n); }
                    else {
                        assert(h.left_edges.out_seq(n)[0] == t);
                        assert(h.left_edges.out_seq(n).contains(t));
                        assert(s.contains(n));
                        let k = choose|k: int| 0 <= k < s.len() && s[k] == n;
                        assert(r[k + 1] is Ok);
                    }
                }
            }
        }
    }
}

//@item src=graphannis/src/annis/db/aql/operators/rightalignment.rs item="struct RightAlignment"
//@rewrite (?m)^    (\w+): => pub $1:
impl<'a> RightAlignment<'a> {
    pub open spec fn wf(&self) -> bool { self.tok_helper.aligned_wf() && self.tok_helper.right_edges.dual() }
    pub open spec fn accepts(&self, a: NodeID, b: NodeID) -> bool { self.tok_helper.right(a) is Some && self.tok_helper.right(a) == self.tok_helper.right(b) }
//@fn src=graphannis/src/annis/db/aql/operators/rightalignment.rs item="BinaryOperatorBase for RightAlignment::filter_match"
//@spec
    ensures ret matches Ok(b) ==> b == self.accepts(lhs.node, rhs.node),
//@end
//@fn src=graphannis/src/annis/db/aql/operators/rightalignment.rs item="BinaryOperatorBase for RightAlignment::get_inverse_operator"
//@rewrite Result<Option<BinaryOperator<'b>>> => Result<Option<RightAlignment<'b>>>
//@rewrite (?s)BinaryOperator::Index\(Box::new\((.*)\)\)(;|\)\)) => $1$2
//@spec
    requires self.wf(), self.tok_helper.of(*graph),
    ensures ret matches Ok(Some(i)) ==> i.wf() && forall|a: NodeID, b: NodeID| #![trigger i.accepts(a, b)] i.accepts(a, b) == self.accepts(b, a),
//@at fn_start
        broadcast use axiom_helper;
//@end
//@fn src=graphannis/src/annis/db/aql/operators/rightalignment.rs item="BinaryOperatorIndex for RightAlignment::retrieve_matches"
//@rewrite aligned\.extend\( => it_extend(&mut aligned, 
//@rewrite (?s)\.map_ok\(\|n\| Match \{(.*?)\}\) => .map_ok(|n: NodeID| -> (o: Match) ensures o.node == n { Match {${1}} })
//@rewrite (?s)Box::from\(\s*aligned\s*\.into_iter\(\)\s*\.map\(\|m\| m\.map_err\(GraphAnnisError::from\)\),?\s*\) => let r = It { v: aligned }; proof { self.lemma_listing(lhs.node, r@); } r
//@rewrite let mut aligned = Vec::default\(\) => let mut aligned: Vec<Result<Match>> = Vec::new()
//@rewrite? Box<dyn Iterator<Item\s=\sResult<Match>>(?: \+ 'b)?> => It<Result<Match>>
//@rewrite? Box::new\( => (
//@rewrite? std::iter::empty => it_empty
//@rewrite? std::iter::once => it_once
//@rewrite? try_as_boxed_iter!\((.*)\)(;?\n) => match $1 { Ok(v) => v, Err(e) => return it_err(e) }$2
//@rewrite? DEFAULT_ANNO_KEY.clone\(\) => default_anno_key()
//@rewrite? GraphAnnisError::from\(e\) => e
//@rewrite? FxHashSet => NodeSet
//@spec
    requires self.wf(),
    ensures partners(ret@, |n: NodeID| self.accepts(lhs.node, n)),
//@end
    proof fn lemma_listing(&self, a: NodeID, r: Seq<Result<Match>>)
        requires self.wf(), match self.tok_helper.right(a) {
            None => r.len() == 0,
            Some(t) => { let s = self.tok_helper.right_edges.in_seq(t); r.len() == s.len() + 1 && r[0] is Ok && r[0]->Ok_0.node == t && forall|i: int| #![trigger r[i]] 1 <= i < r.len() ==> (r[i] matches Ok(m) ==> m.node == s[i - 1]) },
        },
        ensures partners(r, |n: NodeID| self.accepts(a, n)),
    {
        let p = |n: NodeID| self.accepts(a, n);
        let h = self.tok_helper;
        if let Some(t) = h.right(a) {
            let s = h.right_edges.in_seq(t);
            assert(h.tok(t)) by { if !h.tok(a) { let _ = h.right_edges.out_seq(a); } }
            assert forall|i: int| #![trigger r[i]] 0 <= i < r.len() implies (r[i] matches Ok(x) ==> p(x.node)) by {
                if i > 0 && r[i] is Ok { let n = s[i - 1]; assert(s.contains(n)); assert(h.right_edges.out_seq(n).contains(t)); let _ = h.right_edges.out_seq(n); }
            }
            if forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> r[i] is Ok {
                assert forall|n: NodeID| #![trigger p(n)] p(n) implies exists|i: int| #![trigger r[i]] 0 <= i < r.len() && r[i] is Ok && r[i]->Ok_0.node == n by {
                    if h.tok(n) { assert(r[0]->Ok_0.node == n); }
                    else {
                        assert(h.right_edges.out_seq(n)[0] == t);
                        assert(h.right_edges.out_seq(n).contains(t));
                        assert(s.contains(n));
                        let k = choose|k: int| 0 <= k < s.len() && s[k] == n;
                        assert(r[k + 1] is Ok);
                    }
                }
            }
        }
    }
}

// ---- identical node, identical coverage ----------------------------------------------------------
//@item src=graphannis/src/annis/db/aql/operators/identical_node.rs item="struct IdenticalNode"
impl Clone for IdenticalNode { fn clone(&self) -> (r: IdenticalNode) ensures r == *self { IdenticalNode } }
impl IdenticalNode {
    pub open spec fn accepts(&self, a: NodeID, b: NodeID) -> bool { a == b }
//@fn src=graphannis/src/annis/db/aql/operators/identical_node.rs item="BinaryOperatorBase for IdenticalNode::filter_match"
//@spec
    ensures ret matches Ok(b) ==> b == self.accepts(lhs.node, rhs.node),
//@end
//@fn src=graphannis/src/annis/db/aql/operators/identical_node.rs item="BinaryOperatorBase for IdenticalNode::get_inverse_operator"
//@rewrite Result<Option<BinaryOperator<'a>>> => Result<Option<IdenticalNode>>
//@rewrite BinaryOperator::Index\(Box::new\((.*?)\)\)\)\) => $1))
//@spec
    ensures ret matches Ok(Some(i)) ==> forall|a: NodeID, b: NodeID| #![trigger i.accepts(a, b)] i.accepts(a, b) == self.accepts(b, a),
//@end
//@fn src=graphannis/src/annis/db/aql/operators/identical_node.rs item="BinaryOperatorIndex for IdenticalNode::retrieve_matches"
//@rewrite? Box<dyn Iterator<Item\s=\sResult<Match>>(?: \+ 'b)?> => It<Result<Match>>
//@rewrite? Box::new\( => (
//@rewrite? std::iter::empty => it_empty
//@rewrite? std::iter::once => it_once
//@rewrite? try_as_boxed_iter!\((.*)\)(;?\n) => match $1 { Ok(v) => v, Err(e) => return it_err(e) }$2
//@rewrite? DEFAULT_ANNO_KEY.clone\(\) => default_anno_key()
//@rewrite? GraphAnnisError::from\(e\) => e
//@rewrite? std::ops::Bound => Bound
//@rewrite? FxHashSet(?:<NodeID>)? => NodeSet
//@rewrite (?s)\(it_once\((.*)\)\) => let r: It<Result<Match>> = it_once($1); proof { let _ = r@[0]; assert(forall|n: NodeID| #![trigger self.accepts(lhs.node, n)] self.accepts(lhs.node, n) ==> r@[0]->Ok_0.node == n); } r
//@spec
    ensures partners(ret@, |n: NodeID| self.accepts(lhs.node, n)),
//@end
}
pub open spec fn listed(r: Seq<Result<Match>>, n: NodeID) -> bool { exists|i: int| #![trigger r[i]] 0 <= i < r.len() && (r[i] matches Ok(m) ==> m.node == n) }
//@item src=graphannis/src/annis/db/aql/operators/identical_cov.rs item="struct IdenticalCoverage"
//@rewrite Arc<dyn GraphStorage> => Gs
//@rewrite (?m)^    (\w+): => pub $1:
impl<'a> IdenticalCoverage<'a> {
    pub open spec fn wf(&self) -> bool { self.tok_helper.aligned_wf() && self.tok_helper.left_edges.dual() && self.gs_left == self.tok_helper.left_edges }
    pub open spec fn accepts(&self, a: NodeID, b: NodeID) -> bool {
        let h = self.tok_helper;
        h.left(a) is Some && h.right(a) is Some && h.left(a) == h.left(b) && h.right(a) == h.right(b)
    }
//@fn src=graphannis/src/annis/db/aql/operators/identical_cov.rs item="BinaryOperatorBase for IdenticalCoverage::filter_match"
//@spec
    ensures ret matches Ok(b) ==> b == self.accepts(lhs.node, rhs.node),
//@end
//@fn src=graphannis/src/annis/db/aql/operators/identical_cov.rs item="BinaryOperatorBase for IdenticalCoverage::get_inverse_operator"
//@rewrite Result<Option<BinaryOperator<'b>>> => Result<Option<IdenticalCoverage<'b>>>
//@rewrite (?s)BinaryOperator::Index\(Box::new\((.*)\)\)(;|\)\)) => $1$2
//@spec
    requires self.wf(), self.tok_helper.of(*graph),
    ensures ret matches Ok(Some(i)) ==> i.wf() && forall|a: NodeID, b: NodeID| #![trigger i.accepts(a, b)] i.accepts(a, b) == self.accepts(b, a),
//@at fn_start
        broadcast use axiom_helper;
//@end
//@fn src=graphannis/src/annis/db/aql/operators/identical_cov.rs item="BinaryOperatorIndex for IdenticalCoverage::retrieve_matches"
//@forname 0 it
//@rewrite? Box<dyn Iterator<Item\s=\sResult<Match>>(?: \+ 'b)?> => It<Result<Match>>
//@rewrite? Box::new\( => (
//@rewrite? std::iter::empty => it_empty
//@rewrite? std::iter::once => it_once
//@rewrite? try_as_boxed_iter!\((.*)\)(;?\n) => match $1 { Ok(v) => v, Err(e) => return it_err(e) }$2
//@rewrite? DEFAULT_ANNO_KEY.clone\(\) => default_anno_key()
//@rewrite? GraphAnnisError::from\(e\) => e
//@rewrite? std::ops::Bound => Bound
//@rewrite? FxHashSet(?:<NodeID>)? => NodeSet
//@rewrite e\.into\(\) => e
//@rewrite self\.gs_left\.get_ingoing_edges\(n_left\) => self.gs_left.get_ingoing_edges(n_left).into_iter()
//@rewrite let mut result = Vec::new\(\) => let mut result: Vec<Result<Match>> = Vec::new()
//@rewrite \(result\.into_iter\(\)\) => let r = It { v: result }; r
//@spec
    requires self.wf(),
    ensures partners(ret@, |n: NodeID| self.accepts(lhs.node, n)),
//@at before_loop 0
                let ghost h = self.tok_helper;
                proof {
                    if !h.tok(lhs.node) { let _ = h.left_edges.out_seq(lhs.node); let _ = h.right_edges.out_seq(lhs.node); }
                    assert(h.tok(n_left) && h.tok(n_right));
                    let p = |n: NodeID| self.accepts(lhs.node, n);
                    assert forall|n: NodeID| #![trigger p(n)] p(n) && h.tok(n) implies result@.len() == 1 && result@[0] is Ok && result@[0]->Ok_0.node == n by {}
                    assert forall|n: NodeID| #![trigger p(n)] p(n) && !h.tok(n) implies self.gs_left.in_seq(n_left).contains(n) by {
                        assert(h.left_edges.out_seq(n)[0] == n_left); assert(h.left_edges.out_seq(n).contains(n_left));
                    }
                }
                let ghost pre = result@;
//@loop 0
    invariant h == self.tok_helper, self.wf(), h.left(lhs.node) == Some(n_left), h.right(lhs.node) == Some(n_right), h.tok(n_left), h.tok(n_right),
        lists(it.seq(), self.gs_left.in_seq(n_left)),
        pre.len() <= result@.len(), forall|i: int| #![trigger result@[i]] 0 <= i < pre.len() ==> result@[i] == pre[i],
        forall|i: int| #![trigger result@[i]] 0 <= i < result@.len() ==> (result@[i] matches Ok(x) ==> self.accepts(lhs.node, x.node)),
        forall|k: int| #![trigger self.gs_left.in_seq(n_left)[k]] 0 <= k < it.index() && self.accepts(lhs.node, self.gs_left.in_seq(n_left)[k]) ==> listed(result@, self.gs_left.in_seq(n_left)[k]),
//@at loop_start 0
                let ghost prev = result@;
                proof {
                    let k = it.index();
                    let s = self.gs_left.in_seq(n_left);
                    assert(it.seq()[k] == c);
                    if c is Ok {
                        let x = c->Ok_0;
                        assert(s[k] == x);
                        assert(s.contains(x));
                        assert(h.left_edges.out_seq(x).contains(n_left));
                        assert(h.left(x) == Some(n_left));
                    }
                }
//@at loop_end 0
                proof {
                    let s = self.gs_left.in_seq(n_left);
                    assert forall|n: NodeID| #![trigger listed(prev, n)] listed(prev, n) implies listed(result@, n) by { let i = choose|i: int| #![trigger prev[i]] 0 <= i < prev.len() && (prev[i] matches Ok(m) ==> m.node == n); assert(result@[i] == prev[i]); }
                    assert(result@.len() > prev.len() ==> listed(result@, s[it.index()])) by { if result@.len() > prev.len() { let _ = result@[prev.len() as int]; } }
                }
//@at after_loop 0
                proof {
                    let p = |n: NodeID| self.accepts(lhs.node, n);
                    let r = result@;
                    let s = self.gs_left.in_seq(n_left);
                    if forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> r[i] is Ok {
                        assert forall|n: NodeID| #![trigger p(n)] p(n) implies exists|i: int| #![trigger r[i]] 0 <= i < r.len() && r[i] is Ok && r[i]->Ok_0.node == n by {
                            if h.tok(n) { assert(r[0] == pre[0]); }
                            else {
                                let k = choose|k: int| 0 <= k < s.len() && s[k] == n;
                                assert(listed(r, s[k]));
                                let i = choose|i: int| #![trigger r[i]] 0 <= i < r.len() && (r[i] matches Ok(m) ==> m.node == n);
                                assert(r[i] is Ok);
                            }
                        }
                    }
                }
//@end
}

// ---- overlap ---------------------------------------------------------------------------------------
//@item src=graphannis/src/annis/db/aql/operators/overlap.rs item="struct Overlap"
//@rewrite Arc<dyn GraphStorage> => Gs
//@rewrite (?m)^    (\w+): => pub $1:
impl<'a> Overlap<'a> {
    pub open spec fn wf(&self) -> bool {
        &&& forall|i: int| #![trigger self.tok_helper.cov_edges@[i]] 0 <= i < self.tok_helper.cov_edges@.len() ==> self.tok_helper.cov_edges@[i].dual() && self.tok_helper.cov_edges@[i].direct()
        &&& forall|n: NodeID, t: NodeID| #![trigger self.tok_helper.cov_edge(n, t)] self.tok_helper.cov_edge(n, t) ==> self.tok_helper.tok(t)
    }
    /// the tokens of a node: a token is its own
    pub open spec fn token_of(&self, a: NodeID, t: NodeID) -> bool { if self.tok_helper.tok(a) { t == a } else { self.tok_helper.cov_edge(a, t) } }
    pub open spec fn accepts(&self, a: NodeID, b: NodeID) -> bool {
        self.reflexive && a == b || exists|t: NodeID| #![trigger self.tok_helper.covers(b, t)] self.token_of(a, t) && self.tok_helper.covers(b, t)
    }
//@fn src=graphannis/src/annis/db/aql/operators/overlap.rs item=Overlap::covers_token
//@rewrite std::ops::Bound => Bound
//@forname 0 it
//@spec
    requires self.wf(),
    ensures ret matches Ok(b) ==> b == self.tok_helper.covers(node, token),
//@loop 0
    invariant self.wf(), it.seq().len() == self.tok_helper.cov_edges@.len(), forall|i: int| #![trigger it.seq()[i]] 0 <= i < it.seq().len() ==> *it.seq()[i] == self.tok_helper.cov_edges@[i],
        forall|i: int| #![trigger self.tok_helper.cov_edges@[i]] 0 <= i < it.index() ==> !self.tok_helper.cov_edges@[i].out_seq(node).contains(token),
//@at loop_start 0
            proof { let _ = self.tok_helper.cov_edges@[it.index()]; let _ = it.seq()[it.index()]; assert(gs_cov.direct()); }
//@end
//@fn src=graphannis/src/annis/db/aql/operators/overlap.rs item="BinaryOperatorBase for Overlap::filter_match"
//@rewrite gs_cov\.get_outgoing_edges\(lhs\.node\) => gs_cov.get_outgoing_edges(lhs.node).into_iter()
//@forname 0 it
//@forname 1 jt
//@spec
    requires self.wf(),
    ensures ret matches Ok(b) ==> b == self.accepts(lhs.node, rhs.node),
//@loop 0
    invariant self.wf(), !self.tok_helper.tok(lhs.node), !(self.reflexive && lhs.node == rhs.node),
        it.seq().len() == self.tok_helper.cov_edges@.len(), forall|i: int| #![trigger it.seq()[i]] 0 <= i < it.seq().len() ==> *it.seq()[i] == self.tok_helper.cov_edges@[i],
        forall|i: int, t: NodeID| #![trigger self.tok_helper.cov_edges@[i].out_seq(lhs.node).contains(t)] 0 <= i < it.index() && self.tok_helper.cov_edges@[i].out_seq(lhs.node).contains(t) ==> !self.tok_helper.covers(rhs.node, t),
//@at loop_start 0
            proof { let _ = it.seq()[it.index()]; }
//@loop 1
    invariant self.wf(), !self.tok_helper.tok(lhs.node), 0 <= it.index() < it.seq().len(), it.seq().len() == self.tok_helper.cov_edges@.len(), *gs_cov == self.tok_helper.cov_edges@[it.index()],
        lists(jt.seq(), gs_cov.out_seq(lhs.node)),
        forall|k: int| #![trigger jt.seq()[k]] 0 <= k < jt.index() ==> jt.seq()[k] is Ok,
        forall|k: int| #![trigger gs_cov.out_seq(lhs.node)[k]] 0 <= k < jt.index() ==> !self.tok_helper.covers(rhs.node, gs_cov.out_seq(lhs.node)[k]),
//@at after_loop 1
            proof { assert forall|t: NodeID| #![trigger gs_cov.out_seq(lhs.node).contains(t)] gs_cov.out_seq(lhs.node).contains(t) implies !self.tok_helper.covers(rhs.node, t) by { let k = choose|k: int| 0 <= k < gs_cov.out_seq(lhs.node).len() && gs_cov.out_seq(lhs.node)[k] == t; assert(!self.tok_helper.covers(rhs.node, gs_cov.out_seq(lhs.node)[k])); } }
//@at loop_start 1
                proof { let _ = jt.seq()[jt.index()]; let _ = self.tok_helper.cov_edges@[it.index()]; assert(jt.seq()[jt.index()] is Ok ==> gs_cov.out_seq(lhs.node).contains(jt.seq()[jt.index()]->Ok_0)); }
//@end
//@fn src=graphannis/src/annis/db/aql/operators/overlap.rs item="BinaryOperatorBase for Overlap::get_inverse_operator"
//@rewrite Result<Option<BinaryOperator<'b>>> => Result<Option<Overlap<'b>>>
//@rewrite (?s)BinaryOperator::Index\(Box::new\((.*)\)\); => $1;
//@spec
    requires self.wf(), self.tok_helper.of(*graph),
    ensures ret matches Ok(Some(i)) ==> i.wf() && i.reflexive == self.reflexive && forall|a: NodeID, b: NodeID| #![trigger i.accepts(a, b)] i.accepts(a, b) == self.accepts(b, a),
//@at fn_start
        broadcast use axiom_helper;
//@at fn_end
        proof { lemma_inverse_overlap(*self, inverse, *graph); }
//@end
}

pub proof fn lemma_push_set(s: Seq<NodeID>, x: NodeID) ensures s.push(x).to_set() =~= s.to_set().insert(x) {
    let p = s.push(x);
    assert forall|y: NodeID| #![trigger p.to_set().contains(y)] p.to_set().contains(y) <==> s.to_set().insert(x).contains(y) by {
        if p.contains(y) { let i = choose|i: int| #![trigger p[i]] 0 <= i < p.len() && p[i] == y; if i < s.len() { assert(s[i] == y); } }
        if s.contains(y) { let i = choose|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i] == y; assert(p[i] == y); }
        if y == x { assert(p[s.len() as int] == y); }
    }
}
proof fn lemma_inverse_overlap(o: Overlap, i: Overlap, g: AnnotationGraph)
    requires o.wf(), o.tok_helper.of(g), i.tok_helper.of(g), i.reflexive == o.reflexive
    ensures i.wf(), forall|a: NodeID, b: NodeID| #![trigger i.accepts(a, b)] i.accepts(a, b) == o.accepts(b, a),
{
    broadcast use axiom_helper;
    let (h, k) = (o.tok_helper, i.tok_helper);
    assert(h.cov_edges@ == k.cov_edges@);
    assert forall|n: NodeID| #![trigger k.tok(n)] k.tok(n) == h.tok(n) by { assert(k.covers_any(n) == h.covers_any(n)); assert(k.node_annos.is_labelled(n) == h.node_annos.is_labelled(n)); }
    assert forall|n: NodeID, t: NodeID| #![trigger k.cov_edge(n, t)] k.cov_edge(n, t) == h.cov_edge(n, t) by {}
    assert forall|n: NodeID, t: NodeID| #![trigger k.cov_edge(n, t)] k.cov_edge(n, t) implies k.tok(t) && !k.tok(n) by { assert(h.cov_edge(n, t)); assert(k.covers_any(n)); }
    assert forall|a: NodeID, b: NodeID| #![trigger i.accepts(a, b)] i.accepts(a, b) == o.accepts(b, a) by {
        if i.accepts(a, b) && !(i.reflexive && a == b) {
            let t = choose|t: NodeID| #![trigger k.covers(b, t)] i.token_of(a, t) && k.covers(b, t);
            assert(h.cov_edge(a, t) == k.cov_edge(a, t) && h.cov_edge(b, t) == k.cov_edge(b, t));
            assert(h.tok(t));
            assert(o.token_of(b, t) && h.covers(a, t));
        }
        if o.accepts(b, a) && !(i.reflexive && a == b) {
            let t = choose|t: NodeID| #![trigger h.covers(a, t)] o.token_of(b, t) && h.covers(a, t);
            assert(h.cov_edge(a, t) == k.cov_edge(a, t) && h.cov_edge(b, t) == k.cov_edge(b, t));
            assert(h.tok(t));
            assert(i.token_of(a, t) && k.covers(b, t));
        }
    }
}
// ---- arity -----------------------------------------------------------------------------------------
//@item src=graphannis/src/annis/db/aql/operators/arity.rs item="struct ArityOperator"
//@rewrite Arc<dyn GraphStorage> => Gs
//@rewrite (?m)^    (\w+): => pub $1:
//@rewrite struct => pub struct
impl ArityOperator {
    /// the children of a node in all components
    pub open spec fn children(&self, n: NodeID, k: int) -> Set<NodeID> decreases k {
        if k <= 0 { Set::empty() } else { self.children(n, k - 1).union(self.graphstorages@[k - 1].out_seq(n).to_set()) }
    }
    pub open spec fn accepts(&self, n: NodeID) -> bool {
        let c = self.children(n, self.graphstorages@.len() as int).len();
        self.allowed_range.lo() <= c && match self.allowed_range.hi() { Bound::Included(m) => c <= m, Bound::Excluded(m) => c < m, Bound::Unbounded => true }
    }
//@fn src=graphannis/src/annis/db/aql/operators/arity.rs item="UnaryOperator for ArityOperator::filter_match"
//@rewrite gs\.get_outgoing_edges\(m\.node\) => gs.get_outgoing_edges(m.node).into_iter()
//@rewrite std::ops::Bound => Bound
//@rewrite let mut children: FxHashSet<NodeID> = FxHashSet::default\(\) => let mut children = NodeSet::default()
//@forname 0 it
//@forname 1 jt
//@spec
    ensures ret matches Ok(b) ==> b == self.accepts(m.node),
//@loop 0
    invariant it.seq().len() == self.graphstorages@.len(), forall|i: int| #![trigger it.seq()[i]] 0 <= i < it.seq().len() ==> *it.seq()[i] == self.graphstorages@[i],
        children@ == self.children(m.node, it.index()),
//@at loop_start 0
            let ghost before = children@;
            proof { let _ = it.seq()[it.index()]; }
//@loop 1
    invariant lists(jt.seq(), gs.out_seq(m.node)), children@ == before.union(gs.out_seq(m.node).take(jt.index()).to_set()),
        forall|k: int| #![trigger jt.seq()[k]] 0 <= k < jt.index() ==> jt.seq()[k] is Ok,
//@at loop_start 1
                proof {
                    let k = jt.index();
                    let s = gs.out_seq(m.node);
                    let _ = jt.seq()[k];
                    assert(s.take(k + 1) =~= s.take(k).push(s[k]));
                    lemma_push_set(s.take(k), s[k]);
                    assert(before.union(s.take(k + 1).to_set()) =~= before.union(s.take(k).to_set()).insert(s[k]));
                }
//@at after_loop 1
            proof { assert(gs.out_seq(m.node).take(gs.out_seq(m.node).len() as int) =~= gs.out_seq(m.node)); }
//@end
}

impl<'a> Overlap<'a> {
    /// tokens of the node in one of the coverage components
    pub open spec fn tokens_in(&self, a: NodeID, j: int, t: NodeID) -> bool { if self.tok_helper.tok(a) { t == a } else { self.tok_helper.cov_edges@[j].out_seq(a).contains(t) } }
    pub open spec fn sound(&self, a: NodeID, r: Set<NodeID>) -> bool { forall|n: NodeID| #![trigger r.contains(n)] r.contains(n) ==> self.accepts(a, n) }
    pub open spec fn has_covering(&self, r: Set<NodeID>, t: NodeID) -> bool { forall|n: NodeID| #![trigger r.contains(n)] #![trigger self.tok_helper.covers(n, t)] self.tok_helper.covers(n, t) ==> r.contains(n) }
    pub open spec fn done(&self, a: NodeID, r: Set<NodeID>, j: int) -> bool { forall|k: int, t: NodeID| #![trigger self.tokens_in(a, k, t)] 0 <= k < j && self.tokens_in(a, k, t) ==> self.has_covering(r, t) }
//@fn src=graphannis/src/annis/db/aql/operators/overlap.rs item="BinaryOperatorIndex for Overlap::retrieve_matches"
//@rewrite (?s)let covered: Box<dyn Iterator<Item\s=\sResult<NodeID>>> => let covered: It<Result<NodeID>>
//@rewrite (?s)\s*\.map\(\|m\| m\.map_err\(GraphAnnisError::from\)\) =>
//@rewrite (?s)\.fuse\(\),\s*\) => .fuse())
//@rewrite (for t in\s.{0,20}?)covered\b => ${1}covered.into_iter()
//@rewrite gs_cov\.get_ingoing_edges\(t\) => gs_cov.get_ingoing_edges(t).into_iter()
//@rewrite (?s)Box::new\(result.into_iter\(\).map\(\|n\| \{(.*?)\n        \}\)\) => let ghost rs = result@; let rl = result.into_iter(); let ghost l = rl@; let rr = rl.map(|n: NodeID| -> (o: Result<Match>) ensures o is Ok && o->Ok_0.node == n {${1} }); proof { self.lemma_listing(lhs.node, rs, l, rr@); } rr
//@rewrite? Box<dyn Iterator<Item\s=\sResult<Match>>(?: \+ 'b)?> => It<Result<Match>>
//@rewrite? Box::new\( => (
//@rewrite? std::iter::empty => it_empty
//@rewrite? std::iter::once => it_once
//@rewrite? try_as_boxed_iter!\((.*)\)(;?\n) => match $1 { Ok(v) => v, Err(e) => return it_err(e) }$2
//@rewrite? DEFAULT_ANNO_KEY.clone\(\) => default_anno_key()
//@rewrite? GraphAnnisError::from\(e\) => e
//@rewrite? std::ops::Bound => Bound
//@rewrite? FxHashSet(?:<NodeID>)? => NodeSet
//@forname 0 it
//@forname 1 jt
//@forname 2 kt
//@forname 3 nt
//@spec
    requires self.wf(),
    ensures partners(ret@, |n: NodeID| self.accepts(lhs.node, n)),
//@at fn_start
        proof { assert(self.tok_helper.covers(lhs.node, lhs.node)); assert(self.tok_helper.tok(lhs.node) ==> self.accepts(lhs.node, lhs.node)); }
//@loop 0
    invariant self.wf(), lhs_is_token == self.tok_helper.tok(lhs.node), it.seq().len() == self.tok_helper.cov_edges@.len(), forall|i: int| #![trigger it.seq()[i]] 0 <= i < it.seq().len() ==> *it.seq()[i] == self.tok_helper.cov_edges@[i],
        self.sound(lhs.node, result@), self.done(lhs.node, result@, it.index()), self.reflexive ==> result@.contains(lhs.node),
//@at loop_start 0
                let ghost i = it.index();
                proof { let _ = it.seq()[i]; let _ = self.tok_helper.cov_edges@[i]; assert(gs_cov.direct()); }
//@at before_loop 1
                let ghost cv = covered@;
                proof {
                    let q = |t: NodeID| self.tokens_in(lhs.node, i, t);
                    if lhs_is_token { assert(cv[0] == Ok::<NodeID, GraphAnnisError>(lhs.node)); assert(lists_all(cv, q)); }
                    else { assert((|t: NodeID| gs_cov.conn(lhs.node, t, 1, Bound::Included(1usize))) =~= q); assert(lists_all(cv, q)); }
                }
//@loop 1
    invariant self.wf(), 0 <= i < self.tok_helper.cov_edges@.len(), lhs_is_token == self.tok_helper.tok(lhs.node), jt.seq() == cv, lists_all(cv, |t: NodeID| self.tokens_in(lhs.node, i, t)),
        self.sound(lhs.node, result@), self.done(lhs.node, result@, i), self.reflexive ==> result@.contains(lhs.node),
        forall|k: int| #![trigger cv[k]] 0 <= k < jt.index() ==> cv[k] is Ok && self.has_covering(result@, cv[k]->Ok_0),
//@at before_loop 2
                    let ghost m = jt.index();
                    proof {
                        assert(cv[m] == Ok::<NodeID, GraphAnnisError>(t));
                        assert((|t: NodeID| self.tokens_in(lhs.node, i, t))(t));
                        assert(self.tokens_in(lhs.node, i, t));
                        assert(self.token_of(lhs.node, t)) by { let _ = self.tok_helper.cov_edges@[i]; }
                    }
//@loop 2
    invariant self.wf(), self.token_of(lhs.node, t), kt.seq().len() == self.tok_helper.cov_edges@.len(), forall|i: int| #![trigger kt.seq()[i]] 0 <= i < kt.seq().len() ==> *kt.seq()[i] == self.tok_helper.cov_edges@[i],
        self.sound(lhs.node, result@), self.done(lhs.node, result@, i), self.reflexive ==> result@.contains(lhs.node),
        forall|k: int| #![trigger cv[k]] 0 <= k < m && k < cv.len() ==> cv[k] is Ok && self.has_covering(result@, cv[k]->Ok_0),
        forall|j: int, n: NodeID| #![trigger self.tok_helper.cov_edges@[j].in_seq(t).contains(n)] 0 <= j < kt.index() && self.tok_helper.cov_edges@[j].in_seq(t).contains(n) ==> result@.contains(n),
//@at loop_start 2
                        let ghost c = kt.index();
                        proof { let _ = kt.seq()[c]; let _ = self.tok_helper.cov_edges@[c]; }
//@loop 3
    invariant self.wf(), self.token_of(lhs.node, t), 0 <= c < self.tok_helper.cov_edges@.len(), *gs_cov == self.tok_helper.cov_edges@[c], gs_cov.dual(),
        lists(nt.seq(), gs_cov.in_seq(t)),
        self.sound(lhs.node, result@), self.done(lhs.node, result@, i), self.reflexive ==> result@.contains(lhs.node),
        forall|k: int| #![trigger cv[k]] 0 <= k < m && k < cv.len() ==> cv[k] is Ok && self.has_covering(result@, cv[k]->Ok_0),
        forall|j: int, n: NodeID| #![trigger self.tok_helper.cov_edges@[j].in_seq(t).contains(n)] 0 <= j < c && self.tok_helper.cov_edges@[j].in_seq(t).contains(n) ==> result@.contains(n),
        forall|k: int| #![trigger gs_cov.in_seq(t)[k]] 0 <= k < nt.index() ==> result@.contains(gs_cov.in_seq(t)[k]),
//@at loop_start 3
                            let ghost before = result@;
                            proof {
                                let s = gs_cov.in_seq(t);
                                assert(nt.seq()[nt.index()] == n);
                                assert(n is Ok ==> s[nt.index()] == n->Ok_0 && s.contains(n->Ok_0));
                                if n is Ok { let x = n->Ok_0; assert(gs_cov.out_seq(x).contains(t)); assert(self.tok_helper.cov_edge(x, t)); assert(self.tok_helper.covers(x, t)); assert(self.accepts(lhs.node, x)); }
                            }
//@at loop_end 3
                            proof { self.lemma_grow(lhs.node, before, result@, i); assert forall|k: int| #![trigger cv[k]] 0 <= k < m && k < cv.len() implies cv[k] is Ok && self.has_covering(result@, cv[k]->Ok_0) by {} }
//@at after_loop 3
                        proof { assert forall|n: NodeID| #![trigger gs_cov.in_seq(t).contains(n)] gs_cov.in_seq(t).contains(n) implies result@.contains(n) by { let k = choose|k: int| 0 <= k < gs_cov.in_seq(t).len() && gs_cov.in_seq(t)[k] == n; assert(result@.contains(gs_cov.in_seq(t)[k])); } }
//@at after_loop 2
                    let ghost before = result@;
                    proof { assert(self.tok_helper.covers(t, t)); assert(self.accepts(lhs.node, t)); }
//@at loop_end 1
                    proof {
                        self.lemma_grow(lhs.node, before, result@, i);
                        assert forall|n: NodeID| #![trigger self.tok_helper.covers(n, t)] self.tok_helper.covers(n, t) implies result@.contains(n) by {
                            if n != t { let j = choose|j: int| #![trigger self.tok_helper.cov_edges@[j]] 0 <= j < self.tok_helper.cov_edges@.len() && self.tok_helper.cov_edges@[j].out_seq(n).contains(t); assert(self.tok_helper.cov_edges@[j].dual()); assert(self.tok_helper.cov_edges@[j].in_seq(t).contains(n)); }
                        }
                        assert(self.has_covering(result@, t));
                    }
//@at after_loop 1
                proof {
                    let q = |t: NodeID| self.tokens_in(lhs.node, i, t);
                    assert forall|k: int, t: NodeID| #![trigger self.tokens_in(lhs.node, k, t)] 0 <= k < i + 1 && self.tokens_in(lhs.node, k, t) implies self.has_covering(result@, t) by {
                        if k == i { assert(q(t)); let x = choose|x: int| #![trigger cv[x]] 0 <= x < cv.len() && cv[x] == Ok::<NodeID, GraphAnnisError>(t); }
                    }
                }
//@end
    proof fn lemma_grow(&self, a: NodeID, x: Set<NodeID>, y: Set<NodeID>, j: int)
        requires x.subset_of(y), self.done(a, x, j) ensures self.done(a, y, j), forall|t: NodeID| #![trigger self.has_covering(y, t)] self.has_covering(x, t) ==> self.has_covering(y, t)
    {
        assert forall|t: NodeID| #![trigger self.has_covering(y, t)] self.has_covering(x, t) implies self.has_covering(y, t) by {
            assert forall|n: NodeID| #![trigger y.contains(n)] #![trigger self.tok_helper.covers(n, t)] self.tok_helper.covers(n, t) implies y.contains(n) by { assert(x.contains(n)); }
        }
    }
    proof fn lemma_listing(&self, a: NodeID, s: Set<NodeID>, l: Seq<NodeID>, r: Seq<Result<Match>>)
        requires self.wf(), self.sound(a, s), self.reflexive ==> s.contains(a),
            (self.tok_helper.tok(a) && self.tok_helper.cov_edges@.len() == 0 && s.contains(a)) || (!(self.tok_helper.tok(a) && self.tok_helper.cov_edges@.len() == 0) && self.done(a, s, self.tok_helper.cov_edges@.len() as int)),
            forall|i: int| #![trigger l[i]] 0 <= i < l.len() ==> s.contains(l[i]),
            forall|n: NodeID| #![trigger s.contains(n)] s.contains(n) ==> exists|i: int| #![trigger l[i]] 0 <= i < l.len() && l[i] == n,
            r.len() == l.len(), forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> r[i] is Ok && r[i]->Ok_0.node == l[i],
        ensures partners(r, |n: NodeID| self.accepts(a, n)),
    {
        let p = |n: NodeID| self.accepts(a, n);
        let h = self.tok_helper;
        assert forall|i: int| #![trigger r[i]] 0 <= i < r.len() implies (r[i] matches Ok(x) ==> p(x.node)) by { assert(s.contains(l[i])); }
        assert forall|n: NodeID| #![trigger p(n)] p(n) implies exists|i: int| #![trigger r[i]] 0 <= i < r.len() && r[i] is Ok && r[i]->Ok_0.node == n by {
            if !(self.reflexive && a == n) {
                let t = choose|t: NodeID| #![trigger h.covers(n, t)] self.token_of(a, t) && h.covers(n, t);
                if h.tok(a) {
                    if h.cov_edges@.len() > 0 { assert(self.tokens_in(a, 0, t)); assert(self.has_covering(s, t)); }
                } else {
                    let j = choose|j: int| #![trigger h.cov_edges@[j]] 0 <= j < h.cov_edges@.len() && h.cov_edges@[j].out_seq(a).contains(t);
                    assert(self.tokens_in(a, j, t)); assert(self.has_covering(s, t));
                }
            }
            assert(s.contains(n));
            let i = choose|i: int| #![trigger l[i]] 0 <= i < l.len() && l[i] == n;
            let _ = r[i];
        }
    }
}

// ---- inclusion -------------------------------------------------------------------------------------
//@item src=graphannis/src/annis/db/aql/operators/inclusion.rs item="struct Inclusion"
//@rewrite Arc<dyn GraphStorage> => Gs
//@rewrite (?m)^    (\w+): => pub $1:
//@item src=graphannis/src/annis/db/aql/operators/inclusion.rs item="enum NodeType"
//@rewrite ^(?s)(.*?)enum NodeType => ${1}pub enum NodeType
impl<'a> Inclusion<'a> {
    pub open spec fn wf(&self) -> bool {
        self.tok_helper.aligned_wf() && self.tok_helper.left_edges.dual() && order_wf(self.gs_order, self.tok_helper) && self.gs_order.linear()
    }
    pub open spec fn within(&self, s: NodeID, e: NodeID, l: usize, b: NodeID) -> bool {
        let h = self.tok_helper;
        h.left(b) matches Some(sb) && h.right(b) matches Some(eb) && self.gs_order.conn(s, sb, 0, Bound::Included(l)) && self.gs_order.conn(eb, e, 0, Bound::Included(l))
    }
    /// the tokens of the second node lie between the first and last token of the first one
    pub open spec fn accepts(&self, a: NodeID, b: NodeID) -> bool {
        let h = self.tok_helper;
        h.left(a) matches Some(s) && h.right(a) matches Some(e) && self.gs_order.dist(s, e) matches Some(l) && self.within(s, e, l, b)
    }
//@fn src=graphannis/src/annis/db/aql/operators/inclusion.rs item="BinaryOperatorBase for Inclusion::filter_match"
//@rewrite std::ops::Bound => Bound
//@spec
    ensures ret matches Ok(b) ==> b == self.accepts(lhs.node, rhs.node),
//@end
    /// the token, or a node that starts there
    pub open spec fn ex(&self) -> spec_fn(NodeID, NodeType) -> bool {
        |t: NodeID, x: NodeType| match x { NodeType::Token(n) => n == t, NodeType::Other(n) => self.tok_helper.left_edges.in_seq(t).contains(n) }
    }
//@fn src=graphannis/src/annis/db/aql/operators/inclusion.rs item="BinaryOperatorIndex for Inclusion::retrieve_matches"
//@rewrite Box<dyn Iterator<Item\s=\sResult<Match>> \+ 'b> => It<Result<Match>>
//@rewrite try_as_boxed_iter!\((.*)\)(;?\n) => match $1 { Ok(v) => v, Err(e) => return it_err(e) }$2
//@rewrite std::ops::Bound => Bound
//@rewrite GraphAnnisError::from\(e\) => e
//@rewrite DEFAULT_ANNO_KEY.clone\(\) => default_anno_key()
//@rewrite (?s)let candidates = overlapped_token(.*?)\.flatten_ok\(\)(.*?)\.map\( => let ghost r0 = overlapped_token@; let r1 = overlapped_token$1; let ghost g1 = r1@; let r2 = r1.flatten_ok(); let ghost g2 = r2@; let candidates = r2.map(
//@rewrite (?s)\.map_ok\(move \|t\| \{(.*?)\.map_ok\(NodeType::Other\);(.*?)std::iter::once\(Ok\(NodeType::Token\(t\)\)\)\.chain\(others\)\s*\} => .map_ok(move |t: NodeID| -> (o: It<Result<NodeType>>) ensures lists_all(o@, |n: NodeType| (self.ex())(t, n)) {${1}; let ghost l0 = others@; let others = others.map_ok(|n: NodeID| -> (x: NodeType) ensures x == NodeType::Other(n) { NodeType::Other(n) });${2} proof { lemma_token_and_others(*self, t, l0, others@); } it_once(Ok(NodeType::Token(t))).chain(others) }
//@rewrite (?s)\.map\(\|c\| match c \{(.*?)\}\); => .map(|c: Result<Result<NodeType>>| -> (o: Result<NodeType>) ensures match c { Ok(Ok(n)) => o == Ok::<NodeType, GraphAnnisError>(n), _ => o is Err } { match c {$1} }); let ghost g3 = candidates@;
//@rewrite (?s)let result = candidates\s*\.map\(move \|n\| \{(.*?)\}\)(?:\s|//[^\n]*)*\.filter_map_ok\(\|n\| n\)\s*\.map_ok\(\|n\| Match \{(.*?)\}\); => let g4i = candidates.map(move |n: Result<NodeType>| -> (o: Result<Option<NodeID>>) ensures match n { Ok(x) => o matches Ok(y) ==> y == self.checked(end_lhs, l, x), Err(_) => o is Err } {$1}); let ghost g4 = g4i@; let g5i = g4i.filter_some_ok(); let ghost g5 = g5i@; let result = g5i.map_ok(|n: NodeID| -> (o: Match) ensures o.node == n { Match { $2 } }); proof { self.lemma_listing(lhs.node, start_lhs, end_lhs, l, r0, g1, g2, g3, g4, g5, result@); }
//@rewrite Box::new\(result\) => result
//@rewrite Box::new\(std::iter::empty\(\)\) => it_empty()
//@spec
    requires self.wf(),
    ensures partners(ret@, |n: NodeID| self.accepts(lhs.node, n)),
//@end
    pub open spec fn checked(&self, e: NodeID, l: usize, x: NodeType) -> Option<NodeID> {
        match x { NodeType::Token(t) => Some(t), NodeType::Other(n) => if first(self.tok_helper.right_edges.out_seq(n)) matches Some(r) && self.gs_order.conn(r, e, 0, Bound::Included(l)) { Some(n) } else { None } }
    }
    proof fn lemma_listing(&self, a: NodeID, s: NodeID, e: NodeID, l: usize, r0: Seq<Result<NodeID>>, g1: Seq<Result<It<Result<NodeType>>>>, g2: Seq<Result<Result<NodeType>>>, g3: Seq<Result<NodeType>>, g4: Seq<Result<Option<NodeID>>>, g5: Seq<Result<NodeID>>, r: Seq<Result<Match>>)
        requires self.wf(), self.tok_helper.left(a) == Some(s), self.tok_helper.right(a) == Some(e), self.gs_order.dist(s, e) == Some(l),
            lists_all(r0, |t: NodeID| self.gs_order.conn(s, t, 0, Bound::Included(l))), expand_ok(r0, g1, self.ex()), flat(g1, g2),
            g3.len() == g2.len(), forall|i: int| #![trigger g3[i]] 0 <= i < g3.len() ==> match g2[i] { Ok(Ok(n)) => g3[i] == Ok::<NodeType, GraphAnnisError>(n), _ => g3[i] is Err },
            g4.len() == g3.len(), forall|i: int| #![trigger g4[i]] 0 <= i < g4.len() ==> match g3[i] { Ok(x) => g4[i] matches Ok(y) ==> y == self.checked(e, l, x), Err(_) => g4[i] is Err },
            forall|k: int| #![trigger g5[k]] 0 <= k < g5.len() ==> (g5[k] matches Ok(n) ==> exists|i: int| #![trigger g4[i]] 0 <= i < g4.len() && g4[i] == Ok::<Option<NodeID>, GraphAnnisError>(Some(n))),
            forall|i: int| #![trigger g4[i]] 0 <= i < g4.len() ==> match g4[i] { Ok(Some(n)) => exists|k: int| #![trigger g5[k]] 0 <= k < g5.len() && g5[k] == Ok::<NodeID, GraphAnnisError>(n), Ok(None) => true, Err(_) => exists|k: int| #![trigger g5[k]] 0 <= k < g5.len() && g5[k] is Err },
            r.len() == g5.len(), forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> match g5[i] { Ok(x) => r[i] is Ok && r[i]->Ok_0.node == x, Err(_) => r[i] is Err },
        ensures partners(r, |n: NodeID| self.accepts(a, n)),
    {
        let p = |n: NodeID| self.accepts(a, n);
        let q = |t: NodeID| self.gs_order.conn(s, t, 0, Bound::Included(l));
        let h = self.tok_helper;
        lemma_expand(r0, g1, g2, q, self.ex());
        assert(h.tok(s) && h.tok(e)) by { if !h.tok(a) { let _ = h.left_edges.out_seq(a); let _ = h.right_edges.out_seq(a); } }
        assert forall|t: NodeID, x: NodeType| #![trigger q(t), (self.ex())(t, x)] q(t) && (self.ex())(t, x) implies match self.checked(e, l, x) { Some(n) => p(n), None => true } by {
            assert(self.gs_order.conn(s, t, 0, Bound::Included(l)));
            assert(h.tok(t));
            assert(self.gs_order.conn(t, e, 0, Bound::Included(l)));
            if let NodeType::Other(n) = x { assert(h.left_edges.out_seq(n).contains(t)); let _ = h.left_edges.out_seq(n); let _ = h.right_edges.out_seq(n); }
        }
        assert forall|i: int| #![trigger r[i]] 0 <= i < r.len() implies (r[i] matches Ok(x) ==> p(x.node)) by {
            if r[i] is Ok {
                let n = r[i]->Ok_0.node;
                assert(g5[i] == Ok::<NodeID, GraphAnnisError>(n));
                let k = choose|k: int| #![trigger g4[k]] 0 <= k < g4.len() && g4[k] == Ok::<Option<NodeID>, GraphAnnisError>(Some(n));
                let _ = g3[k]; let _ = g2[k];
                let x = g2[k]->Ok_0->Ok_0;
                let t = choose|t: NodeID| #![trigger q(t)] q(t) && (self.ex())(t, x);
            }
        }
        if forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> r[i] is Ok {
            assert forall|k: int| #![trigger g5[k]] 0 <= k < g5.len() implies g5[k] is Ok by { let _ = r[k]; }
            assert forall|k: int| #![trigger g4[k]] 0 <= k < g4.len() implies g4[k] is Ok by {}
            assert forall|k: int| #![trigger g2[k]] 0 <= k < g2.len() implies g2[k] is Ok && g2[k]->Ok_0 is Ok by { let _ = g4[k]; let _ = g3[k]; }
            assert forall|n: NodeID| #![trigger p(n)] p(n) implies exists|i: int| #![trigger r[i]] 0 <= i < r.len() && r[i] is Ok && r[i]->Ok_0.node == n by {
                let t = h.left(n)->0;
                let x = if h.tok(n) { NodeType::Token(n) } else { NodeType::Other(n) };
                assert(q(t));
                if !h.tok(n) { assert(h.left_edges.out_seq(n)[0] == t); assert(h.left_edges.out_seq(n).contains(t)); }
                assert((self.ex())(t, x));
                let k = choose|k: int| #![trigger g2[k]] 0 <= k < g2.len() && g2[k] == Ok::<Result<NodeType>, GraphAnnisError>(Ok(x));
                let _ = g3[k]; let _ = g4[k];
                assert(g4[k] == Ok::<Option<NodeID>, GraphAnnisError>(Some(n)));
                let j = choose|j: int| #![trigger g5[j]] 0 <= j < g5.len() && g5[j] == Ok::<NodeID, GraphAnnisError>(n);
                let _ = r[j];
            }
        }
    }
}
proof fn lemma_token_and_others(o: Inclusion, t: NodeID, l: Seq<Result<NodeID>>, m: Seq<Result<NodeType>>)
    requires lists(l, o.tok_helper.left_edges.in_seq(t)), m.len() == l.len(), forall|i: int| #![trigger m[i]] 0 <= i < m.len() ==> match l[i] { Ok(x) => m[i] == Ok::<NodeType, GraphAnnisError>(NodeType::Other(x)), Err(_) => m[i] is Err },
    ensures lists_all(seq![Ok::<NodeType, GraphAnnisError>(NodeType::Token(t))] + m, |x: NodeType| (o.ex())(t, x)),
{
    let r = seq![Ok::<NodeType, GraphAnnisError>(NodeType::Token(t))] + m;
    let p = |x: NodeType| (o.ex())(t, x);
    let s = o.tok_helper.left_edges.in_seq(t);
    assert(r[0] == Ok::<NodeType, GraphAnnisError>(NodeType::Token(t)));
    assert forall|i: int| #![trigger r[i]] 0 <= i < r.len() implies (r[i] matches Ok(x) ==> p(x)) by {
        if i > 0 { assert(r[i] == m[i - 1]); let _ = l[i - 1]; if r[i] is Ok { assert(s[i - 1] == l[i - 1]->Ok_0); assert(s.contains(s[i - 1])); } }
    }
    if forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> r[i] is Ok {
        assert forall|x: NodeType| #![trigger p(x)] p(x) implies exists|i: int| #![trigger r[i]] 0 <= i < r.len() && r[i] == Ok::<NodeType, GraphAnnisError>(x) by {
            match x {
                NodeType::Token(n) => {}
                NodeType::Other(n) => {
                    let k = choose|k: int| 0 <= k < s.len() && s[k] == n;
                    assert(r[k + 1] == m[k]); let _ = l[k];
                }
            }
        }
    }
}
} // verus!
