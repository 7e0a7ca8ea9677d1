// Verus unit: joins, filters and the combination of alternatives deliver exactly the accepted combinations
#![allow(unused)]
use vstd::prelude::*;
use std::ops::Bound;
use std::sync::Arc;
verus! {
global size_of usize == 8;
//@include opslib.inc
//@include joinlib.inc
//@item src=graphannis/src/annis/db/exec/nestedloop.rs item="struct NestedLoop"
//@rewrite NestedLoop<'a> => NestedLoop
//@rewrite Peekable<Box<dyn ExecutionNode<Item = Result<MatchGroup>> \+ 'a>> => Peek<Result<MatchGroup>>
//@rewrite Box<dyn ExecutionNode<Item = Result<MatchGroup>> \+ 'a> => Exec
//@rewrite BinaryOperator<'a> => Op
//@rewrite (?m)^    ([a-z]\w*): => pub $1:
impl NestedLoop {
    pub open spec fn cfg(&self) -> NlCfg { NlCfg { op: self.op, ii: self.inner_idx as int, oi: self.outer_idx as int, left_is_outer: self.left_is_outer, global: self.global_reflexivity } }
    pub open spec fn inner_all(&self) -> Groups { ok_groups(self.inner_cache@) + self.inner@ }
    pub open spec fn wf(&self) -> bool {
        &&& long(self.outer@, self.outer_idx as int) && long(self.inner_all(), self.inner_idx as int)
        &&& self.pos_inner_cache matches Some(p) ==> p <= self.inner_cache@.len() && self.inner@.len() == 0
    }
    pub open spec fn todo(&self) -> Groups { match self.pos_inner_cache { Some(p) => self.inner_all().skip(p as int), None => self.inner@ } }
    pub open spec fn rest(&self) -> Seq<Option<Seq<Match>>> { self.cfg().rest(self.outer@, self.todo(), self.inner_all()) }
//@fn src=graphannis/src/annis/db/exec/nestedloop.rs item=NestedLoop::new ret=ret
//@rewrite BinaryOperatorEntry<'a> => BinaryOperatorEntry
//@rewrite NestedLoop<'a> => NestedLoop
//@rewrite Box<dyn ExecutionNode<Item = Result<MatchGroup>> \+ 'a> => Exec
//@rewrite (?s)let processed_func = .*?\n        \}; =>
//@rewrite (?s)&format!\(.*?\),\s*&processed_func, => "",
//@spec
    requires long(lhs@, lhs_idx as int), long(rhs@, rhs_idx as int),
        layout(desc_of(lhs), desc_of(lhs).dom().len()), layout(desc_of(rhs), desc_of(rhs).dom().len()), desc_of(lhs).dom().len() + desc_of(rhs).dom().len() <= usize::MAX,
    ensures ret matches Ok(j) ==> j.wf() && {
            let (o, i) = if j.left_is_outer { (lhs, rhs) } else { (rhs, lhs) };
            &&& j.outer@ == o@ && j.inner_all() =~= i@ && j.rest() =~= j.cfg().product(o@, i@)
            &&& j.desc.node_pos@ == joined_pos(desc_of(o), desc_of(i), desc_of(o).dom().len()) && (o.d matches Some(x) ==> j.desc.component_nr == x.component_nr)
            &&& j.cfg() == (NlCfg { op: op_entry.op, oi: if j.left_is_outer { lhs_idx as int } else { rhs_idx as int }, ii: if j.left_is_outer { rhs_idx as int } else { lhs_idx as int }, left_is_outer: j.left_is_outer, global: op_entry.args.global_reflexivity })
        },
//@end
#[verifier::rlimit(60)]
#[verifier::loop_isolation(false)]
//@fn src=graphannis/src/annis/db/exec/nestedloop.rs item="Iterator for NestedLoop::next" ret=ret desugar_for=2
//@rewrite (-> \(ret: )?Option<Self::Item> => ${1}Option<Result<MatchGroup>>
//@rewrite try_as_option!\((\w+)\) => match $1 { Ok(v) => v, Err(e) => return Some(Err(e)) }
//@rewrite \[(self\.(?:inner|outer)_idx)\] => .v[$1]
//@rewrite? different_to_all\(([&\w]+)\) => different_to_all(slice($1))
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).cfg() == old(self).cfg(),
        step(ret, old(self).rest(), final(self).rest()),
//@loop 0
    invariant self.wf(), self.cfg() == old(self).cfg(), self.rest() == old(self).rest(),
    decreases self.outer@.len(),
//@loop 1
    invariant self.wf(), self.cfg() == old(self).cfg(), self.rest() == old(self).rest(), self.pos_inner_cache == Some(cache_pos), cache_pos <= self.inner_cache@.len(),
        self.outer@.len() > 0, self.outer@[0] == Ok::<MatchGroup, GraphAnnisError>(*m_outer),
    decreases self.inner_cache@.len() - cache_pos,
//@at loop_start 1
    proof {
        let t = self.todo();
        lemma_step_row(self.cfg(), self.outer@, t, self.inner_all());
        assert(t.drop_first() =~= self.inner_all().skip(cache_pos + 1));
        assert(self.inner_all()[cache_pos as int] == t[0]);
    }
//@loop 2
    invariant self.wf(), self.cfg() == old(self).cfg(), self.rest() == old(self).rest(), self.pos_inner_cache is None,
        self.outer@.len() > 0, self.outer@[0] == Ok::<MatchGroup, GraphAnnisError>(*m_outer),
        gi == self.inner@, gc == self.inner_cache@,
    decreases self.inner@.len(),
//@at before_loop 2
    let ghost mut gi = self.inner@; let ghost mut gc = self.inner_cache@;
//@at loop_start 2
    proof {
        assert(self.inner@ =~= gi.drop_first());
        let all = ok_groups(gc) + gi;
        assert(all[gc.len() as int] == gi[0]);
        lemma_step_row(self.cfg(), self.outer@, gi, all);
        if gi[0] is Ok { lemma_cached(gc, gi, gi[0]->Ok_0); }
        assert forall|i: int| #![trigger self.inner_all()[i]] 0 <= i < self.inner_all().len() implies (self.inner_all()[i] matches Ok(m) ==> m@.len() > self.inner_idx) by {
            if i < gc.len() { assert(self.inner_all()[i] == all[i]); } else { assert(self.inner_all()[i] == all[i + 1]); }
        }
    }
//@at after_call push 0
    proof { gi = self.inner@; gc = self.inner_cache@; }
//@at loop_end 0
    proof { assert(self.inner_all().skip(0) =~= self.inner_all()); }
//@at after_loop 2
    proof {
        lemma_end_row(self.cfg(), self.outer@, self.inner@, self.inner_all());
    }
//@at after_loop 1
    proof {
        assert(self.todo().len() == 0);
        lemma_end_row(self.cfg(), self.outer@, self.todo(), self.inner_all());
    }
//@end
}

// ---- index join --------------------------------------------------------------------------------
//@fn src=graphannis/src/annis/db/exec/indexjoin.rs item=retrieve_candidates ret=ret
//@rewrite pub\(super\) => pub
//@rewrite &dyn BinaryOperatorIndex => &Op
//@rewrite &dyn NodeAnnotationStorage => &NodeAnnos
//@rewrite (?s)let it_nodes = (op\.retrieve_matches\(m_lhs\)\.fuse\(\))\.map\(.*?\n    \}\);\s*let it_nodes: Box<.*?,?\s*> = Box::from\(it_nodes\); => let it_nodes = $1; let ghost g0 = it_nodes@; proof { lemma_nodes(g0, op.partner_seq(*m_lhs)); }
//@rewrite (?s)node_annos\.get_keys_for_iterator\(\s*node_search_desc\.qname\.0\.as_deref\(\),\s*node_search_desc\.qname\.1\.as_deref\(\),\s*it_nodes,\s*\) => keys_for(node_annos, &node_search_desc.qname, it_nodes)
//@rewrite Vec::with_capacity\([^;]*\); => Vec::<Match>::new();
//@rewrite HashSet::new => MatchSet::new
//@forname 0 CIT
//@spec
    ensures ret matches Ok(v) ==> v@ == candidates(*op, *node_annos, qview(node_search_desc.qname), *m_lhs),
//@at before_loop 0
    let ghost c0 = candidates@;
//@loop 0
    invariant CIT.seq() == c0, result@ == accepted_once(*op, *m_lhs, c0.take(CIT.index())), forall|x: Match| #![trigger visited.has(x)] visited.has(x) == has_same(result@, x),
//@at loop_start 0
    let ghost r0 = result@;
    proof {
        assert(c0.take(CIT.index() + 1).drop_last() =~= c0.take(CIT.index()));
        assert(c0.take(CIT.index() + 1).last() == m_rhs);
    }
//@at loop_end 0
    proof {
        assert forall|x: Match| #![trigger visited.has(x)] visited.has(x) == has_same(result@, x) by {
            if result@ != r0 {
                assert(result@ == r0.push(m_rhs));
                assert(result@[r0.len() as int] == m_rhs);
                if has_same(r0, x) { let i = choose|i: int| #![trigger r0[i]] 0 <= i < r0.len() && same(r0[i], x); assert(same(result@[i], x)); }
                if has_same(result@, x) { let i = choose|i: int| #![trigger result@[i]] 0 <= i < result@.len() && same(result@[i], x); if i < r0.len() { assert(same(r0[i], x)); } }
            }
        }
    }
//@at after_loop 0
    proof { assert(c0.take(c0.len() as int) =~= c0); }
//@end

pub fn next_of(c: &mut Option<Peek<Match>>) -> (r: Option<Match>)
    requires (*old(c)) is Some,
    ensures (*final(c)) is Some, r is None <==> (*old(c))->0@.len() == 0, r is None ==> (*final(c))->0@ == (*old(c))->0@, r matches Some(x) ==> x == (*old(c))->0@[0] && (*final(c))->0@ == (*old(c))->0@.drop_first(),
{ match c { Some(p) => p.next(), None => None } }
pub fn peek_of(c: &Option<Peek<Match>>) -> (r: Option<&Match>)
    requires c is Some,
    ensures match r { Some(x) => c->0@.len() > 0 && *x == c->0@[0], None => c->0@.len() == 0 },
{ match c { Some(p) => p.peek(), None => None } }
//@item src=graphannis/src/annis/db/exec/indexjoin.rs item="struct IndexJoin"
//@rewrite IndexJoin<'a> => IndexJoin
//@rewrite Peekable<Box<dyn ExecutionNode<Item = Result<MatchGroup>> \+ 'a>> => Peek<Result<MatchGroup>>
//@rewrite Peekable<std::vec::IntoIter<Match>> => Peek<Match>
//@rewrite Box<dyn BinaryOperatorIndex \+ 'a> => Op
//@rewrite &'a dyn NodeAnnotationStorage => Arc<NodeAnnos>
//@rewrite (?m)^    ([a-z]\w*): => pub $1:
impl IndexJoin {
    pub open spec fn cfg(&self) -> IjCfg { IjCfg { op: self.op, idx: self.lhs_idx as int, desc: *self.node_search_desc, annos: *self.node_annos, global: self.global_reflexivity } }
    pub open spec fn wf(&self) -> bool { long(self.lhs@, self.lhs_idx as int) }
    pub open spec fn cand(&self) -> Option<Seq<Match>> { match self.rhs_candidate { Some(c) => Some(c@), None => None } }
    pub open spec fn rest(&self) -> Seq<Option<Seq<Match>>> { self.cfg().rest(self.lhs@, self.cand()) }
//@fn src=graphannis/src/annis/db/exec/indexjoin.rs item=IndexJoin::new ret=ret
//@rewrite IndexJoin<'a> => IndexJoin
//@rewrite Box<dyn ExecutionNode<Item = Result<MatchGroup>> \+ 'a> => Exec
//@rewrite Box<dyn BinaryOperatorIndex \+ 'a> => Op
//@rewrite &'a dyn NodeAnnotationStorage => Arc<NodeAnnos>
//@rewrite lhs\.get_desc\(\)\.cloned\(\) => lhs.desc_cloned()
//@rewrite lhs_desc\.as_ref\(\) => desc_ref(&lhs_desc)
//@rewrite (?s)let processed_func = .*?\n        \}; =>
//@rewrite (?s)&format!\(.*?\),\s*&processed_func, => "",
//@spec
    requires long(lhs@, lhs_idx as int), layout(desc_of(lhs), desc_of(lhs).dom().len()), layout(pos_of(rhs_desc), pos_of(rhs_desc).dom().len()), desc_of(lhs).dom().len() + pos_of(rhs_desc).dom().len() <= usize::MAX,
    ensures ret matches Ok(j) ==> j.wf() && j.lhs@ == lhs@ && j.rest() == j.cfg().all(lhs@)
        && j.cfg() == (IjCfg { op, idx: lhs_idx as int, desc: *node_search_desc, annos: *node_annos, global: op_args.global_reflexivity })
        && j.desc.node_pos@ == joined_pos(desc_of(lhs), pos_of(rhs_desc), desc_of(lhs).dom().len()) && (lhs.d matches Some(x) ==> j.desc.component_nr == x.component_nr),
//@end
//@fn src=graphannis/src/annis/db/exec/indexjoin.rs item=IndexJoin::next_candidates ret=ret
//@rewrite \[(self\.lhs_idx)\] => .v[$1]
//@rewrite self\.node_annos, => &self.node_annos,
//@spec
    requires old(self).wf(),
    ensures *final(self) == *old(self),
        ret matches Ok(c) ==> match c { Some(c) => old(self).lhs@.len() > 0 && old(self).lhs@[0] is Ok && c@ == old(self).cfg().cands(old(self).lhs@[0]->Ok_0@), None => old(self).lhs@.len() == 0 || old(self).lhs@[0] is Err },
//@end
#[verifier::rlimit(60)]
#[verifier::allow_complex_invariants]
#[verifier::loop_isolation(false)]
//@fn src=graphannis/src/annis/db/exec/indexjoin.rs item="Iterator for IndexJoin::next" ret=ret
//@rewrite Option<Self::Item> => Option<Result<MatchGroup>>
//@rewrite try_as_option!\((self\.next_candidates\(\))\) => match $1 { Ok(v) => v, Err(e) => return Some(Err(e)) }
//@rewrite try_as_option!\(\(f\)\(&m_rhs, self\.node_annos\)\) => match f.check(&m_rhs, &self.node_annos) { Ok(v) => v, Err(e) => return Some(Err(e)) }
//@rewrite (\w+)\.map\(\|c\| c\.into_iter\(\)\.peekable\(\)\) => peekable_opt($1)
//@rewrite let rhs_candidate = self\.rhs_candidate\.as_mut\(\)\?; => if self.rhs_candidate.is_none() { return None; }
//@rewrite rhs_candidate\.next\(\) => next_of(&mut self.rhs_candidate)
//@rewrite rhs_candidate\.peek\(\) => peek_of(&self.rhs_candidate)
//@rewrite \[(self\.lhs_idx)\] => .v[$1]
//@rewrite? different_to_all\(([&\w]+)\) => different_to_all(slice($1))
//@rewrite \((\w+)\.node, (\w+)\.clone\(\)\)\.into\(\) => Match { node: $1.node, anno_key: $2.clone() }
//@rewrite for f in &self\.node_search_desc\.cond \{ => let mut k: usize = 0; while k < self.node_search_desc.cond.len() invariant_except_break k <= self.node_search_desc.cond@.len(), filter_result, forall|i: int| #![trigger self.node_search_desc.cond@[i]] 0 <= i < k ==> self.node_search_desc.cond@[i].accepts(m_rhs) ensures filter_result == self.cfg().cond_ok(m_rhs) decreases self.node_search_desc.cond@.len() - k { let f = &self.node_search_desc.cond[k]; k = k + 1;
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).cfg() == old(self).cfg(),
        step(ret, old(self).rest(), final(self).rest()),
//@at before_loop 0
    proof { if self.lhs@.len() > 0 { lemma_ij_end(self.cfg(), self.lhs@); } }
//@loop 0
    invariant self.wf(), self.cfg() == old(self).cfg(), self.rest() == old(self).rest(), self.rhs_candidate is None ==> self.lhs@.len() == 0 || self.lhs@[0] is Err,
    decreases self.lhs@.len(),
//@at before_loop 1
    let ghost mut gc = self.rhs_candidate->0@;
//@loop 1
    invariant self.wf(), self.cfg() == old(self).cfg(), self.rest() == old(self).rest(), self.rhs_candidate is Some, gc == self.rhs_candidate->0@,
        self.lhs@.len() > 0, self.lhs@[0] == Ok::<MatchGroup, GraphAnnisError>(*m_lhs),
    decreases gc.len(),
//@at loop_start 1
    proof { lemma_ij_step(self.cfg(), self.lhs@, gc); }
    let ghost found = m_rhs;
//@at loop_end 1
    proof { gc = self.rhs_candidate->0@; }
//@loop 3
    invariant self.wf(), self.cfg() == old(self).cfg(), self.rhs_candidate is Some, self.cfg().desc.const_output is Some,
        self.lhs@.len() > 0, self.lhs@[0] == Ok::<MatchGroup, GraphAnnisError>(*m_lhs),
        self.cfg().row(m_lhs@, self.rhs_candidate->0@, Some(matched_node)) == self.cfg().row(m_lhs@, gc.drop_first(), Some(matched_node)),
    ensures self.rhs_candidate->0@.len() == 0 || self.rhs_candidate->0@[0].node != matched_node,
    decreases self.rhs_candidate->0@.len(),
//@at after_loop 3
    proof { assert(self.cfg().row(m_lhs@, self.rhs_candidate->0@, Some(matched_node)) == self.cfg().row(m_lhs@, self.rhs_candidate->0@, None)); }
//@at after_loop 1
    proof { assert(self.rhs_candidate->0@ =~= seq![]); lemma_ij_end(self.cfg(), self.lhs@); }
//@at loop_end 0
    proof { if self.lhs@.len() > 0 { lemma_ij_end(self.cfg(), self.lhs@); } }
//@end
}

// ---- filters -----------------------------------------------------------------------------------
/// without the groups that do not fulfil the condition
pub open spec fn kept(s: Groups, p: spec_fn(Seq<Match>) -> bool) -> Groups
    decreases s.len()
{
    if s.len() == 0 { s } else {
        let r = kept(s.drop_last(), p);
        match s.last() { Ok(g) => if p(g@) { r.push(s.last()) } else { r }, Err(_) => r.push(s.last()) }
    }
}
pub open spec fn all_ok<T>(s: Seq<Result<T>>) -> bool { forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> s[i] is Ok }
/// a filter only delivers fitting groups and, if there is no error, all of them in the same order
pub open spec fn filtered(s: Groups, r: Groups, p: spec_fn(Seq<Match>) -> bool) -> bool {
    &&& forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> (r[i] matches Ok(g) ==> p(g@) && s.contains(Ok::<MatchGroup, GraphAnnisError>(g)))
    &&& all_ok(r) ==> r == kept(s, p)
}
/// `filter_map_ok(|t| t)`
pub open spec fn somes(s: Seq<Result<Option<MatchGroup>>>) -> Groups
    decreases s.len()
{
    if s.len() == 0 { seq![] } else {
        let r = somes(s.drop_last());
        match s.last() { Ok(Some(g)) => r.push(Ok(g)), Ok(None) => r, Err(e) => r.push(Err(e)) }
    }
}
pub open spec fn tested(s: Groups, t: Seq<Result<Option<MatchGroup>>>, p: spec_fn(Seq<Match>) -> bool) -> bool {
    s.len() == t.len() && forall|i: int| #![trigger t[i]] 0 <= i < t.len() ==> match s[i] { Err(_) => t[i] is Err, Ok(g) => t[i] matches Ok(x) ==> x == if p(g@) { Some(g) } else { None::<MatchGroup> } }
}
pub proof fn lemma_filter(s: Groups, t: Seq<Result<Option<MatchGroup>>>, p: spec_fn(Seq<Match>) -> bool)
    requires tested(s, t, p),
    ensures filtered(s, somes(t), p), all_ok(somes(t)) ==> all_ok(t) && all_ok(s),
    decreases s.len()
{
    if s.len() == 0 { assert(somes(t) =~= kept(s, p)); }
    if s.len() > 0 {
        let (s0, t0) = (s.drop_last(), t.drop_last());
        assert forall|i: int| #![trigger t0[i]] 0 <= i < t0.len() implies match s0[i] { Err(_) => t0[i] is Err, Ok(g) => t0[i] matches Ok(x) ==> x == if p(g@) { Some(g) } else { None::<MatchGroup> } } by { assert(t0[i] == t[i] && s0[i] == s[i]); }
        lemma_filter(s0, t0, p);
        let (r0, r) = (somes(t0), somes(t));
        let _ = t[t.len() - 1];
        assert(t.last() == t[t.len() - 1] && s.last() == s[s.len() - 1]);
        assert forall|i: int| #![trigger r[i]] 0 <= i < r.len() implies (r[i] matches Ok(g) ==> p(g@) && s.contains(Ok::<MatchGroup, GraphAnnisError>(g))) by {
            if i < r0.len() {
                assert(r[i] == r0[i]);
                if r[i] is Ok { let k = choose|k: int| 0 <= k < s0.len() && s0[k] == r[i]; assert(s[k] == r[i]); }
            } else if r[i] is Ok { assert(s[s.len() - 1] == r[i]); }
        }
        assert(forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> (r[i] matches Ok(g) ==> p(g@) && s.contains(Ok::<MatchGroup, GraphAnnisError>(g))));
        if all_ok(r) {
            assert forall|i: int| #![trigger r0[i]] 0 <= i < r0.len() implies r0[i] is Ok by { assert(r[i] == r0[i]); }
            if t.last() is Err { assert(r[r0.len() as int] is Err); }
            assert forall|i: int| #![trigger t[i]] 0 <= i < t.len() implies t[i] is Ok by { if i < t0.len() { assert(t0[i] == t[i]); } }
            assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies s[i] is Ok by { let _ = t[i]; }
            assert(r0 == kept(s0, p));
            assert(t[t.len() - 1] is Ok && s[s.len() - 1] is Ok);
            let g = s.last()->Ok_0;
            if p(g@) { assert(t.last() == Ok::<Option<MatchGroup>, GraphAnnisError>(Some(g))); assert(r == r0.push(Ok(g))); } else { assert(t.last() == Ok::<Option<MatchGroup>, GraphAnnisError>(None)); assert(r == r0); }
            assert(s.last() == Ok::<MatchGroup, GraphAnnisError>(g));
            assert(r == kept(s, p));
        }
    }
}
impl Exec {
    #[verifier::external_body]
    pub fn map<F: Fn(Result<MatchGroup>) -> Result<Option<MatchGroup>>>(self, f: F) -> (r: It<Result<Option<MatchGroup>>>)
        requires forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() ==> call_requires(f, (self@[i],)),
        ensures r@.len() == self@.len(), forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> call_ensures(f, (self@[i],), r@[i]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn filter_ok<F: Fn(&MatchGroup) -> bool>(self, f: F) -> (r: It<Result<MatchGroup>>)
        requires forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() && self@[i] is Ok ==> call_requires(f, (&self@[i]->Ok_0,)),
        ensures forall|p: spec_fn(Seq<Match>) -> bool| #![trigger kept(self@, p)]
            (forall|g: MatchGroup, b: bool| #![trigger call_ensures(f, (&g,), b)] call_ensures(f, (&g,), b) ==> b == p(g@)) ==> r@ == kept(self@, p),
    { unimplemented!() }
}
impl It<Result<Option<MatchGroup>>> {
    #[verifier::external_body]
    pub fn filter_somes(self) -> (r: It<Result<MatchGroup>>) ensures r@ == somes(self@) { unimplemented!() }
}
/// estimates have no influence on the results
#[verifier::external_body]
pub fn filter_cost(op: &Op, d: &ExecutionNodeDesc) -> Result<Option<CostEstimate>> { unimplemented!() }
#[verifier::external_body]
pub fn filter_cost_unary(op: &UnOp, d: &ExecutionNodeDesc) -> Option<CostEstimate> { unimplemented!() }
/// the description of a filter: places and component stay the same
pub open spec fn kept_place(a: Option<ExecutionNodeDesc>, b: Option<ExecutionNodeDesc>) -> bool { match (a, b) { (Some(x), Some(y)) => x.node_pos == y.node_pos && x.component_nr == y.component_nr, (None, None) => true, _ => false } }
pub struct UnaryOperatorEntry { pub op: UnOp, pub node_nr: usize }
#[verifier::external_body]
pub struct UnOp { x: u8 }
impl UnOp {
    pub uninterp spec fn accepts(&self, a: Match) -> bool;
    #[verifier::external_body]
    pub fn filter_match(&self, m: &Match) -> (r: Result<bool>) ensures r matches Ok(b) ==> b == self.accepts(*m) { unimplemented!() }
}
pub open spec fn pair_kept(op: Op, l: int, r: int) -> spec_fn(Seq<Match>) -> bool { |g: Seq<Match>| op.accepts(g[l], g[r]) }
pub open spec fn node_kept(op: UnOp, i: int) -> spec_fn(Seq<Match>) -> bool { |g: Seq<Match>| op.accepts(g[i]) }
/// operands of an operator differ from each other and, for the whole query, from all other nodes
pub open spec fn arg_ok(a: BinaryOperatorArguments, g: Seq<Match>) -> bool {
    if a.global_reflexivity { a.left != a.right && others_differ(g, a.left as int) && others_differ(g, a.right as int) } else { diff(g[a.left as int], g[a.right as int]) }
}
pub open spec fn others_differ(g: Seq<Match>, i: int) -> bool { forall|j: int| #![trigger g[j]] 0 <= j < g.len() && j != i ==> diff(g[i], g[j]) }
pub open spec fn args_ok(a: Seq<BinaryOperatorArguments>, g: Seq<Match>) -> bool { forall|k: int| #![trigger a[k]] 0 <= k < a.len() ==> arg_ok(a[k], g) }
pub open spec fn refl_kept(a: Seq<BinaryOperatorArguments>) -> spec_fn(Seq<Match>) -> bool { |g: Seq<Match>| args_ok(a, g) }
#[verifier::external_body]
pub fn all_args<F: Fn(&BinaryOperatorArguments) -> bool>(v: &Vec<BinaryOperatorArguments>, f: F) -> (r: bool)
    requires forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() ==> call_requires(f, (&v@[i],)),
    ensures r ==> forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() ==> call_ensures(f, (&v@[i],), true), !r ==> exists|i: int| #![trigger v@[i]] 0 <= i < v@.len() && call_ensures(f, (&v@[i],), false),
{ unimplemented!() }
#[verifier::external_body]
pub fn slice_to(s: &[Match], n: usize) -> (r: &[Match]) requires n <= s@.len() ensures r@ == s@.take(n as int) { unimplemented!() }
#[verifier::external_body]
pub fn slice_from(s: &[Match], n: usize) -> (r: &[Match]) requires n <= s@.len() ensures r@ == s@.skip(n as int) { unimplemented!() }
//@fn src=graphannis/src/annis/db/exec/filter.rs item=different_to_others ret=ret
//@rewrite? &tuple\[\.\.idx\] => slice_to(tuple, idx)
//@rewrite? &tuple\[idx \+ 1\.\.\] => slice_from(tuple, idx + 1)
//@spec
    requires idx < tuple@.len(),
    ensures ret == others_differ(tuple@, idx as int),
//@at fn_start
    proof {
        let (g, i) = (tuple@, idx as int);
        assert(forall|j: int| #![trigger g[j]] 0 <= j < i ==> g.take(i)[j] == g[j]);
        assert(forall|j: int| #![trigger g[j]] i < j < g.len() ==> g.skip(i + 1)[j - i - 1] == g[j]);
        assert(forall|j: int| #![trigger g.skip(i + 1)[j]] 0 <= j < g.len() - i - 1 ==> g.skip(i + 1)[j] == g[j + i + 1]);
        if diff_all(g[i], g.take(i)) && diff_all(g[i], g.skip(i + 1)) {
            assert forall|j: int| #![trigger g[j]] 0 <= j < g.len() && j != i implies diff(g[i], g[j]) by { if j < i { let _ = g.take(i)[j]; } else { let _ = g.skip(i + 1)[j - i - 1]; } }
        }
    }
//@end
//@inlined calculate_binary_outputsize calculate_unary_outputsize
//@item src=graphannis/src/annis/db/exec/filter.rs item="struct Filter"
//@rewrite Filter<'a> => Filter
//@rewrite Box<dyn Iterator<Item = Result<MatchGroup>> \+ 'a> => It<Result<MatchGroup>>
//@rewrite (?m)^    ([a-z]\w*): => pub $1:
impl Filter {
//@fn src=graphannis/src/annis/db/exec/filter.rs item=Filter::new_binary ret=ret
//@rewrite Box<dyn ExecutionNode<Item = Result<MatchGroup>> \+ 'a> => Exec
//@rewrite BinaryOperatorEntry<'a> => BinaryOperatorEntry
//@rewrite Filter<'a> => Filter
//@rewrite (?s)let cost_est = if let .*?\n            \}; => let cost_est = filter_cost(&op_entry.op, orig_desc)?;
//@rewrite String::from\("filter"\) => some_string()
//@rewrite (?s)query_fragment: format!\(.*?\),\s*cost: => query_fragment: some_string(), cost:
//@rewrite Some\(Box::new\(orig_desc\.clone\(\)\)\) => boxed(Some(orig_desc))
//@rewrite \.map\(move \|tuple\| => .map(move |tuple: Result<MatchGroup>| -> (r: Result<Option<MatchGroup>>) requires (tuple matches Ok(t) ==> t@.len() > lhs_idx && t@.len() > rhs_idx) ensures (match tuple { Err(_) => r is Err, Ok(g) => r matches Ok(x) ==> x == if pair_kept(op_entry.op, lhs_idx as int, rhs_idx as int)(g@) { Some(g) } else { None::<MatchGroup> } })
//@rewrite (?s)\s*\.filter_map_ok\(\|t\| t\); => ; proof { lemma_filter(exec@, it@, pair_kept(op_entry.op, lhs_idx as int, rhs_idx as int)); } let it = it.filter_somes();
//@rewrite &tuple\[(\w+)\] => &tuple.v[$1]
//@rewrite Box::new\(it\) => it
//@spec
    requires long(exec@, lhs_idx as int), long(exec@, rhs_idx as int),
    ensures ret matches Ok(f) ==> filtered(exec@, f.it@, pair_kept(op_entry.op, lhs_idx as int, rhs_idx as int))
        && kept_place(f.desc, exec.d),
//@end
//@fn src=graphannis/src/annis/db/exec/filter.rs item=Filter::new_unary ret=ret
//@rewrite Box<dyn ExecutionNode<Item = Result<MatchGroup>> \+ 'a> => Exec
//@rewrite UnaryOperatorEntry<'a> => UnaryOperatorEntry
//@rewrite Filter<'a> => Filter
//@rewrite (?s)let cost_est = if let .*?\n            \}; => let cost_est = filter_cost_unary(&op_entry.op, orig_desc);
//@rewrite String::from\("filter"\) => some_string()
//@rewrite (?s)query_fragment: format!\(.*?\),\s*cost: => query_fragment: some_string(), cost:
//@rewrite Some\(Box::new\(orig_desc\.clone\(\)\)\) => boxed(Some(orig_desc))
//@rewrite \.map\(move \|tuple\| => .map(move |tuple: Result<MatchGroup>| -> (r: Result<Option<MatchGroup>>) requires (tuple matches Ok(t) ==> t@.len() > idx) ensures (match tuple { Err(_) => r is Err, Ok(g) => r matches Ok(x) ==> x == if node_kept(op_entry.op, idx as int)(g@) { Some(g) } else { None::<MatchGroup> } })
//@rewrite (?s)\s*\.filter_map_ok\(\|t\| t\); => ; proof { lemma_filter(exec@, it@, node_kept(op_entry.op, idx as int)); } let it = it.filter_somes();
//@rewrite &tuple\[(\w+)\] => &tuple.v[$1]
//@rewrite Box::new\(it\) => it
//@spec
    requires long(exec@, idx as int),
    ensures filtered(exec@, ret.it@, node_kept(op_entry.op, idx as int)),
        kept_place(ret.desc, exec.d),
//@end
//@fn src=graphannis/src/annis/db/exec/filter.rs item=Filter::new_reflexivity ret=ret
//@rewrite Box<dyn ExecutionNode<Item = Result<MatchGroup>> \+ 'a> => Exec
//@rewrite Filter<'a> => Filter
//@rewrite exec\.get_desc\(\)\.cloned\(\) => exec.desc_cloned()
//@rewrite exec\.filter_ok\(move \|tuple\| => exec.filter_ok(move |tuple: &MatchGroup| -> (r: bool) requires forall|k: int| #![trigger op_args@[k]] 0 <= k < op_args@.len() ==> op_args@[k].left < tuple@.len() && op_args@[k].right < tuple@.len() ensures r == args_ok(op_args@, tuple@)
//@rewrite op_args\.iter\(\)\.all\(\|args\| => all_args(&op_args, |args: &BinaryOperatorArguments| -> (b: bool) requires args.left < tuple@.len(), args.right < tuple@.len() ensures b == arg_ok(*args, tuple@)
//@rewrite &?tuple\[(args\.\w+)\] => (&tuple.v[$1])
//@rewrite different_to_others\(tuple, => different_to_others(slice(tuple),
//@rewrite Box::new\(it\) => it
//@spec
    requires forall|k: int, i: int| #![trigger op_args@[k], exec@[i]] 0 <= k < op_args@.len() && 0 <= i < exec@.len() && exec@[i] is Ok ==> op_args@[k].left < exec@[i]->Ok_0@.len() && op_args@[k].right < exec@[i]->Ok_0@.len(),
    ensures ret.it@ == kept(exec@, refl_kept(op_args@)), ret.desc == exec.d,
//@at fn_start
    let ghost s0 = exec@; let ghost a0 = op_args@;
    proof { let _ = kept(exec@, refl_kept(op_args@)); }
//@end
}
} // verus!
