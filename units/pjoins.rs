// Verus unit: parallel joins deliver exactly the accepted combinations, in any order
#![allow(unused)]
use vstd::prelude::*;
use std::ops::Bound;
use std::sync::Arc;
use vstd::multiset::Multiset;
verus! {
global size_of usize == 8;
//@include opslib.inc
//@include joinlib.inc

// ---- channels and threads ----------------------------------------------------------------------
/// a channel with the messages that wait in it (std::sync::mpsc). All senders and the receiver of a
/// channel are this one object: `clone` of a sender is dropped, the messages of all threads arrive.
pub struct Chan { pub v: Vec<Result<MatchGroup>> }
impl View for Chan { type V = Groups; open spec fn view(&self) -> Groups { self.v@ } }
impl Chan {
    /// `channel()`
    pub fn new() -> (r: Chan) ensures r@.len() == 0 { Chan { v: Vec::new() } }
    /// the receiver exists while there is something to send
    pub fn send(&mut self, x: Result<MatchGroup>) -> (r: std::result::Result<(), u8>) ensures r is Ok, final(self)@ == old(self)@.push(x) { self.v.push(x); Ok(()) }
    /// waits until there is a message or no sender is left
    #[verifier::external_body]
    pub fn recv(&mut self) -> (r: std::result::Result<Result<MatchGroup>, u8>)
        ensures r is Err <==> old(self)@.len() == 0, r is Err ==> final(self)@ == old(self)@, r matches Ok(x) ==> x == old(self)@[0] && final(self)@ == old(self)@.drop_first(),
    { unimplemented!() }
}
pub fn recv_of(c: &mut Option<Chan>) -> (r: std::result::Result<Result<MatchGroup>, u8>)
    requires (*old(c)) is Some,
    ensures (*final(c)) is Some, r is Err <==> (*old(c))->0@.len() == 0, r is Err ==> (*final(c))->0@ == (*old(c))->0@, r matches Ok(x) ==> x == (*old(c))->0@[0] && (*final(c))->0@ == (*old(c))->0@.drop_first(),
{ match c { Some(p) => p.recv(), None => Err(0) } }
pub open spec fn bad(s: Groups) -> bool { exists|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i] is Err }
pub open spec fn all_err(s: Groups) -> bool { forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> s[i] is Err }
pub open spec fn opts(s: Groups) -> Seq<Option<Seq<Match>>> { s.map_values(|r: Result<MatchGroup>| match r { Ok(m) => Some(m@), Err(_) => None }) }
pub type Bag = Multiset<Option<Seq<Match>>>;
pub open spec fn bag(s: Seq<Option<Seq<Match>>>) -> Bag { s.to_multiset() }
/// messages that have been sent since `a`
pub open spec fn sent(a: Groups, b: Groups, s: Seq<Option<Seq<Match>>>) -> bool { (bad(a) ==> bad(b)) && (bad(b) || opts(b) == opts(a) + s) }
/// what a call delivers: one of the outstanding results, or an error; with an error in the channel the results may be incomplete
pub open spec fn pstep(ret: Option<Result<MatchGroup>>, bad0: bool, before: Bag, bad1: bool, after: Bag) -> bool {
    match ret {
        None => !bad0 && before.len() == 0,
        Some(Ok(m)) => bad1 || (!bad0 && before.count(Some(m@)) > 0 && after == before.remove(Some(m@))),
        Some(Err(_)) => true,
    }
}
pub fn arc_cloned(o: &Option<Arc<MatchGroup>>) -> (r: Option<Arc<MatchGroup>>) ensures r == *o { match o { Some(x) => Some(x.clone()), None => None } }
pub proof fn lemma_push(a: Groups, x: Result<MatchGroup>)
    ensures bad(a.push(x)) <==> bad(a) || x is Err, x matches Ok(m) ==> opts(a.push(x)) == opts(a) + seq![Some(m@)],
{
    let b = a.push(x);
    if bad(a) { let i = choose|i: int| #![trigger a[i]] 0 <= i < a.len() && a[i] is Err; assert(b[i] is Err); }
    if x is Err { assert(b[a.len() as int] is Err); }
    if bad(b) { let i = choose|i: int| #![trigger b[i]] 0 <= i < b.len() && b[i] is Err; if i < a.len() { assert(a[i] is Err); } }
    if x is Ok { assert(opts(b) =~= opts(a) + seq![Some(x->Ok_0@)]); }
}
pub proof fn lemma_pop(a: Groups, rest: Bag)
    requires a.len() > 0,
    ensures a[0] matches Ok(m) ==> bad(a.drop_first()) == bad(a) && bag(opts(a)).add(rest).count(Some(m@)) > 0 && bag(opts(a.drop_first())).add(rest) == bag(opts(a)).add(rest).remove(Some(m@)),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let b = a.drop_first();
    if a[0] is Ok {
        let m = a[0]->Ok_0;
        if bad(b) { let i = choose|i: int| #![trigger b[i]] 0 <= i < b.len() && b[i] is Err; assert(a[i + 1] is Err); }
        if bad(a) { let i = choose|i: int| #![trigger a[i]] 0 <= i < a.len() && a[i] is Err; assert(b[i - 1] is Err); }
        assert(opts(a) =~= seq![Some(m@)] + opts(b));
        vstd::seq_lib::lemma_multiset_commutative(seq![Some(m@)], opts(b));
        assert(seq![Some(m@)] =~= Seq::<Option<Seq<Match>>>::empty().push(Some(m@)));
        assert(bag(seq![Some(m@)]) =~= Multiset::singleton(Some(m@)));
        assert(bag(opts(a)).add(rest) =~= bag(opts(b)).add(rest).insert(Some(m@)));
        assert(bag(opts(b)).add(rest) =~= bag(opts(a)).add(rest).remove(Some(m@)));
    }
}

// ---- nested loop -------------------------------------------------------------------------------
pub type Pair = (Arc<MatchGroup>, Arc<MatchGroup>);
impl NlCfg {
    pub open spec fn pair(self, p: Pair) -> Seq<Option<Seq<Match>>> { self.item(p.0@, Ok::<MatchGroup, GraphAnnisError>(*p.1)) }
    /// results of the collected combinations
    pub open spec fn pairs(self, b: Seq<Pair>) -> Seq<Option<Seq<Match>>>
        decreases b.len()
    {
        if b.len() == 0 { seq![] } else { self.pairs(b.drop_last()) + self.pair(b.last()) }
    }
}
pub open spec fn arc_groups(v: Seq<Arc<MatchGroup>>) -> Groups { v.map_values(|m: Arc<MatchGroup>| Ok::<MatchGroup, GraphAnnisError>(*m)) }
pub open spec fn fit(b: Seq<Pair>, oi: int, ii: int) -> bool { forall|k: int| #![trigger b[k]] 0 <= k < b.len() ==> b[k].0@.len() > oi && b[k].1@.len() > ii }
//@item src=graphannis/src/annis/db/exec/parallel/nestedloop.rs item="const MAX_BUFFER_SIZE"
//@rewrite ^(pub )?const (\w+) => pub const NL_MAX

//@item src=graphannis/src/annis/db/exec/parallel/nestedloop.rs item="struct NestedLoop"
//@rewrite NestedLoop<'a> => NestedLoop
//@rewrite Box<dyn ExecutionNode<Item = Result<MatchGroup>> \+ 'a> => Exec
//@rewrite Arc<dyn BinaryOperatorBase \+ 'a> => Op
//@rewrite Vec<MatchCandidate> => Vec<Pair>
//@rewrite Receiver<Result<MatchGroup>> => Chan
//@rewrite (?m)^    ([a-z]\w*): => pub $1:
impl NestedLoop {
    pub open spec fn cfg(&self) -> NlCfg { NlCfg { op: self.op, ii: self.inner_idx as int, oi: self.outer_idx as int, left_is_outer: self.left_is_outer, global: self.global_reflexivity } }
    pub open spec fn inner_all(&self) -> Groups { arc_groups(self.inner_cache@) + self.inner@ }
    pub open spec fn outer_all(&self) -> Groups { match self.current_outer { Some(o) => seq![Ok::<MatchGroup, GraphAnnisError>(*o)] + self.outer@, None => self.outer@ } }
    pub open spec fn wf(&self) -> bool {
        &&& long(self.outer_all(), self.outer_idx as int) && long(self.outer@, self.outer_idx as int) && long(self.inner_all(), self.inner_idx as int)
        &&& self.pos_inner_cache matches Some(p) ==> p <= self.inner_cache@.len() && self.inner@.len() == 0
    }
    pub open spec fn todo(&self) -> Groups { match self.pos_inner_cache { Some(p) => self.inner_all().skip(p as int), None => self.inner@ } }
    /// combinations that have not been looked at
    pub open spec fn later(&self) -> Seq<Option<Seq<Match>>> { self.cfg().rest(self.outer_all(), self.todo(), self.inner_all()) }
    pub open spec fn waiting(&self) -> Groups { match self.match_receiver { Some(c) => c@, None => seq![] } }
    pub open spec fn rest(&self) -> Bag { bag(opts(self.waiting())).add(bag(self.later())) }
    /// state while combinations are collected in the buffer
    pub open spec fn collected(&self, o: NestedLoop, tx: Groups) -> bool {
        &&& self.wf() && self.cfg() == o.cfg() && self.match_receiver == o.match_receiver && self.outer_idx == o.outer_idx && self.inner_idx == o.inner_idx
        &&& fit(self.match_candidate_buffer@, self.outer_idx as int, self.inner_idx as int) && all_err(tx)
        &&& tx.len() == 0 ==> o.later() == self.cfg().pairs(self.match_candidate_buffer@) + self.later()
    }
//@fn src=graphannis/src/annis/db/exec/parallel/nestedloop.rs item=NestedLoop::new ret=ret
//@rewrite BinaryOperatorEntry<'a> => BinaryOperatorEntry
//@rewrite NestedLoop<'a> => NestedLoop
//@rewrite Box<dyn ExecutionNode<Item = Result<MatchGroup>> \+ 'a> => Exec
//@rewrite (?s)let processed_func = .*?\n        \}; =>
//@rewrite (?s)&format!\(.*?\),\s*&processed_func, => "",
//@rewrite Arc::from\(op_entry\.op\) => op_entry.op
//@rewrite? MAX_BUFFER_SIZE => NL_MAX
//@spec
    requires long(lhs@, lhs_idx as int), long(rhs@, rhs_idx as int),
        layout(desc_of(lhs), desc_of(lhs).dom().len()), layout(desc_of(rhs), desc_of(rhs).dom().len()), desc_of(lhs).dom().len() + desc_of(rhs).dom().len() <= usize::MAX,
    ensures ret matches Ok(j) ==> j.wf() && {
            let (o, i) = if j.left_is_outer { (lhs, rhs) } else { (rhs, lhs) };
            &&& j.outer_all() == o@ && j.inner_all() =~= i@ && j.later() =~= j.cfg().product(o@, i@) && j.match_receiver is None
            &&& j.desc.node_pos@ == joined_pos(desc_of(o), desc_of(i), desc_of(o).dom().len()) && (o.d matches Some(x) ==> j.desc.component_nr == x.component_nr)
            &&& j.cfg() == (NlCfg { op: op_entry.op, oi: if j.left_is_outer { lhs_idx as int } else { rhs_idx as int }, ii: if j.left_is_outer { rhs_idx as int } else { lhs_idx as int }, left_is_outer: j.left_is_outer, global: op_entry.args.global_reflexivity })
        },
//@end
//@fn src=graphannis/src/annis/db/exec/parallel/nestedloop.rs item=NestedLoop::peek_outer ret=ret
//@rewrite Arc::from\(result\) => Arc::new(result)
//@rewrite self\.current_outer\.as_ref\(\)\.cloned\(\) => arc_cloned(&self.current_outer)
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).cfg() == old(self).cfg(), final(self).inner == old(self).inner, final(self).inner_cache == old(self).inner_cache, final(self).pos_inner_cache == old(self).pos_inner_cache,
        final(self).match_candidate_buffer == old(self).match_candidate_buffer, final(self).match_receiver == old(self).match_receiver,
        match ret {
            Ok(o) => o == final(self).current_outer && final(self).outer_all() == old(self).outer_all() && (o is None ==> final(self).outer_all().len() == 0) && (o is Some ==> final(self).outer_all().len() > 0 && final(self).outer_all()[0] == Ok::<MatchGroup, GraphAnnisError>(*o->0)),
            Err(_) => old(self).current_outer is None && final(self).current_outer is None && final(self).outer@.len() < old(self).outer@.len(),
        },
        old(self).current_outer is None && ret is Ok && ret->Ok_0 is Some ==> final(self).outer@.len() < old(self).outer@.len(),
        old(self).current_outer is Some ==> final(self).outer@ == old(self).outer@,
        final(self).outer@.len() <= old(self).outer@.len(),
//@at fn_end
    proof { assert(self.outer_all() =~= old(self).outer_all()); }
//@end

#[verifier::rlimit(60)]
#[verifier::loop_isolation(false)]
//@fn src=graphannis/src/annis/db/exec/parallel/nestedloop.rs item=NestedLoop::next_match_buffer desugar_for=2
//@rewrite tx: &Sender<Result<MatchGroup>> => tx: &mut Chan
//@rewrite? MAX_BUFFER_SIZE => NL_MAX
//@rewrite (?s)m_inner\.clone\(\),\s*tx\.clone\(\), => m_inner.clone(),
//@rewrite (?s)m_inner,\s*tx\.clone\(\), => m_inner,
//@rewrite Arc::from\(m_inner\) => Arc::new(m_inner)
//@spec
    requires old(self).wf(), old(tx)@.len() == 0,
    ensures final(self).collected(*old(self), final(tx)@),
        final(tx)@.len() == 0 && final(self).match_candidate_buffer@.len() == 0 ==> final(self).later().len() == 0,
//@at before_loop 0
    proof { assert(self.cfg().pairs(self.match_candidate_buffer@) + self.later() =~= self.later()); assert(self.later() == old(self).later()); }
//@loop 0
    invariant self.collected(*old(self), tx@),
    decreases self.outer@.len(), if self.current_outer is Some { 1int } else { 0 },
//@at loop_start 0
    let ghost s0 = *self;
//@loop 1
    invariant self.collected(*old(self), tx@), self.pos_inner_cache == Some(cache_pos), cache_pos <= self.inner_cache@.len(), self.current_outer == Some(m_outer), self.outer@.len() <= s0.outer@.len(),
        s0.current_outer is None ==> self.outer@.len() < s0.outer@.len(),
    decreases self.inner_cache@.len() - cache_pos,
//@at loop_start 1
    let ghost (b1, l1) = (self.match_candidate_buffer@, self.later());
    proof {
        let t = self.todo();
        lemma_step_row(self.cfg(), self.outer_all(), t, self.inner_all());
        assert(t.drop_first() =~= self.inner_all().skip(cache_pos + 1));
        assert(self.inner_all()[cache_pos as int] == t[0]);
        assert(self.inner_all()[cache_pos as int] == Ok::<MatchGroup, GraphAnnisError>(*self.inner_cache@[cache_pos as int]));
    }
//@at after_call push 0
    let ghost gp = self.match_candidate_buffer@.last();
    proof { lemma_pair(self.cfg(), b1, gp, self.later()); assert(self.match_candidate_buffer@ =~= b1.push(gp)); }
//@loop 2
    invariant self.collected(*old(self), tx@), self.pos_inner_cache is None, self.current_outer == Some(m_outer), gi == self.inner@, gc == self.inner_cache@, gb == self.match_candidate_buffer@, self.outer@.len() <= s0.outer@.len(),
        s0.current_outer is None ==> self.outer@.len() < s0.outer@.len(),
    decreases self.inner@.len(),
//@at before_loop 2
    let ghost mut gi = self.inner@; let ghost mut gc = self.inner_cache@; let ghost mut gb = self.match_candidate_buffer@;
//@at loop_start 2
    let ghost x0 = m_inner;
    proof {
        assert(self.inner@ =~= gi.drop_first());
        let all = arc_groups(gc) + gi;
        assert(all[gc.len() as int] == gi[0]);
        lemma_step_row(self.cfg(), self.outer_all(), gi, all);
        assert forall|i: int| #![trigger self.inner_all()[i]] 0 <= i < self.inner_all().len() implies (self.inner_all()[i] matches Ok(m) ==> m@.len() > self.inner_idx) by {
            if i < gc.len() { assert(self.inner_all()[i] == all[i]); } else { assert(self.inner_all()[i] == all[i + 1]); }
        }
    }
//@at after_call push 2
    proof {
        lemma_arc_cached(gc, gi, self.inner_cache@.last());
        assert(self.inner_cache@ =~= gc.push(self.inner_cache@.last()));
        let all = arc_groups(gc) + gi;
        assert(all[gc.len() as int] == gi[0]);
        assert(self.inner_all() == all);
        lemma_pair(self.cfg(), gb, (m_outer, self.inner_cache@.last()), self.later());
        assert(self.match_candidate_buffer@ =~= gb.push((m_outer, self.inner_cache@.last())));
    }
//@at loop_end 2
    proof { gi = self.inner@; gc = self.inner_cache@; gb = self.match_candidate_buffer@; }
//@at after_loop 2
    proof { assert(self.outer_all().drop_first() =~= self.outer@); lemma_end_row(self.cfg(), self.outer_all(), self.inner@, self.inner_all()); assert(self.inner_all().skip(0) =~= self.inner_all()); }
//@at after_loop 1
    proof {
        assert(self.todo().len() == 0);
        assert(self.outer_all().drop_first() =~= self.outer@);
        lemma_end_row(self.cfg(), self.outer_all(), self.todo(), self.inner_all());
        assert(self.inner_all().skip(0) =~= self.inner_all());
    }
//@end
//@inlined next_match_receiver
//@fn src=graphannis/src/annis/db/exec/parallel/nestedloop.rs item=NestedLoop::next_match_receiver ret=ret
//@rewrite Option<Receiver<Result<MatchGroup>>> => Option<Chan>
//@rewrite let \(tx, rx\) = channel\(\); => let mut tx = Chan::new();
//@rewrite self\.next_match_buffer\(&tx\) => self.next_match_buffer(&mut tx)
//@rewrite let error = rx\.try_recv\(\)\.ok\(\)\?; => let error = match tx.recv() { Ok(e) => e, Err(_) => return None }; let ghost ge = error;
//@rewrite tx\.send\(error\)\.ok\(\)\?; => if tx.send(error).is_err() { return None; } proof { assert(tx@[0] == ge && ge is Err); }
//@rewrite Some\(rx\) => Some(tx)
//@rewrite (?s)let op = self\.op\.clone\(\);\s*let op: &dyn BinaryOperatorBase = op\.as_ref\(\); => let ghost (b0, t0) = (self.match_candidate_buffer@, tx@); proof { if t0.len() > 0 { assert(t0[0] is Err); assert(bad(t0)); } assert(b0.take(0) =~= seq![]); assert(opts(tx@) + self.cfg().pairs(b0.take(0)) =~= opts(tx@)); }
//@rewrite (?s)self\.match_candidate_buffer\s*\.par_iter_mut\(\)\s*\.for_each\(\|\(m_outer, m_inner, tx\)\| \{.*?\n            \}\); => let mut k: usize = 0; while k < self.match_candidate_buffer.len() invariant k <= b0.len(), self.match_candidate_buffer@ == b0, fit(b0, outer_idx as int, inner_idx as int), self.cfg() == (NlCfg { op: self.op, ii: inner_idx as int, oi: outer_idx as int, left_is_outer, global: global_reflexivity }), sent(t0, tx@, self.cfg().pairs(b0.take(k as int))) decreases b0.len() - k { let c = &self.match_candidate_buffer[k]; let ghost t1 = tx@; check_pair(&self.op, left_is_outer, outer_idx, inner_idx, global_reflexivity, &c.0, &c.1, &mut tx); proof { assert(b0.take(k + 1) =~= b0.take(k as int).push(b0[k as int])); lemma_sent(t0, t1, tx@, self.cfg().pairs(b0.take(k as int)), self.cfg().pair(b0[k as int])); lemma_pair(self.cfg(), b0.take(k as int), b0[k as int], seq![]); assert(self.cfg().pairs(b0.take(k + 1)) + Seq::<Option<Seq<Match>>>::empty() =~= self.cfg().pairs(b0.take(k + 1))); assert(self.cfg().pairs(b0.take(k as int)) + (self.cfg().pair(b0[k as int]) + Seq::<Option<Seq<Match>>>::empty()) =~= self.cfg().pairs(b0.take(k as int)) + self.cfg().pair(b0[k as int])); } k += 1; } proof { assert(b0.take(k as int) =~= b0); lemma_bag_sent(t0, tx@, self.cfg().pairs(b0), self.later()); }
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).cfg() == old(self).cfg(), final(self).match_receiver == old(self).match_receiver,
        match ret { None => old(self).later().len() == 0, Some(c) => bad(c@) || bag(opts(c@)).add(bag(final(self).later())) == bag(old(self).later()) },
//@end
#[verifier::exec_allows_no_decreases_clause]
//@fn src=graphannis/src/annis/db/exec/parallel/nestedloop.rs item="Iterator for NestedLoop::next" ret=ret
//@rewrite Option<Self::Item> => Option<Result<MatchGroup>>
//@rewrite let match_receiver = self\.match_receiver\.as_mut\(\)\?; => if self.match_receiver.is_none() { return None; }
//@rewrite match_receiver\.recv\(\) => recv_of(&mut self.match_receiver)
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).cfg() == old(self).cfg(), pstep(ret, bad(old(self).waiting()), old(self).rest(), bad(final(self).waiting()), final(self).rest()),
//@at fn_start
    proof { lemma_no_messages(self.waiting(), self.later()); }
//@loop 0
    invariant self.wf(), self.cfg() == old(self).cfg(), self.match_receiver is Some, bad(old(self).waiting()) ==> bad(self.waiting()), bad(self.waiting()) || self.rest() == old(self).rest(),
//@at loop_start 0
    let ghost s0 = *self;
    proof { if self.waiting().len() > 0 { lemma_pop(self.waiting(), bag(self.later())); } lemma_no_messages(self.waiting(), self.later()); }
//@at before_loop 0
    proof { lemma_no_messages(self.waiting(), self.later()); lemma_no_messages(seq![], old(self).later()); }
//@end
}
// the closure of the parallel loop
//@fn src=graphannis/src/annis/db/exec/parallel/nestedloop.rs item=NestedLoop::next_match_receiver
//@rewrite (?s)^.*?\.for_each\(\|\(m_outer, m_inner, tx\)\| \{ => pub fn check_pair(op: &Op, left_is_outer: bool, outer_idx: usize, inner_idx: usize, global_reflexivity: bool, m_outer: &Arc<MatchGroup>, m_inner: &Arc<MatchGroup>, tx: &mut Chan) requires m_outer@.len() > outer_idx, m_inner@.len() > inner_idx, ensures sent(old(tx)@, final(tx)@, (NlCfg { op: *op, ii: inner_idx as int, oi: outer_idx as int, left_is_outer, global: global_reflexivity }).pair((*m_outer, *m_inner))), { proof { lemma_sends(tx@); }
//@rewrite (?s)\n            \}\);\s*self\.match_candidate_buffer\.clear\(\);.*$ =>  }
//@rewrite \[((?:inner|outer)_idx)\] => .v[$1]
//@rewrite? different_to_all\(([&\w]+)\) => different_to_all(slice($1))
//@rewrite result\.extend\((\w+)\.iter\(\)\.cloned\(\)\) => result.extend_cloned($1)
//@end
/// a queue that is empty
pub proof fn lemma_no_messages(a: Groups, l: Seq<Option<Seq<Match>>>)
    ensures a.len() == 0 ==> !bad(a) && bag(opts(a)).add(bag(l)) == bag(l), l.len() == 0 ==> bag(l).len() == 0,
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if a.len() == 0 { assert(opts(a) =~= seq![]); assert(bag(opts(a)).add(bag(l)) =~= bag(l)); }
}
pub proof fn lemma_sends(a: Groups)
    ensures opts(a) + Seq::<Option<Seq<Match>>>::empty() == opts(a),
        forall|x: Result<MatchGroup>| #![trigger a.push(x)] (bad(a.push(x)) <==> bad(a) || x is Err) && (x matches Ok(m) ==> opts(a.push(x)) == opts(a) + seq![Some(m@)]),
{
    assert(opts(a) + Seq::<Option<Seq<Match>>>::empty() =~= opts(a));
    assert forall|x: Result<MatchGroup>| #![trigger a.push(x)] (bad(a.push(x)) <==> bad(a) || x is Err) && (x matches Ok(m) ==> opts(a.push(x)) == opts(a) + seq![Some(m@)]) by { lemma_push(a, x); }
}
pub proof fn lemma_sent(a: Groups, b: Groups, c: Groups, s: Seq<Option<Seq<Match>>>, t: Seq<Option<Seq<Match>>>)
    requires sent(a, b, s), sent(b, c, t),
    ensures sent(a, c, s + t),
{ assert((opts(a) + s) + t =~= opts(a) + (s + t)); }
pub proof fn lemma_bag_sent(a: Groups, b: Groups, s: Seq<Option<Seq<Match>>>, rest: Seq<Option<Seq<Match>>>)
    requires sent(a, b, s),
    ensures a.len() == 0 ==> bad(b) || bag(opts(b)).add(bag(rest)) == bag(s + rest),
{
    if a.len() == 0 && !bad(b) {
        assert(opts(a) =~= seq![]);
        assert(opts(b) =~= s);
        vstd::seq_lib::lemma_multiset_commutative(s, rest);
        assert(bag(s + rest) =~= bag(s).add(bag(rest)));
    }
}
pub proof fn lemma_pair(c: NlCfg, b: Seq<Pair>, p: Pair, l: Seq<Option<Seq<Match>>>)
    ensures c.pairs(b.push(p)) + l == c.pairs(b) + (c.pair(p) + l),
{ assert(b.push(p).drop_last() =~= b); assert(c.pairs(b.push(p)) + l =~= c.pairs(b) + (c.pair(p) + l)); }
pub proof fn lemma_arc_cached(c: Seq<Arc<MatchGroup>>, i: Groups, m: Arc<MatchGroup>)
    requires i.len() > 0, i[0] == Ok::<MatchGroup, GraphAnnisError>(*m),
    ensures arc_groups(c.push(m)) + i.drop_first() == arc_groups(c) + i,
{ assert(arc_groups(c.push(m)) + i.drop_first() =~= arc_groups(c) + i); }

// ---- index join --------------------------------------------------------------------------------
/// proved in unit joins
#[verifier::external_body]
pub fn retrieve_candidates(op: &Op, m_lhs: &Match, node_search_desc: &NodeSearchDesc, node_annos: &NodeAnnos) -> (ret: Result<Vec<Match>>)
    ensures ret matches Ok(v) ==> v@ == candidates(*op, *node_annos, qview(node_search_desc.qname), *m_lhs),
{ unimplemented!() }
pub fn peek_vec(v: Vec<Match>) -> (r: Peek<Match>) ensures r@ == v@ { Peek { v } }
//@item src=graphannis/src/annis/db/exec/parallel/indexjoin.rs item="const MAX_BUFFER_SIZE"
//@rewrite ^(pub )?const (\w+) => pub const IJ_MAX

//@item src=graphannis/src/annis/db/exec/parallel/indexjoin.rs item="struct IndexJoin"
//@rewrite IndexJoin<'a> => IndexJoin
//@rewrite Peekable<Box<dyn ExecutionNode<Item = Result<MatchGroup>> \+ 'a>> => Peek<Result<MatchGroup>>
//@rewrite Receiver<Result<MatchGroup>> => Chan
//@rewrite Arc<dyn BinaryOperatorIndex \+ 'a> => Op
//@rewrite &'a dyn NodeAnnotationStorage => Arc<NodeAnnos>
//@rewrite (?m)^    ([a-z]\w*): => pub $1:
impl IndexJoin {
    pub open spec fn cfg(&self) -> IjCfg { IjCfg { op: self.op, idx: self.lhs_idx as int, desc: *self.node_search_desc, annos: *self.node_annos, global: self.global_reflexivity } }
    pub open spec fn wf(&self) -> bool { long(self.lhs@, self.lhs_idx as int) }
    pub open spec fn later(&self) -> Seq<Option<Seq<Match>>> { self.cfg().all(self.lhs@) }
    pub open spec fn waiting(&self) -> Groups { match self.match_receiver { Some(c) => c@, None => seq![] } }
    pub open spec fn rest(&self) -> Bag { bag(opts(self.waiting())).add(bag(self.later())) }
//@fn src=graphannis/src/annis/db/exec/parallel/indexjoin.rs item=IndexJoin::new ret=ret
//@rewrite IndexJoin<'a> => IndexJoin
//@rewrite Box<dyn ExecutionNode<Item = Result<MatchGroup>> \+ 'a> => Exec
//@rewrite Box<dyn BinaryOperatorIndex \+ 'a> => Op
//@rewrite &'a dyn NodeAnnotationStorage => Arc<NodeAnnos>
//@rewrite lhs\.get_desc\(\)\.cloned\(\) => lhs.desc_cloned()
//@rewrite lhs_desc\.as_ref\(\) => desc_ref(&lhs_desc)
//@rewrite op\.as_binary_operator\(\) => &op
//@rewrite (?s)let processed_func = .*?\n        \}; =>
//@rewrite (?s)&format!\(.*?\),\s*&processed_func, => "",
//@rewrite Arc::from\(op\) => op
//@spec
    requires long(lhs@, lhs_idx as int), layout(desc_of(lhs), desc_of(lhs).dom().len()), layout(pos_of(rhs_desc), pos_of(rhs_desc).dom().len()), desc_of(lhs).dom().len() + pos_of(rhs_desc).dom().len() <= usize::MAX,
    ensures ret matches Ok(j) ==> j.wf() && j.lhs@ == lhs@ && j.later() == j.cfg().all(lhs@) && j.match_receiver is None
        && j.cfg() == (IjCfg { op, idx: lhs_idx as int, desc: *node_search_desc, annos: *node_annos, global: op_args.global_reflexivity })
        && j.desc.node_pos@ == joined_pos(desc_of(lhs), pos_of(rhs_desc), desc_of(lhs).dom().len()) && (lhs.d matches Some(x) ==> j.desc.component_nr == x.component_nr),
//@end
//@fn src=graphannis/src/annis/db/exec/parallel/indexjoin.rs item=IndexJoin::next_lhs_buffer ret=ret
//@rewrite (?s)tx: &Sender<Result<MatchGroup>>,\s* => 
//@rewrite Vec<\(Result<MatchGroup>, Sender<Result<MatchGroup>>\)> => Vec<Result<MatchGroup>>
//@rewrite? MAX_BUFFER_SIZE => IJ_MAX
//@rewrite \(\(lhs, tx\.clone\(\)\)\) => (lhs)
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).cfg() == old(self).cfg(), final(self).match_receiver == old(self).match_receiver,
        old(self).lhs@ == ret@ + final(self).lhs@, ret@.len() == 0 ==> final(self).lhs@.len() == 0,
//@at before_loop 0
    proof { assert(old(self).lhs@ =~= lhs_buffer@ + self.lhs@); }
//@loop 0
    invariant_except_break self.wf(), self.cfg() == old(self).cfg(), self.match_receiver == old(self).match_receiver, old(self).lhs@ == lhs_buffer@ + self.lhs@,
    ensures self.wf(), self.cfg() == old(self).cfg(), self.match_receiver == old(self).match_receiver, old(self).lhs@ == lhs_buffer@ + self.lhs@, lhs_buffer@.len() == 0 ==> self.lhs@.len() == 0,
    decreases self.lhs@.len(),
//@at loop_start 0
    let ghost (b0, r0) = (lhs_buffer@, self.lhs@);
//@at loop_end 0
    proof { assert(lhs_buffer@ =~= b0.push(r0[0])); assert(lhs_buffer@ + self.lhs@ =~= b0 + r0); }
//@end
//@fn src=graphannis/src/annis/db/exec/parallel/indexjoin.rs item=IndexJoin::next_match_receiver ret=ret
//@rewrite Option<Receiver<Result<MatchGroup>>> => Option<Chan>
//@rewrite let \(tx, rx\) = channel\(\); => let mut tx = Chan::new();
//@rewrite self\.next_lhs_buffer\(&tx\) => self.next_lhs_buffer()
//@rewrite Some\(rx\) => Some(tx)
//@rewrite (?s)let op: Arc<dyn BinaryOperatorIndex> = self\.op\.clone\(\); =>
//@rewrite let op: &dyn BinaryOperatorIndex = op\.as_ref\(\); => let op = &self.op;
//@rewrite let node_annos = self\.node_annos; => let node_annos = &self.node_annos;
//@rewrite (?s)lhs_buffer\.into_par_iter\(\)\.for_each\(\|\(m_lhs, tx\)\| \{.*\n        \}\);\n => let ghost b0 = lhs_buffer@; proof { assert(b0.take(0) =~= seq![]); assert(opts(tx@) + self.cfg().all(b0.take(0)) =~= opts(tx@)); assert forall|i: int| #![trigger b0[i]] 0 <= i < b0.len() implies b0[i] == old(self).lhs@[i] by {} } let mut lhs_buffer = LhsQueue { v: lhs_buffer }; let ghost mut k: int = 0; while let Some(m_lhs) = lhs_buffer.next() invariant 0 <= k <= b0.len(), lhs_buffer@ == b0.skip(k), long(b0, lhs_idx as int), sent(seq![], tx@, self.cfg().all(b0.take(k))), *op == self.op, *node_search_desc == *self.node_search_desc, **node_annos == *self.node_annos, lhs_idx == self.lhs_idx, global_reflexivity == self.global_reflexivity ensures lhs_buffer@.len() == 0 decreases b0.len() - k { let ghost t1 = tx@; proof { assert(b0.skip(k)[0] == b0[k]); assert(m_lhs == b0[k]); } check_row(op, lhs_idx, &node_search_desc, node_annos, global_reflexivity, m_lhs, &mut tx); proof { assert(b0.skip(k).drop_first() =~= b0.skip(k + 1)); lemma_all_snoc(self.cfg(), b0.take(k), b0[k]); assert(b0.take(k + 1) =~= b0.take(k).push(b0[k])); lemma_sent(seq![], t1, tx@, self.cfg().all(b0.take(k)), self.cfg().lhs_row(b0[k])); k = k + 1; } } proof { assert(b0.take(k) =~= b0); lemma_all_add(self.cfg(), b0, self.lhs@); lemma_bag_sent(seq![], tx@, self.cfg().all(b0), self.later()); }
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).cfg() == old(self).cfg(), final(self).match_receiver == old(self).match_receiver,
        match ret { None => old(self).later().len() == 0, Some(c) => bad(c@) || bag(opts(c@)).add(bag(final(self).later())) == bag(old(self).later()) },
//@end
#[verifier::exec_allows_no_decreases_clause]
//@fn src=graphannis/src/annis/db/exec/parallel/indexjoin.rs item="Iterator for IndexJoin::next" ret=ret
//@rewrite Option<Self::Item> => Option<Result<MatchGroup>>
//@rewrite let match_receiver = self\.match_receiver\.as_mut\(\)\?; => if self.match_receiver.is_none() { return None; }
//@rewrite match_receiver\.recv\(\) => recv_of(&mut self.match_receiver)
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).cfg() == old(self).cfg(), pstep(ret, bad(old(self).waiting()), old(self).rest(), bad(final(self).waiting()), final(self).rest()),
//@at fn_start
    proof { lemma_no_messages(self.waiting(), self.later()); }
//@loop 0
    invariant self.wf(), self.cfg() == old(self).cfg(), self.match_receiver is Some, bad(old(self).waiting()) ==> bad(self.waiting()), bad(self.waiting()) || self.rest() == old(self).rest(),
//@at loop_start 0
    let ghost s0 = *self;
    proof { if self.waiting().len() > 0 { lemma_pop(self.waiting(), bag(self.later())); } lemma_no_messages(self.waiting(), self.later()); }
//@at before_loop 0
    proof { lemma_no_messages(self.waiting(), self.later()); lemma_no_messages(seq![], old(self).later()); }
//@end
}
pub type LhsQueue = Peek<Result<MatchGroup>>;
pub proof fn lemma_all_add(g: IjCfg, a: Groups, b: Groups)
    ensures g.all(a + b) == g.all(a) + g.all(b),
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); assert(g.all(a) + g.all(b) =~= g.all(b)); } else {
        assert((a + b).drop_first() =~= a.drop_first() + b);
        lemma_all_add(g, a.drop_first(), b);
        assert(g.all(a + b) =~= g.all(a) + g.all(b));
    }
}
pub proof fn lemma_all_snoc(g: IjCfg, a: Groups, x: Result<MatchGroup>)
    ensures g.all(a.push(x)) == g.all(a) + g.lhs_row(x),
{
    assert(a.push(x) =~= a + seq![x]);
    lemma_all_add(g, a, seq![x]);
    assert(seq![x].drop_first() =~= seq![]);
    assert(g.all(seq![x].drop_first()) =~= seq![]);
    assert(g.all(seq![x]) =~= g.lhs_row(x) + g.all(seq![x].drop_first()));
    assert(g.all(seq![x]) =~= g.lhs_row(x));
}
// the closure of the parallel loop
#[verifier::rlimit(60)]
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
//@fn src=graphannis/src/annis/db/exec/parallel/indexjoin.rs item=IndexJoin::next_match_receiver
//@rewrite (?s)^.*?\.for_each\(\|\(m_lhs, tx\)\| \{ => pub fn check_row(op: &Op, lhs_idx: usize, node_search_desc: &NodeSearchDesc, node_annos: &NodeAnnos, global_reflexivity: bool, m_lhs: Result<MatchGroup>, tx: &mut Chan) requires m_lhs matches Ok(l) ==> l@.len() > lhs_idx, ensures sent(old(tx)@, final(tx)@, (IjCfg { op: *op, idx: lhs_idx as int, desc: *node_search_desc, annos: *node_annos, global: global_reflexivity }).lhs_row(m_lhs)), { let ghost g = IjCfg { op: *op, idx: lhs_idx as int, desc: *node_search_desc, annos: *node_annos, global: global_reflexivity }; let ghost t0 = tx@; proof { lemma_sends(tx@); }
//@rewrite (?s)\n        \}\);\s*Some\(rx\).*$ =>  }
//@rewrite \[lhs_idx\] => .v[lhs_idx]
//@rewrite? different_to_all\(([&\w]+)\) => different_to_all(slice($1))
//@rewrite rhs_candidate\.into_iter\(\)\.peekable\(\) => peek_vec(rhs_candidate)
//@rewrite \(f\)\(&m_rhs, node_annos\) => f.check(&m_rhs, node_annos)
//@rewrite \((\w+)\.node, (\w+)\.clone\(\)\)\.into\(\) => Match { node: $1.node, anno_key: $2.clone() }
//@rewrite for f in &node_search_desc\.cond \{ => let mut k: usize = 0; while k < node_search_desc.cond.len() invariant_except_break k <= node_search_desc.cond@.len(), include_match, tx@ == t1, forall|i: int| #![trigger node_search_desc.cond@[i]] 0 <= i < k ==> node_search_desc.cond@[i].accepts(m_rhs) ensures include_match == g.cond_ok(m_rhs) && tx@ == t1 || !include_match && bad(tx@) decreases node_search_desc.cond@.len() - k { let f = &node_search_desc.cond[k]; k += 1; proof { let _ = node_search_desc.cond@[k - 1]; }
//@at before_loop 0
    let ghost mut gc = rhs_candidate@; let ghost l = m_lhs@; let ghost mut pre: Seq<Option<Seq<Match>>> = seq![];
    proof { assert(pre + g.row(l, gc, None) =~= g.row(l, gc, None)); }
//@loop 0
    invariant gc == rhs_candidate@, sent(t0, tx@, pre), bad(tx@) || pre + g.row(l, gc, None) == g.row(l, g.cands(l), None),
    decreases gc.len(),
//@at loop_start 0
    let ghost t1 = tx@; let ghost found = m_rhs; let ghost g1 = gc;
    proof { lemma_sends(tx@); }
//@at after_call send 1
    proof { let x = tx@.last(); assert(tx@ =~= t1.push(x)); assert(x == Ok::<MatchGroup, GraphAnnisError>(x->Ok_0)); assert(x->Ok_0@ =~= l.push(g.out(found))); lemma_sent(t0, t1, tx@, pre, seq![Some(l.push(g.out(found)))]); pre = pre + seq![Some(l.push(g.out(found)))]; }
//@loop 2
    invariant node_search_desc.const_output is Some, rhs_candidate@.len() < g1.len(), g.row(l, rhs_candidate@, Some(matched_node)) == g.row(l, g1.drop_first(), Some(matched_node)),
    ensures rhs_candidate@.len() == 0 || rhs_candidate@[0].node != matched_node,
    decreases rhs_candidate@.len(),
//@at after_loop 2
    proof { assert(g.row(l, rhs_candidate@, Some(matched_node)) == g.row(l, rhs_candidate@, None)); }
//@at loop_end 0
    proof {
        gc = rhs_candidate@;
        if include_match && g.keeps(l, found) {
            assert(g.row(l, g1, None) =~= seq![Some(l.push(g.out(found)))] + g.row(l, gc, None));
        } else if !bad(tx@) { assert(g.row(l, g1, None) =~= g.row(l, gc, None)); }
        if !bad(tx@) { assert(pre + g.row(l, gc, None) =~= g.row(l, g.cands(l), None)); }
    }
//@at after_loop 0
    proof { assert(g.row(l, gc, None) =~= seq![]); assert(pre + g.row(l, gc, None) =~= pre); }
//@end
} // verus!
fn main() {}
