// Verus unit: the result list of a search and its pages (graphannis/src/annis/db/corpusstorage.rs)
#![allow(unused)]
use vstd::prelude::*;
use std::cmp::Ordering;
use std::sync::Arc;
verus! {
global size_of usize == 8;
pub type NodeID = u64;
pub enum GraphAnnisError { Timeout, UnknownAnnoKeySymbolId(usize), Other(u64) }
pub type Result<T> = std::result::Result<T, GraphAnnisError>;
pub type GraphAnnisCoreError = GraphAnnisError;
//@include sortlib.inc

impl SortCache {
    /// contracts proved in unit sortmatches
    #[verifier::external_body]
    pub fn new(gs_order: Option<Storage>) -> (ret: SortCache) ensures forall|w: World| #![trigger ret.ok(w)] w.order == gs_order ==> ret.ok(w), ret.gs_order == gs_order { unimplemented!() }
    #[verifier::external_body]
    pub fn compare_matchgroup_by_text_pos(&mut self, m1: &MatchGroup, m2: &MatchGroup, node_annos: &NodeAnnos, token_helper: Option<&TokenHelper>, collation: CollationType, reverse_path: bool) -> (ret: Result<Ordering>)
        requires old(self).ok(World { annos: node_annos, helper: token_helper, order: old(self).gs_order, collation, quirks: reverse_path }),
        ensures
            final(self).gs_order == old(self).gs_order,
            final(self).ok(World { annos: node_annos, helper: token_helper, order: old(self).gs_order, collation, quirks: reverse_path }),
            ret matches Ok(o) ==> o == group_order(World { annos: node_annos, helper: token_helper, order: old(self).gs_order, collation, quirks: reverse_path }, m1@, m2@),
    { unimplemented!() }
}
pub open spec fn reversed(o: Ordering) -> Ordering { match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less } }
#[verifier::external_body]
pub fn reverse_of(o: Ordering) -> (r: Ordering) ensures r == reversed(o) { unimplemented!() }

// ---- matches as numbers ---------------------------------------------------------------------------------------
pub type MatchGroup = Vec<Match>;
/// SymbolTable<AnnoKey>: contracts proved in unit symboltable
#[verifier::external_body]
pub struct Symbols { x: u64 }
impl Symbols {
    pub uninterp spec fn val(&self, id: usize) -> Option<AnnoKey>;
    #[verifier::external_body]
    pub fn new() -> Symbols { unimplemented!() }
    #[verifier::external_body]
    pub fn insert_shared(&mut self, k: Arc<AnnoKey>) -> (r: Result<usize>)
        ensures r matches Ok(id) ==> final(self).val(id) == Some(*k), keeps(*old(self), *final(self)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_value(&self, id: usize) -> (r: Option<Arc<AnnoKey>>)
        ensures match r { Some(k) => self.val(id) == Some(*k), None => self.val(id) is None },
    { unimplemented!() }
}
pub open spec fn keeps(a: Symbols, b: Symbols) -> bool { forall|id: usize| a.val(id) is Some ==> #[trigger] b.val(id) == a.val(id) }
#[verifier::external_body]
pub fn share(k: &Arc<AnnoKey>) -> (r: Arc<AnnoKey>) ensures r == *k { unimplemented!() }
pub open spec fn stands_for(u: (NodeID, usize), m: Match, sy: Symbols) -> bool { u.0 == m.node && sy.val(u.1) == Some(*m.anno_key) }
/// the numbers stand for this match
pub open spec fn stands(u: Seq<(NodeID, usize)>, m: Seq<Match>, sy: Symbols) -> bool { u.len() == m.len() && forall|i: int| 0 <= i < u.len() ==> stands_for(#[trigger] u[i], m[i], sy) }
pub open spec fn resolved_one(u: (NodeID, usize), sy: Symbols) -> Match { choose|m: Match| stands_for(u, m, sy) }
pub open spec fn resolved(u: Seq<(NodeID, usize)>, sy: Symbols) -> Seq<Match> { Seq::new(u.len(), |i: int| resolved_one(u[i], sy)) }
pub proof fn lemma_resolved(u: Seq<(NodeID, usize)>, m: Seq<Match>, sy: Symbols)
    requires stands(u, m, sy), ensures m == resolved(u, sy)
{
    assert forall|i: int| 0 <= i < u.len() implies m[i] == resolved(u, sy)[i] by { assert(stands_for(u[i], m[i], sy)); let c = resolved_one(u[i], sy); assert(stands_for(u[i], c, sy)); assert(c.node == m[i].node); assert(*c.anno_key == *m[i].anno_key); }
    assert(m =~= resolved(u, sy));
}
impl Match {
//@fn src=core/src/annostorage/mod.rs item=Match::from_annotation_key_symbol ret=ret
//@rewrite SymbolTable<AnnoKey> => Symbols
//@spec
ensures ret matches Ok(x) ==> stands_for(m, x, *symbols),
//@end
//@fn src=core/src/annostorage/mod.rs item=Match::as_annotation_key_symbol ret=ret
//@rewrite SymbolTable<AnnoKey> => Symbols
//@rewrite self\.anno_key\.clone\(\) => share(&self.anno_key)
//@spec
ensures keeps(*old(symbols), *final(symbols)), ret matches Ok(x) ==> stands_for(x, *self, *final(symbols)),
//@end
}
//@inlined iter map collect clone ok_or
//@fn src=core/src/annostorage/mod.rs item=match_group_with_symbol_ids ret=ret
//@rewrite SymbolTable<AnnoKey> => Symbols
//@rewrite (?s)let result: Result<Vec<_>> = match_group\s*\.iter\(\)\s*\.map\(\|m\| (m\.\w+\(\w+\))\)\s*\.collect\(\);\s*result\s*\} => let mut all: Vec<(NodeID, usize)> = Vec::new(); let ghost sy0 = *anno_key_symbols; for m in it: match_group.iter() invariant sy0 == *old(anno_key_symbols), keeps(sy0, *anno_key_symbols), all@.len() == it.index(), it.seq().len() == match_group@.len(), forall|i: int| 0 <= i < match_group@.len() ==> *(#[trigger] it.seq()[i]) == match_group@[i], forall|i: int| 0 <= i < it.index() ==> stands_for(#[trigger] all@[i], match_group@[i], *anno_key_symbols), { all.push(${1}?); } Ok(all) }
//@spec
ensures keeps(*old(anno_key_symbols), *final(anno_key_symbols)), ret matches Ok(x) ==> stands(x@, match_group@, *final(anno_key_symbols)),
//@end
//@fn src=core/src/annostorage/mod.rs item=match_group_resolve_symbol_ids ret=ret
//@rewrite SymbolTable<AnnoKey> => Symbols
//@rewrite (?s)let result: Result<MatchGroup> = unresolved_match_group\s*\.iter\(\)\s*\.map\(\|m\| (Match::\w+\(\*m, \w+\))\)\s*\.collect\(\);\s*result\s*\} => let mut all: MatchGroup = Vec::new(); for m in it: unresolved_match_group.iter() invariant all@.len() == it.index(), it.seq().len() == unresolved_match_group@.len(), forall|i: int| 0 <= i < unresolved_match_group@.len() ==> *(#[trigger] it.seq()[i]) == unresolved_match_group@[i], forall|i: int| 0 <= i < it.index() ==> stands_for(unresolved_match_group@[i], #[trigger] all@[i], *anno_key_symbols), { all.push(${1}?); } Ok(all) }
//@spec
ensures ret matches Ok(x) ==> stands(unresolved_match_group@, x@, *anno_key_symbols) && x@ == resolved(unresolved_match_group@, *anno_key_symbols),
//@end

// ---- the result list -------------------------------------------------------------------------------------------
pub type Numbers = Vec<(NodeID, usize)>;
#[verifier::external_body]
pub struct Disjunction { x: u64 }
#[derive(Clone, Copy)]
pub struct TimeoutCheck { pub x: u64 }
impl TimeoutCheck {
    #[verifier::external_body] pub fn new(t: Option<u64>) -> TimeoutCheck { unimplemented!() }
    #[verifier::external_body] pub fn check(&self) -> Result<()> { unimplemented!() }
}
pub struct QueryConfig { pub use_parallel_joins: bool }
impl Clone for QueryConfig { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[derive(Clone, Copy)]
//@item src=graphannis/src/annis/db/corpusstorage.rs item="enum ResultOrder"
#[derive(Clone, Copy)]
//@item src=graphannis/src/annis/db/corpusstorage.rs item="struct FindArguments"
//@rewrite (?m)^struct => pub struct
//@rewrite (?m)^    ([a-z]\w*): => pub $1:

#[verifier::external_body]
pub fn is_order(a: &ResultOrder, b: &ResultOrder) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }

#[verifier::external_body]
pub struct AnnotationGraph { x: u64 }
pub struct DefaultOrdering { pub x: u64 }
pub fn default_ordering() -> DefaultOrdering { DefaultOrdering { x: 0 } }
impl AnnotationGraph {
    pub uninterp spec fn annos(&self) -> &NodeAnnos;
    pub uninterp spec fn helper(&self) -> &Option<TokenHelper>;
    pub uninterp spec fn order(&self) -> Option<Storage>;
    /// the corpus was created with relANNIS 3.3
    pub uninterp spec fn relannis33(&self) -> bool;
    #[verifier::external_body]
    pub fn get_node_annos(&self) -> (r: &NodeAnnos) ensures r == self.annos() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_graphstorage(&self, c: &DefaultOrdering) -> (r: Option<Storage>) ensures r == self.order() { unimplemented!() }
}
#[verifier::external_body]
pub fn token_helper_of(db: &AnnotationGraph) -> (r: Option<TokenHelper>) ensures r == *db.helper() { unimplemented!() }
#[verifier::external_body]
pub fn is_relannis33(db: &AnnotationGraph) -> (r: Result<bool>) ensures r matches Ok(x) ==> x == db.relannis33() { unimplemented!() }
pub open spec fn opt_ref<T>(o: &Option<T>) -> Option<&T> { match o { Some(x) => Some(x), None => None } }
#[verifier::external_body]
pub fn as_opt_ref<T>(o: &Option<T>) -> (r: Option<&T>) ensures r == opt_ref(o) { unimplemented!() }
/// what the order of the results depends on
pub open spec fn world(db: &AnnotationGraph, quirks: bool) -> World<'_> {
    World { annos: db.annos(), helper: opt_ref(db.helper()), order: db.order(), collation: if quirks && !db.relannis33() { CollationType::Locale } else { CollationType::Default }, quirks }
}

/// the results in the order of the plan
#[verifier::external_body]
pub struct ExecutionPlan { x: u64 }
impl ExecutionPlan {
    pub uninterp spec fn view(&self) -> Seq<Result<MatchGroup>>;
    /// a search for all tokens which delivers them in text order (see P01 replay, unit sortmatches for the order itself)
    pub uninterp spec fn sorted_flag(&self) -> bool;
    #[verifier::external_body]
    pub fn from_disjunction(query: &Disjunction, db: &AnnotationGraph, config: &QueryConfig, timeout: TimeoutCheck) -> (r: Result<ExecutionPlan>)
        ensures r matches Ok(p) ==> results_of(db, query, p@) && p@.len() < usize::MAX && (p.sorted_flag() && oks(p@) ==> first_n_sorted(world(db, false), false, groups(p@), p@.len() as int)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_sorted_by_text(&self) -> (r: bool) ensures r == self.sorted_flag() { unimplemented!() }
    #[verifier::external_body]
    pub fn estimated_output_size(&self) -> usize { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Result<MatchGroup>>)
        ensures final(self)@.len() < usize::MAX, old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@, old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.drop_first(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: NumberedResults) ensures r.done() == 0, r@ == self@ { unimplemented!() }
}
#[verifier::external_body]
pub struct NumberedResults { x: u64 }
impl NumberedResults {
    pub uninterp spec fn view(&self) -> Seq<Result<MatchGroup>>;
    pub uninterp spec fn done(&self) -> nat;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(usize, Result<MatchGroup>)>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@ && final(self).done() == old(self).done(),
            old(self)@.len() > 0 ==> r is Some && (r->0).0 == old(self).done() && (r->0).1 == old(self)@[0] && final(self)@ == old(self)@.drop_first() && final(self).done() == old(self).done() + 1,
    { unimplemented!() }
}
/// these are all the results of the query (P12)
pub uninterp spec fn results_of(db: &AnnotationGraph, query: &Disjunction, r: Seq<Result<MatchGroup>>) -> bool;
pub open spec fn oks(r: Seq<Result<MatchGroup>>) -> bool { forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] is Ok }
pub open spec fn groups(r: Seq<Result<MatchGroup>>) -> Seq<Seq<Match>> { Seq::new(r.len(), |i: int| r[i]->Ok_0@) }

pub open spec fn listing_order(w: World, inverted: bool, a: Seq<Match>, b: Seq<Match>) -> Ordering { if inverted { reversed(group_order(w, a, b)) } else { group_order(w, a, b) } }
pub open spec fn le(w: World, inverted: bool, a: Seq<Match>, b: Seq<Match>) -> bool { !(listing_order(w, inverted, a, b) is Greater) }
/// the first n are in order and no later one is smaller
pub open spec fn first_n_sorted(w: World, inverted: bool, s: Seq<Seq<Match>>, n: int) -> bool {
    forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() && i < n ==> le(w, inverted, s[i], s[j])
}
pub open spec fn resolved_all(u: Seq<Numbers>, sy: Symbols) -> Seq<Seq<Match>> { Seq::new(u.len(), |i: int| resolved(u[i]@, sy)) }

/// transient_btree_index::BtreeIndex
#[verifier::external_body]
pub struct Listing { x: u64 }
impl Listing {
    /// the values in the order of their keys
    pub uninterp spec fn view(&self) -> Seq<Numbers>;
    /// key 0 to len - 1
    pub uninterp spec fn dense(&self) -> bool;
    pub uninterp spec fn has(&self, k: usize) -> bool;
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Result<Listing>) ensures r matches Ok(x) ==> x@ == Seq::<Numbers>::empty() && x.dense() && forall|k: usize| !#[trigger] x.has(k) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &usize) -> (r: Result<bool>) ensures r matches Ok(x) ==> x == self.has(*k) { unimplemented!() }
    /// a new key adds the value, at the end if it is the next one
    #[verifier::external_body]
    pub fn insert(&mut self, k: usize, v: Numbers) -> (r: Result<Option<Numbers>>)
        ensures
            r is Ok && !old(self).has(k) ==> final(self)@.to_multiset() == old(self)@.to_multiset().insert(v) && final(self)@.len() == old(self)@.len() + 1,
            r is Ok && old(self).dense() && k == old(self)@.len() ==> final(self)@ == old(self)@.push(v) && final(self).dense(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    /// into_iter()? and map() with the closure verified as `resolve_item`
    #[verifier::external_body]
    pub fn resolve_each(self, sy: Symbols) -> (r: Result<FindIterator>)
        ensures r matches Ok(x) ==> x@.len() == self@.len() && forall|i: int| 0 <= i < x@.len() && #[trigger] x@[i] is Ok ==> stands(self@[i]@, x@[i]->Ok_0@, sy),
    { unimplemented!() }
}
#[verifier::external_body]
pub struct FindIterator { x: u64 }
impl FindIterator { pub uninterp spec fn view(&self) -> Seq<Result<MatchGroup>>; }
#[verifier::external_body]
pub fn plan_iterator(p: ExecutionPlan) -> (r: FindIterator) ensures r@ == p@ { unimplemented!() }

/// all that the comparison function captures
pub struct ListOrder<'a> { pub cache: SortCache, pub db: &'a AnnotationGraph, pub token_helper: Option<TokenHelper>, pub collation: CollationType, pub quirks: bool, pub order: ResultOrder }
pub open spec fn order_world<'a>(o: &'a ListOrder<'a>) -> World<'a> { World { annos: o.db.annos(), helper: opt_ref(&o.token_helper), order: o.cache.gs_order, collation: o.collation, quirks: o.quirks } }
/// the order the comparison function decides (verified as `compare_numbers`)
pub open spec fn numbers_le(o: &ListOrder, sy: Symbols, a: Numbers, b: Numbers) -> bool { le(order_world(o), o.order is Inverted, resolved(a@, sy), resolved(b@, sy)) }
pub open spec fn numbers_sorted(o: &ListOrder, sy: Symbols, s: Seq<Numbers>, n: int) -> bool {
    forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() && i < n ==> numbers_le(o, sy, s[i], s[j])
}
pub open spec fn consistent(o: &ListOrder, sy: Symbols) -> bool {
    &&& forall|a: Numbers, b: Numbers| #![trigger numbers_le(o, sy, a, b)] numbers_le(o, sy, a, b) || numbers_le(o, sy, b, a)
    &&& forall|a: Numbers, b: Numbers, c: Numbers| #![trigger numbers_le(o, sy, a, b), numbers_le(o, sy, b, c)] numbers_le(o, sy, a, b) && numbers_le(o, sy, b, c) ==> numbers_le(o, sy, a, c)
}
/// quicksort::sort_first_n_items: contract proved in unit quicksort
#[verifier::external_body]
pub fn sort_first_n_items(items: &mut Listing, n: usize, order: &ListOrder, sy: &Symbols) -> (r: Result<()>)
    requires old(items)@.len() < usize::MAX, old(items).dense(), order.cache.ok(order_world(order)),
    ensures
        r is Ok ==> final(items)@.to_multiset() == old(items)@.to_multiset() && final(items)@.len() == old(items)@.len() && final(items).dense(),
        r is Ok && consistent(order, *sy) ==> numbers_sorted(order, *sy, final(items)@, n as int),
{ unimplemented!() }
pub proof fn lemma_consistent(o: &ListOrder, sy: Symbols)
    requires one_text(order_world(o)), ensures consistent(o, sy)
{
    let w = order_world(o);
    assert forall|a: Numbers, b: Numbers| #![trigger numbers_le(o, sy, a, b)] numbers_le(o, sy, a, b) || numbers_le(o, sy, b, a) by { theorem_group_order(w, resolved(a@, sy), resolved(b@, sy), resolved(a@, sy)); }
    assert forall|a: Numbers, b: Numbers, c: Numbers| #![trigger numbers_le(o, sy, a, b), numbers_le(o, sy, b, c)] numbers_le(o, sy, a, b) && numbers_le(o, sy, b, c) implies numbers_le(o, sy, a, c) by {
        let (x, y, z) = (resolved(a@, sy), resolved(b@, sy), resolved(c@, sy));
        theorem_group_order(w, x, y, z); theorem_group_order(w, z, y, x); theorem_group_order(w, x, z, y); theorem_group_order(w, y, z, x);
    }
}
/// the results of the query, complete and, unless no order was requested, with the first n in order
pub open spec fn listed(w: World, order: ResultOrder, n: int, plan: Seq<Result<MatchGroup>>, found: Seq<Result<MatchGroup>>) -> bool {
    &&& order is NotSorted ==> found == plan
    &&& oks(found) ==> oks(plan) && found.len() == plan.len() && groups(found).to_multiset() == groups(plan).to_multiset()
    &&& (order is Normal || order is Inverted) && oks(found) && one_text(w) ==> first_n_sorted(w, order is Inverted, groups(found), n)
}
pub open spec fn needed(args: FindArguments, len: int) -> int { match args.limit { Some(l) => args.offset + l, None => len } }
pub open spec fn answers(db: &AnnotationGraph, query: &Disjunction, args: FindArguments, quirks: bool, found: Seq<Result<MatchGroup>>) -> bool {
    exists|plan: Seq<Result<MatchGroup>>| #[trigger] results_of(db, query, plan) && listed(world(db, quirks), args.order, needed(args, plan.len() as int), plan, found)
}
/// the numbers of the first k results
pub open spec fn collected(u: Seq<Numbers>, p: Seq<Result<MatchGroup>>, k: int, sy: Symbols) -> bool {
    u.len() == k && 0 <= k <= p.len() && forall|i: int| 0 <= i < k ==> #[trigger] p[i] is Ok && stands(u[i]@, p[i]->Ok_0@, sy)
}

pub proof fn lemma_map_perm(a: Seq<Numbers>, b: Seq<Numbers>, sy: Symbols)
    requires a.to_multiset() == b.to_multiset(),
    ensures resolved_all(a, sy).to_multiset() == resolved_all(b, sy).to_multiset(), a.len() == b.len(),
    decreases a.len(),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(a.to_multiset().len() == b.to_multiset().len());
    assert(a.len() == a.to_multiset().len() && b.len() == b.to_multiset().len());
    if a.len() == 0 { assert(a =~= b); }
    else {
        let x = a.last();
        assert(a[a.len() - 1] == x);
        assert(a.contains(x));
        assert(b.to_multiset().count(x) > 0);
        assert(b.contains(x));
        let j = choose|j: int| 0 <= j < b.len() && b[j] == x;
        let b1 = b.remove(j);
        let a1 = a.drop_last();
        assert(a =~= a1.push(x));
        assert(a1.to_multiset() =~= a.to_multiset().remove(x));
        assert(b1.to_multiset() =~= b.to_multiset().remove(x));
        lemma_map_perm(a1, b1, sy);
        let (ra, rb) = (resolved_all(a, sy), resolved_all(b, sy));
        assert(ra =~= resolved_all(a1, sy).push(resolved(x@, sy)));
        assert(rb.remove(j) =~= resolved_all(b1, sy));
        assert(rb[j] == resolved(x@, sy));
        assert(rb.to_multiset().contains(rb[j]));
        assert(rb.remove(j).to_multiset() =~= rb.to_multiset().remove(rb[j]));
        assert(rb.to_multiset() =~= rb.remove(j).to_multiset().insert(rb[j]));
        assert(ra.to_multiset() =~= rb.to_multiset());
    }
}
pub proof fn lemma_collect(u: Seq<Numbers>, p: Seq<Result<MatchGroup>>, k: int, sy0: Symbols, sy: Symbols, v: Numbers)
    requires collected(u, p, k, sy0), keeps(sy0, sy), k < p.len(), p[k] is Ok, stands(v@, p[k]->Ok_0@, sy),
    ensures collected(u.push(v), p, k + 1, sy),
{
    let w = u.push(v);
    assert forall|i: int| 0 <= i < k + 1 implies #[trigger] p[i] is Ok && stands(w[i]@, p[i]->Ok_0@, sy) by {
        if i < k {
            assert(stands(u[i]@, p[i]->Ok_0@, sy0));
            let (x, y) = (u[i]@, p[i]->Ok_0@);
            assert forall|q: int| 0 <= q < x.len() implies stands_for(#[trigger] x[q], y[q], sy) by { assert(stands_for(x[q], y[q], sy0)); assert(sy0.val(x[q].1) is Some); }
        }
    }
}
/// the listed results are those of the plan
pub proof fn lemma_listed(list: Seq<Numbers>, u: Seq<Numbers>, p: Seq<Result<MatchGroup>>, found: Seq<Result<MatchGroup>>, sy: Symbols)
    requires
        collected(list, p, p.len() as int, sy), list.to_multiset() == u.to_multiset(),
        found.len() == u.len(), forall|i: int| 0 <= i < found.len() && #[trigger] found[i] is Ok ==> stands(u[i]@, found[i]->Ok_0@, sy),
    ensures oks(p), oks(found) ==> groups(found) == resolved_all(u, sy) && found.len() == p.len() && groups(found).to_multiset() == groups(p).to_multiset(),
{
    lemma_map_perm(list, u, sy);
    assert forall|i: int| 0 <= i < p.len() implies groups(p)[i] == resolved_all(list, sy)[i] by { assert(p[i] is Ok); lemma_resolved(list[i]@, p[i]->Ok_0@, sy); }
    assert(groups(p) =~= resolved_all(list, sy));
    if oks(found) {
        assert forall|i: int| 0 <= i < found.len() implies groups(found)[i] == resolved_all(u, sy)[i] by { assert(found[i] is Ok); lemma_resolved(u[i]@, found[i]->Ok_0@, sy); }
        assert(groups(found) =~= resolved_all(u, sy));
    }
}
pub proof fn lemma_sorted(o: &ListOrder, sy: Symbols, u: Seq<Numbers>, n: int)
    requires numbers_sorted(o, sy, u, n), ensures first_n_sorted(order_world(o), o.order is Inverted, resolved_all(u, sy), n)
{
    let s = resolved_all(u, sy);
    assert forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() && i < n implies le(order_world(o), o.order is Inverted, s[i], s[j]) by { assert(numbers_le(o, sy, u[i], u[j])); }
}

pub struct CorpusStorage { pub query_config: QueryConfig }
//@inlined clone exact_anno_search get_value_for_item fixed_key_size max_value_size default rng random enumerate from into_iter map match_group_resolve_symbol_ids into ok helper reverse as_ref
impl CorpusStorage {
#[verifier::exec_allows_no_decreases_clause]
#[verifier::rlimit(100)]
//@fn src=graphannis/src/annis/db/corpusstorage.rs item=CorpusStorage::create_find_iterator_for_query ret=ret
//@rewrite <'b> =>
//@rewrite &'b => &
//@rewrite (?s)let mut relannis_version_33 = false;\s*if quirks_mode \{.*?\n        \}\n => let relannis_version_33 = if quirks_mode { is_relannis33(db)? } else { false };
//@rewrite find_arguments\.order == ResultOrder::(\w+) => is_order(&find_arguments.order, &ResultOrder::${1})
//@rewrite (?s)let btree_config = .*?; =>
//@rewrite (?s)BtreeIndex<usize, Vec<\(NodeID, usize\)>> =\s*BtreeIndex::with_capacity\(btree_config, estimated_result_size\)\? => Listing = Listing::with_capacity(estimated_result_size)?
//@rewrite SymbolTable<AnnoKey> = SymbolTable::new => Symbols = Symbols::new
//@rewrite Box::from\(plan\) => plan_iterator(plan)
//@rewrite rand::rng\(\) => random_source()
//@rewrite for mgroup in plan  => let mut plan = plan; while let Some(mgroup) = plan.next()
//@rewrite for \(idx, mgroup\) in plan\.enumerate\(\) => let mut numbered = plan.enumerate(); while let Some((idx, mgroup)) = numbered.next()
//@rewrite TokenHelper::new\(db\)\.ok\(\) => token_helper_of(db)
//@rewrite (?s)Component::new\(\s*AnnotationComponentType::Ordering,\s*ANNIS_NS\.into\(\),\s*""\.into\(\),\s*\) => default_ordering()
//@rewrite (?s)let mut cache = SortCache::new\(gs_order\);\s*let order_func = \|.*?\n                \}; => let cache = SortCache::new(gs_order); let order_func = ListOrder { cache, db, token_helper, collation, quirks: quirks_mode, order: find_arguments.order };
//@rewrite quicksort::sort_first_n_items\(&mut tmp_results, sort_size, order_func\) => sort_first_n_items(&mut tmp_results, sort_size, &order_func, &anno_key_symbols)
//@rewrite (?s)tmp_results\.into_iter\(\)\?\.map\(.*?\n            \}\); => tmp_results.resolve_each(anno_key_symbols)?;
//@rewrite Box::from\(iterator\) => iterator
//@at after_call from_disjunction 0
let ghost p0 = plan@;
let ghost mut list: Seq<Numbers> = Seq::empty();
proof { assert(groups(p0).to_multiset() == groups(p0).to_multiset()); }
//@loop 0
invariant
    collected(list, p0, list.len() as int, anno_key_symbols), plan@ == p0.skip(list.len() as int), tmp_results@.to_multiset() == list.to_multiset(), tmp_results@.len() == list.len(),
ensures list.len() == p0.len(),
//@at loop_start 0
proof { assert(p0.skip(list.len() as int)[0] == p0[list.len() as int]); assert(p0.skip(list.len() as int).drop_first() =~= p0.skip(list.len() as int + 1)); }
let ghost (l0, sy0, u0) = (list, anno_key_symbols, tmp_results@);
//@at loop_end 0
proof {
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    lemma_collect(l0, p0, l0.len() as int, sy0, anno_key_symbols, list_item);
    list = l0.push(list_item);
    assert(list.to_multiset() =~= l0.to_multiset().insert(list_item));
}
//@at before_call insert 0
let ghost list_item = m;
//@loop 2
invariant
    list.len() == numbered.done(), p0.len() < usize::MAX,
    collected(list, p0, list.len() as int, anno_key_symbols), numbered@ == p0.skip(list.len() as int), tmp_results@ == list, tmp_results.dense(),
ensures list.len() == p0.len(),
//@at loop_start 2
proof { assert(p0.skip(list.len() as int)[0] == p0[list.len() as int]); assert(p0.skip(list.len() as int).drop_first() =~= p0.skip(list.len() as int + 1)); }
let ghost (l0, sy0) = (list, anno_key_symbols);
//@at before_call insert 1
let ghost list_item = m;
//@at loop_end 2
proof {
    lemma_collect(l0, p0, l0.len() as int, sy0, anno_key_symbols, list_item);
    list = l0.push(list_item);
}
//@at before_call sort_first_n_items 0
proof { assert(order_world(&order_func) == world(db, quirks_mode)); if one_text(world(db, quirks_mode)) { lemma_consistent(&order_func, anno_key_symbols); } }
//@at after_call sort_first_n_items 0
proof { if one_text(world(db, quirks_mode)) { lemma_sorted(&order_func, anno_key_symbols, tmp_results@, sort_size as int); } }
//@at before_call into_iter 0
let ghost (u, sy) = (tmp_results@, anno_key_symbols);
//@at after_call into_iter 0
proof { lemma_listed(list, u, p0, iterator@, sy); }
//@at fn_end
proof {
    let w = world(db, quirks_mode);
    let n = needed(find_arguments, p0.len() as int);
    assert(results_of(db, query, p0));
    if oks(base_it@) && one_text(w) && find_arguments.order is Normal { assert(first_n_sorted(w, false, groups(base_it@), n)); }
    if oks(base_it@) && one_text(w) && find_arguments.order is Inverted { assert(first_n_sorted(w, true, groups(base_it@), n)); }
    assert(oks(base_it@) ==> groups(base_it@).to_multiset() == groups(p0).to_multiset());
    assert(listed(w, find_arguments.order, n, p0, base_it@));
    assert(answers(db, query, find_arguments, quirks_mode, base_it@));
}
//@spec
ensures ret matches Ok(x) ==> answers(db, query, find_arguments, quirks_mode, x.0@),
//@end
}

// ---- the comparison and the conversion of the listed numbers, functions within create_find_iterator_for_query ------
//@inlined create_find_iterator_for_query
//@fn src=graphannis/src/annis/db/corpusstorage.rs item=CorpusStorage::create_find_iterator_for_query
//@rewrite (?s)^.*?let order_func = \|m1: &Vec<\(NodeID, usize\)>,\s*m2: &Vec<\(NodeID, usize\)>\|\s*-> Result<std::cmp::Ordering> \{ => pub fn compare_numbers(m1: &Numbers, m2: &Numbers, anno_key_symbols: &Symbols, cache: &mut SortCache, db: &AnnotationGraph, token_helper: &Option<TokenHelper>, collation: CollationType, quirks_mode: bool, find_arguments: FindArguments) -> (ret: Result<Ordering>) requires old(cache).ok(World { annos: db.annos(), helper: opt_ref(token_helper), order: old(cache).gs_order, collation, quirks: quirks_mode }), ensures final(cache).gs_order == old(cache).gs_order, final(cache).ok(World { annos: db.annos(), helper: opt_ref(token_helper), order: old(cache).gs_order, collation, quirks: quirks_mode }), ret matches Ok(o) ==> o == listing_order(World { annos: db.annos(), helper: opt_ref(token_helper), order: old(cache).gs_order, collation, quirks: quirks_mode }, find_arguments.order is Inverted, resolved(m1@, *anno_key_symbols), resolved(m2@, *anno_key_symbols)), {
//@rewrite (?s)\n                \};\s*let sort_size.*$ =>  }
//@rewrite find_arguments\.order == ResultOrder::(\w+) => is_order(&find_arguments.order, &ResultOrder::${1})
//@rewrite (?s)let result = cache\s*\.compare_matchgroup_by_text_pos\((.*?)\)\?\s*\.reverse\(\) => let result = reverse_of(cache.compare_matchgroup_by_text_pos(${1})?)
//@rewrite token_helper\.as_ref\(\) => as_opt_ref(token_helper)
//@rewrite match_group_resolve_symbol_ids\((\w+), &anno_key_symbols\) => match_group_resolve_symbol_ids(${1}, anno_key_symbols)
//@end
//@fn src=graphannis/src/annis/db/corpusstorage.rs item=CorpusStorage::create_find_iterator_for_query
//@rewrite (?s)^.*?\.map\(move \|unresolved_match_group\| \{ => pub fn resolve_item(unresolved_match_group: Result<(usize, Numbers)>, anno_key_symbols: Symbols) -> (ret: Result<MatchGroup>) ensures ret is Ok ==> unresolved_match_group is Ok && stands((unresolved_match_group->Ok_0).1@, ret->Ok_0@, anno_key_symbols), {
//@rewrite (?s)\n            \}\);\s*Box::from\(iterator\).*$ =>  }
//@rewrite Err\(e\.into\(\)\) => Err(e)
//@end


// ---- pages -------------------------------------------------------------------------------------------------------------
pub proof fn lemma_le(w: World, inverted: bool, a: Seq<Match>, b: Seq<Match>, c: Seq<Match>)
    requires one_text(w),
    ensures le(w, inverted, a, b) && le(w, inverted, b, c) ==> le(w, inverted, a, c), le(w, inverted, a, b) || le(w, inverted, b, a), le(w, inverted, a, b) && le(w, inverted, b, a) ==> a == b,
{
    theorem_group_order(w, a, b, c); theorem_group_order(w, c, b, a); theorem_group_order(w, b, c, a); theorem_group_order(w, a, c, b);
    if group_order(w, a, b) is Equal { lemma_group_equal(w, a, b, 0); assert(a =~= b); }
}
/// P01: however much of the list was sorted, the page is the same part of the completely sorted list
pub proof fn theorem_same_page(w: World, inverted: bool, a: Seq<Seq<Match>>, b: Seq<Seq<Match>>, n: int, m: int)
    requires one_text(w), a.to_multiset() == b.to_multiset(), first_n_sorted(w, inverted, a, n), first_n_sorted(w, inverted, b, m), n <= m,
    ensures a.len() == b.len(), forall|i: int| 0 <= i < n && i < a.len() ==> a[i] == b[i],
    decreases a.len(),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(a.len() == a.to_multiset().len() && b.len() == b.to_multiset().len());
    if n > 0 && a.len() > 0 {
        let (x, y) = (a[0], b[0]);
        assert(a.contains(x) && b.contains(y));
        assert(b.to_multiset().count(x) > 0 && a.to_multiset().count(y) > 0);
        assert(b.contains(x) && a.contains(y));
        let j = choose|j: int| 0 <= j < b.len() && b[j] == x;
        let k = choose|k: int| 0 <= k < a.len() && a[k] == y;
        lemma_le(w, inverted, x, y, x);
        lemma_le(w, inverted, x, x, x);
        if j > 0 { assert(le(w, inverted, b[0], b[j])); }
        if k > 0 { assert(le(w, inverted, a[0], a[k])); }
        assert(x == y);
        let (a1, b1) = (a.remove(0), b.remove(0));
        assert(a1.to_multiset() =~= a.to_multiset().remove(x));
        assert(b1.to_multiset() =~= b.to_multiset().remove(x));
        assert forall|i: int, l: int| #![trigger a1[i], a1[l]] 0 <= i < l < a1.len() && i < n - 1 implies le(w, inverted, a1[i], a1[l]) by { assert(a1[i] == a[i + 1] && a1[l] == a[l + 1]); }
        assert forall|i: int, l: int| #![trigger b1[i], b1[l]] 0 <= i < l < b1.len() && i < m - 1 implies le(w, inverted, b1[i], b1[l]) by { assert(b1[i] == b[i + 1] && b1[l] == b[l + 1]); }
        theorem_same_page(w, inverted, a1, b1, n - 1, m - 1);
        assert forall|i: int| 0 <= i < n && i < a.len() implies a[i] == b[i] by { if i > 0 { assert(a1[i - 1] == a[i] && b1[i - 1] == b[i]); } }
    }
}
/// the complete list of results as text
pub uninterp spec fn full(corpus: Seq<char>, query: SearchQuery, order: ResultOrder) -> Seq<Seq<char>>;
pub open spec fn smaller(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn page(l: Seq<Seq<char>>, offset: int, limit: Option<usize>) -> Seq<Seq<char>> {
    let rest = l.skip(smaller(offset, l.len() as int));
    match limit { Some(n) => rest.take(smaller(n as int, rest.len() as int)), None => rest }
}
pub open spec fn texts(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
pub open spec fn all_of(names: Seq<Seq<char>>, query: SearchQuery, order: ResultOrder) -> Seq<Seq<char>> decreases names.len()
{ if names.len() == 0 { Seq::empty() } else { all_of(names.drop_last(), query, order) + full(names.last(), query, order) } }
pub struct SearchQuery<'a> { pub corpus_names: &'a Vec<String>, pub query: &'a str, pub timeout: Option<u64> }
#[verifier::external_body]
pub fn copy_names(v: &Vec<String>) -> (r: Vec<String>) ensures texts(r@) == texts(v@) { unimplemented!() }
pub open spec fn ascending(s: Seq<Seq<char>>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> !(text_order(#[trigger] s[i], #[trigger] s[j]) is Greater) }
pub open spec fn descending(s: Seq<Seq<char>>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> !(text_order(#[trigger] s[i], #[trigger] s[j]) is Less) }
#[verifier::external_body]
pub fn sort_names(v: &mut Vec<String>) ensures texts(final(v)@).to_multiset() == texts(old(v)@).to_multiset(), final(v)@.len() == old(v)@.len(), ascending(texts(final(v)@)) { unimplemented!() }
#[verifier::external_body]
pub fn reverse_names(v: &mut Vec<String>) ensures texts(final(v)@) == texts(old(v)@).reverse(), final(v)@.len() == old(v)@.len() { unimplemented!() }
#[verifier::external_body]
pub fn shuffle_names(v: &mut Vec<String>) ensures texts(final(v)@).to_multiset() == texts(old(v)@).to_multiset(), final(v)@.len() == old(v)@.len() { unimplemented!() }
#[verifier::external_body]
pub fn extend_all(v: &mut Vec<String>, o: Vec<String>) ensures texts(final(v)@) == texts(old(v)@) + texts(o@) { unimplemented!() }
#[verifier::external_body]
pub fn extend_part(v: &mut Vec<String>, o: &Vec<String>, from: usize, to: usize) requires from <= to <= o@.len(), ensures texts(final(v)@) == texts(old(v)@) + texts(o@).subrange(from as int, to as int) { unimplemented!() }

/// the corpora in the order in which they are listed
pub open spec fn arranged(names: Seq<Seq<char>>, asked: Seq<Seq<char>>, order: ResultOrder) -> bool {
    &&& names.to_multiset() == asked.to_multiset() && names.len() == asked.len()
    &&& names.len() > 1 && (order is Normal || order is NotSorted) ==> ascending(names)
    &&& names.len() > 1 && order is Inverted ==> descending(names)
}
pub open spec fn finds_page(query: SearchQuery, offset: usize, limit: Option<usize>, order: ResultOrder, r: Seq<Seq<char>>) -> bool {
    exists|names: Seq<Seq<char>>| #[trigger] arranged(names, texts(query.corpus_names@), order) && r == page(all_of(names, query, order), offset as int, limit)
}
/// the first k corpora yield this part of the result
pub open spec fn after(names: Seq<Seq<char>>, query: SearchQuery, order: ResultOrder, k: int, offset: int, limit: Option<usize>, r: Seq<Seq<char>>, rest: int) -> bool {
    let l = all_of(names.take(k), query, order);
    r == page(l, offset, limit) && rest == offset - smaller(offset, l.len() as int)
}
pub proof fn lemma_more(l: Seq<Seq<char>>, f: Seq<Seq<char>>, offset: int, limit: Option<usize>, part: Seq<Seq<char>>)
    requires 0 <= offset, part == page(f, offset - smaller(offset, l.len() as int), limit),
    ensures
        limit is None ==> page(l + f, offset, limit) == page(l, offset, limit) + part,
        limit matches Some(n) ==> page(l, offset, limit).len() <= n && page(l + f, offset, limit) == page(l, offset, limit) + part.take(smaller(part.len() as int, n - page(l, offset, limit).len())),
{
    let o = offset - smaller(offset, l.len() as int);
    match limit {
        Some(n) => { assert(page(l + f, offset, limit) =~= page(l, offset, limit) + part.take(smaller(part.len() as int, n - page(l, offset, limit).len()))); }
        None => { assert(page(l + f, offset, limit) =~= page(l, offset, limit) + part); }
    }
}
/// a filled page does not change
pub proof fn lemma_filled(names: Seq<Seq<char>>, query: SearchQuery, order: ResultOrder, k: int, offset: int, limit: Option<usize>)
    requires 0 <= k <= names.len(), 0 <= offset, limit is Some, page(all_of(names.take(k), query, order), offset, limit).len() == limit->0,
    ensures page(all_of(names, query, order), offset, limit) == page(all_of(names.take(k), query, order), offset, limit),
    decreases names.len() - k,
{
    if k == names.len() { assert(names.take(k) =~= names); }
    else {
        let l = all_of(names.take(k), query, order);
        let f = full(names[k], query, order);
        assert(names.take(k + 1).drop_last() =~= names.take(k));
        lemma_more(l, f, offset, limit, page(f, offset - smaller(offset, l.len() as int), limit));
        let part = page(f, offset - smaller(offset, l.len() as int), limit);
        assert(page(l, offset, limit) + part.take(0) =~= page(l, offset, limit));
        assert(all_of(names.take(k + 1), query, order) == l + f);
        lemma_filled(names, query, order, k + 1, offset, limit);
    }
}
pub proof fn lemma_reversed(a: Seq<Seq<char>>)
    requires ascending(a), ensures descending(a.reverse()), a.reverse().to_multiset() == a.to_multiset()
{
    let r = a.reverse();
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies !(text_order(#[trigger] r[i], #[trigger] r[j]) is Less) by {
        assert(r[i] == a[a.len() - 1 - i] && r[j] == a[a.len() - 1 - j]);
        axiom_text_order(r[i], r[j], r[i]);
    }
    a.lemma_reverse_to_multiset();
}
impl CorpusStorage {
    /// contract from unit matchtext (window_text), for the results described by `answers`
    #[verifier::external_body]
    fn find_in_single_corpus(&self, query: &SearchQuery, corpus_name: &str, find_arguments: FindArguments, timeout: TimeoutCheck) -> (ret: Result<(Vec<String>, usize)>)
        ensures ret matches Ok(x) ==> texts(x.0@) == page(full(corpus_name@, *query, find_arguments.order), find_arguments.offset as int, find_arguments.limit) && x.1 == smaller(find_arguments.offset as int, full(corpus_name@, *query, find_arguments.order).len() as int),
    { unimplemented!() }
//@inlined iter map collect into as_ref rng shuffle sort reverse extend cloned
#[verifier::rlimit(60)]
//@fn src=graphannis/src/annis/db/corpusstorage.rs item=CorpusStorage::find ret=ret
//@rewrite <S: AsRef<str>> =>
//@rewrite SearchQuery<S> => SearchQuery
//@rewrite (?s)query\s*\.corpus_names\s*\.iter\(\)\s*\.map\(\|c\| c\.as_ref\(\)\.into\(\)\)\s*\.collect\(\) => copy_names(query.corpus_names)
//@rewrite (?s)1\s=>\sself\s*\.find_in_single_corpus\((.*?)\)\s*\.map\(\|r\| r\.0\), => 1 => match self.find_in_single_corpus(${1}) { Ok(r) => Ok(r.0), Err(e) => Err(e) },
//@rewrite \border == ResultOrder::(\w+) => is_order(&order, &ResultOrder::${1})
//@rewrite rand::rng\(\) => random_source()
//@rewrite corpus_names\.shuffle\(&mut rng\) => shuffle_names(&mut corpus_names)
//@rewrite corpus_names\.sort\(\) => sort_names(&mut corpus_names)
//@rewrite corpus_names\.reverse\(\) => reverse_names(&mut corpus_names)
//@rewrite let mut result = Vec::new\(\); => let mut result: Vec<String> = Vec::new();
//@rewrite for cn in corpus_names  => let mut ci: usize = 0; while ci < corpus_names.len()
//@rewrite self\.find_in_single_corpus\(&query, cn\.as_ref\(\), => self.find_in_single_corpus(&query, corpus_names[ci].as_str(),
//@rewrite limit\.map\(\|limit\| limit\.saturating_sub\(result\.len\(\)\)\) => match limit { Some(limit) => Some(limit.saturating_sub(result.len())), None => None }
//@rewrite result\.extend\(single_result\) => extend_all(&mut result, single_result)
//@rewrite result\.extend\(single_result\[(\w+)\.\.(\w+)\]\.iter\(\)\.cloned\(\)\) => extend_part(&mut result, &single_result, ${1}, ${2})
//@at before_call len 0
proof {
    let asked = texts(query.corpus_names@);
    assert(texts(corpus_names@) == asked);
    assert(texts(corpus_names@).len() == corpus_names@.len());
    if asked.len() == 0 {
        assert(page(all_of(asked, query, order), offset as int, limit) =~= Seq::<Seq<char>>::empty());
        assert(texts(Seq::<String>::empty()) =~= Seq::<Seq<char>>::empty());
        assert(arranged(asked, asked, order));
    }
    if asked.len() == 1 {
        assert(asked.drop_last() =~= Seq::<Seq<char>>::empty());
        assert(all_of(asked.drop_last(), query, order) =~= Seq::<Seq<char>>::empty());
        assert(asked.last() == asked[0]);
        assert(all_of(asked, query, order) =~= full(asked[0], query, order));
        assert(arranged(asked, asked, order));
    }
}
//@at? before_call reverse 0
let ghost sorted = texts(corpus_names@);
//@at? after_call reverse 0
proof { lemma_reversed(sorted); }
//@at before_loop 0
let ghost names = texts(corpus_names@);
proof {
    assert(arranged(names, texts(query.corpus_names@), order));
    assert(page(Seq::<Seq<char>>::empty(), offset as int, limit) =~= Seq::<Seq<char>>::empty());
    assert(texts(result@) =~= Seq::<Seq<char>>::empty());
    assert(all_of(names.take(0), query, order) =~= Seq::<Seq<char>>::empty());
}
//@loop 0
invariant_except_break
    ci == names.len() ==> names.take(ci as int) == names,
    after(names, query, order, ci as int, offset as int, limit, texts(result@), find_arguments.offset as int),
invariant
    ci <= corpus_names@.len(), names == texts(corpus_names@), arranged(names, texts(query.corpus_names@), order),
    find_arguments.order == order, find_arguments.limit == limit,
ensures texts(result@) == page(all_of(names, query, order), offset as int, limit),
decreases corpus_names@.len() - ci,
//@at loop_start 0
let ghost r0 = texts(result@);
let ghost l = all_of(names.take(ci as int), query, order);
let ghost f = full(names[ci as int], query, order);
proof {
    assert(names.take(ci + 1).drop_last() =~= names.take(ci as int));
    assert(names.take(ci + 1).last() == names[ci as int]);
    lemma_more(l, f, offset as int, limit, page(f, find_arguments.offset as int, limit));
}
//@at after_call find_in_single_corpus 1
let ghost part = texts(single_result@);
//@at before_call len 3
proof {
    if let Some(n) = limit {
        let room = n - r0.len();
        assert(part.take(part.len() as int) =~= part);
        if part.len() > room { assert(part.subrange(0, room) =~= part.take(room)); }
    }
    assert(texts(result@) == page(l + f, offset as int, limit));
    assert(texts(result@).len() == result@.len());
    assert(all_of(names.take(ci + 1), query, order) == l + f);
    if limit is Some && result@.len() == limit->0 { lemma_filled(names, query, order, ci + 1, offset as int, limit); }
    if ci + 1 == names.len() { assert(names.take(ci + 1) =~= names); }
}
//@at before_call check 0
ci = ci + 1;
//@at after_loop 0
proof { assert(names.take(names.len() as int) =~= names); assert(finds_page(query, offset, limit, order, texts(result@))); }
//@spec
ensures ret matches Ok(x) ==> finds_page(query, offset, limit, order, texts(x@)),
//@end
}

#[verifier::external_body]
pub fn random_source() -> RandomSource { unimplemented!() }
#[verifier::external_body]
pub struct RandomSource { x: u64 }
impl RandomSource { #[verifier::external_body] pub fn random(&mut self) -> u64 { unimplemented!() } }
} // verus!
fn main() {}
