// Verus unit: the search for a node of the query delivers exactly the annotated nodes that its condition selects, and describes
// them in the same way to the index joins
#![allow(unused, non_snake_case)]
use vstd::prelude::*;
use std::sync::Arc;
verus! {
//@include searchlib.inc
//@item src=graphannis/src/annis/db/exec/nodesearch.rs item="struct CommonArguments"
//@rewrite &'a mut HashMap<usize, usize> => &'a SizeCache
//@rewrite (?m)^struct => pub struct
//@rewrite (?m)^(\s+)(\w+): => ${1}pub ${2}:

//@item src=graphannis/src/annis/db/exec/nodesearch.rs item="enum NodeSearchSpec"

pub struct AnyTokenSearch { x: u8 }
impl AnyTokenSearch {
    /// all tokens, checked at run time
    #[verifier::external_body]
    pub fn new(db: &AnnotationGraph) -> (r: Result<It<Result<MatchGroup>>>)
        ensures r matches Ok(it) ==> gives(it@, image(|m: Match| db.annos().has(token_name(), m) && db.leaf(m.node), result_key(true)), db.faulty())
    { unimplemented!() }
}
pub open spec fn token_name() -> QName { (Some(token_spec().ns@), token_spec().name@) }
pub open spec fn node_type_name() -> QName { (Some(node_type_spec().ns@), node_type_spec().name@) }

impl NodeSearchSpec {
    /// the name of the annotation
    pub open spec fn qname(&self) -> QName {
        match *self {
            NodeSearchSpec::ExactValue { ns, name, .. } => (sv(ns), name@),
            NodeSearchSpec::NotExactValue { ns, name, .. } => (sv(ns), name@),
            NodeSearchSpec::RegexValue { ns, name, .. } => (sv(ns), name@),
            NodeSearchSpec::NotRegexValue { ns, name, .. } => (sv(ns), name@),
            NodeSearchSpec::AnyNode => node_type_name(),
            _ => token_name(),
        }
    }
    /// the condition on its value
    pub open spec fn val_ok(&self, a: NodeAnnos, m: Match) -> bool {
        match *self {
            NodeSearchSpec::ExactValue { val, .. } => val matches Some(v) ==> a.value(m) == Some(v@),
            NodeSearchSpec::NotExactValue { val, .. } => a.value(m) is Some && a.value(m) != Some(val@),
            NodeSearchSpec::RegexValue { val, .. } => a.value(m) is Some && full_match(val@, a.value(m)->0),
            NodeSearchSpec::NotRegexValue { val, .. } => a.value(m) is Some && !full_match(val@, a.value(m)->0),
            NodeSearchSpec::ExactTokenValue { val, .. } => a.value(m) == Some(val@),
            NodeSearchSpec::NotExactTokenValue { val } => a.value(m) is Some && a.value(m) != Some(val@),
            NodeSearchSpec::RegexTokenValue { val, .. } => a.value(m) is Some && full_match(val@, a.value(m)->0),
            NodeSearchSpec::NotRegexTokenValue { val } => a.value(m) is Some && !full_match(val@, a.value(m)->0),
            NodeSearchSpec::AnyToken => true,
            NodeSearchSpec::AnyNode => a.value(m) == Some("node"@),
        }
    }
    /// only nodes that cover no other nodes
    pub open spec fn only_leafs(&self) -> bool {
        match *self {
            NodeSearchSpec::ExactTokenValue { leafs_only, .. } => leafs_only,
            NodeSearchSpec::RegexTokenValue { leafs_only, .. } => leafs_only,
            NodeSearchSpec::NotExactTokenValue { .. } => true,
            NodeSearchSpec::NotRegexTokenValue { .. } => true,
            NodeSearchSpec::AnyToken => true,
            _ => false,
        }
    }
    /// the result is the node and not its annotation
    pub open spec fn node_only(&self) -> bool {
        match *self {
            NodeSearchSpec::ExactValue { is_meta, .. } => is_meta,
            NodeSearchSpec::NotExactValue { is_meta, .. } => is_meta,
            NodeSearchSpec::RegexValue { is_meta, .. } => is_meta,
            NodeSearchSpec::NotRegexValue { is_meta, .. } => is_meta,
            _ => true,
        }
    }
    pub open spec fn cond(&self, g: AnnotationGraph) -> spec_fn(NodeAnnos, Match) -> bool { |a: NodeAnnos, m: Match| self.val_ok(a, m) && (self.only_leafs() ==> g.leaf(m.node)) }
    pub open spec fn base(&self, g: AnnotationGraph) -> spec_fn(Match) -> bool { |m: Match| g.annos().has(self.qname(), m) && self.val_ok(g.annos(), m) && (self.only_leafs() ==> g.leaf(m.node)) }
    /// the nodes of the corpus with the condition of the query
    pub open spec fn holds(&self, g: AnnotationGraph) -> spec_fn(Match) -> bool { image(self.base(g), result_key(self.node_only())) }
    pub open spec fn re_ok(&self) -> bool {
        match *self {
            NodeSearchSpec::RegexValue { val, .. } => re_valid(anchored(val@)),
            NodeSearchSpec::NotRegexValue { val, .. } => re_valid(anchored(val@)),
            NodeSearchSpec::RegexTokenValue { val, .. } => re_valid(anchored(val@)),
            NodeSearchSpec::NotRegexTokenValue { val } => re_valid(anchored(val@)),
            _ => true,
        }
    }
//@fn src=graphannis/src/annis/db/exec/nodesearch.rs item=NodeSearchSpec::get_value_filter ret=ret
//@rewrite Vec<MatchValueFilterFunc> => Vec<Cond>
//@rewrite : MatchValueFilterFunc => : Cond
//@rewrite Box::new\(move \|m, node_annos\| \{ => Cond::of(Ghost(|a: NodeAnnos, m: Match| self.val_ok(a, m)), move |m: &Match, node_annos: &NodeAnnos| -> (r: Result<bool>) ensures r matches Ok(b) ==> b == self.val_ok(*node_annos, *m) {
//@rewrite? (anno_val|val) == (val\.as_str\(\)|"\w+") => str_eq(${1}.as_str(), ${2})
//@rewrite? (anno_val|val) != (val\.as_str\(\)|"\w+") => !str_eq(${1}.as_str(), ${2})
//@rewrite graphannis_core::util:: =>
//@rewrite regex::Regex => Regex
//@rewrite format!\([^;]*?\), => some_string(),
//@rewrite? \bval\.(clone|to_owned)\(\) => copy_string(val)
//@spec
    ensures ret matches Ok(v) ==> conds_are(v@, self.cond(*g)) && self.re_ok(),
//@at fn_start
    proof { lemma_conds(); }
//@end
}
//@fn src=graphannis/src/annis/db/exec/nodesearch.rs item=create_token_leaf_filter ret=ret
//@rewrite MatchValueFilterFunc => Cond
//@rewrite dyn GraphStorage => Gs
//@rewrite \.filter_map\(\|c\| (\w+)\.get_graphstorage\(&c\)\) => .storages(Ghost(*${1}), |c: Component| -> (r: Option<Arc<Gs>>) ensures from_storage(*${1}, c, r) { ${1}.get_graphstorage(&c) })
//@rewrite \.filter\(\|gs\| \{ => .with_edges(Ghost(*g), |gs: &Arc<Gs>| -> (b: bool) ensures nonempty(*gs, b) {
//@rewrite Box::new\(move \|m, _\| \{ => Cond::of(Ghost(|a: NodeAnnos, m: Match| g.leaf(m.node)), move |m: &Match, _a: &NodeAnnos| -> (r: Result<bool>) ensures r matches Ok(b) ==> b == g.leaf(m.node) {
//@forname 0 CIT
//@spec
    ensures forall|a: NodeAnnos, m: Match| #![trigger ret.accepts(a, m)] ret.accepts(a, m) == g.leaf(m.node),
//@loop 0
    invariant decides(*g, cov_gs@), forall|k: int| #![trigger cov_gs@[k]] 0 <= k < CIT.index() ==> !cov_gs@[k].out(m.node),
//@end
// ---- adapters, as their closures use them -------------------------------------------------------
pub proof fn lemma_weaken(s: Seq<Result<Match>>, p: spec_fn(Match) -> bool, f: bool)
    requires delivers(s, p, false),
    ensures delivers(s, p, f),
{}
impl It<Result<Match>> {
    /// `map` with the annotation of the result
    pub fn rekey<F: Fn(Result<Match>) -> Result<Match>>(self, Ghost(k): Ghost<Arc<AnnoKey>>, Ghost(p): Ghost<spec_fn(Match) -> bool>, Ghost(fault): Ghost<bool>, f: F) -> (r: It<Result<Match>>)
        requires forall|x: Result<Match>| #![trigger call_requires(f, (x,))] call_requires(f, (x,)), forall|x: Result<Match>, y: Result<Match>| #![trigger call_ensures(f, (x,), y)] call_ensures(f, (x,), y) ==> rekeyed(x, y, k),
            by_node(self@, p, fault),
        ensures delivers(r@, image(p, Some(k)), fault),
    { let ghost s = self@; let r = self.map(f); proof { assert forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() implies rekeyed(s[i], r@[i], k) by { let _ = s[i]; } lemma_rekeyed(s, r@, p, k, fault); } r }
    pub fn first_of_node<F: Fn(&Result<Match>) -> Option<NodeID>>(self, Ghost(p): Ghost<spec_fn(Match) -> bool>, Ghost(fault): Ghost<bool>, f: F) -> (r: It<Result<Match>>)
        requires forall|x: &Result<Match>| #![trigger call_requires(f, (x,))] call_requires(f, (x,)), forall|x: &Result<Match>, y: Option<NodeID>| #![trigger call_ensures(f, (x,), y)] call_ensures(f, (x,), y) ==> y == node_of(*x),
            delivers(self@, p, fault),
        ensures by_node(r@, p, fault),
    { hide(delivers); hide(first_by_node); hide(by_node); let ghost s = self@; let r = self.first_keys(f); proof { lemma_first(s, r@, p, fault); } r }
    /// `unique_by` with the node
    pub fn first_keys<F: Fn(&Result<Match>) -> Option<NodeID>>(self, f: F) -> (r: It<Result<Match>>)
        requires forall|x: &Result<Match>| #![trigger call_requires(f, (x,))] call_requires(f, (x,)), forall|x: &Result<Match>, y: Option<NodeID>| #![trigger call_ensures(f, (x,), y)] call_ensures(f, (x,), y) ==> y == node_of(*x),
        ensures first_by_node(self@, r@),
    {
        let ghost s = self@;
        let r = self.unique_by(f);
        proof {
            let t = r@;
            assert forall|j: int| #![trigger t[j]] 0 <= j < t.len() implies s.contains(t[j]) by { let i = choose|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i] == t[j]; let _ = s[i]; }
            assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies exists|j: int| #![trigger t[j]] 0 <= j < t.len() && node_of(t[j]) == node_of(s[i]) by {
                let (j, k) = choose|j: int, k: Option<NodeID>| #![trigger t[j], call_ensures(f, (&s[i],), k)] 0 <= j < t.len() && call_ensures(f, (&s[i],), k) && call_ensures(f, (&t[j],), k);
                let _ = t[j];
            }
            assert forall|i: int, j: int| #![trigger t[i], t[j]] 0 <= i < j < t.len() implies node_of(t[i]) != node_of(t[j]) by {}
        }
        r
    }
    /// `map_ok` with groups of one match
    pub fn groups<F: Fn(Match) -> MatchGroup>(self, f: F) -> (r: It<Result<MatchGroup>>)
        requires forall|x: Match| #![trigger call_requires(f, (x,))] call_requires(f, (x,)), forall|x: Match, y: MatchGroup| #![trigger call_ensures(f, (x,), y)] call_ensures(f, (x,), y) ==> y@ == seq![x],
        ensures singles(self@, r@),
    { let ghost s = self@; let r = self.map_ok(f); proof { let t = r@; assert forall|i: int| #![trigger t[i]] 0 <= i < t.len() implies match s[i] { Ok(m) => t[i] is Ok && t[i]->Ok_0@ == seq![m], Err(_) => t[i] is Err } by { let _ = s[i]; } } r }
    /// `map` with groups of one match
    pub fn all_groups<F: Fn(Result<Match>) -> Result<MatchGroup>>(self, Ghost(p): Ghost<spec_fn(Match) -> bool>, f: F) -> (r: It<Result<MatchGroup>>)
        requires forall|x: Result<Match>| #![trigger call_requires(f, (x,))] call_requires(f, (x,)), forall|x: Result<Match>, y: Result<MatchGroup>| #![trigger call_ensures(f, (x,), y)] call_ensures(f, (x,), y) ==> grouped(x, y),
            delivers(self@, p, false),
        ensures gives(r@, p, false),
    { let ghost s = self@; let r = self.map(f); proof { let t = r@; assert forall|i: int| #![trigger t[i]] 0 <= i < t.len() implies match s[i] { Ok(m) => t[i] is Ok && t[i]->Ok_0@ == seq![m], Err(_) => t[i] is Err } by { let _ = s[i]; assert(grouped(s[i], t[i])); } lemma_singles(s, t, p, false); } r }
    /// `map_ok` with groups of the node alone
    pub fn node_groups<F: Fn(Match) -> MatchGroup>(self, Ghost(k): Ghost<Arc<AnnoKey>>, Ghost(p): Ghost<spec_fn(Match) -> bool>, Ghost(fault): Ghost<bool>, f: F) -> (r: It<Result<MatchGroup>>)
        requires forall|x: Match| #![trigger call_requires(f, (x,))] call_requires(f, (x,)), forall|x: Match, y: MatchGroup| #![trigger call_ensures(f, (x,), y)] call_ensures(f, (x,), y) ==> y@ == seq![keyed(x, Some(k))],
            by_node(self@, p, fault),
        ensures gives(r@, image(p, Some(k)), fault),
    {
        let ghost s = self@;
        let r = self.map_ok(f);
        proof {
            let t = s.map_values(|x: Result<Match>| match x { Ok(m) => Ok::<Match, GraphAnnisError>(keyed(m, Some(k))), Err(e) => Err(e) });
            let v = r@;
            assert forall|i: int| #![trigger v[i]] 0 <= i < v.len() implies match t[i] { Ok(m) => v[i] is Ok && v[i]->Ok_0@ == seq![m], Err(_) => v[i] is Err } by { let _ = s[i]; }
            assert(all_rekeyed(s, t, k));
            assert(singles(t, v));
            lemma_rekeyed(s, t, p, k, fault);
            lemma_singles(t, v, image(p, Some(k)), fault);
        }
        r
    }
    /// `filter_ok`, only the leafs
    pub fn leafs<F: Fn(&Match) -> bool>(self, Ghost(g): Ghost<AnnotationGraph>, f: F) -> (r: It<Result<Match>>)
        requires forall|x: &Match| #![trigger call_requires(f, (x,))] call_requires(f, (x,)), forall|x: &Match, y: bool| #![trigger call_ensures(f, (x,), y)] call_ensures(f, (x,), y) ==> leaf_test(g, x.node, y),
        ensures forall|p: spec_fn(Match) -> bool| #![trigger delivers(self@, p, false)] delivers(self@, p, false) ==> delivers(r@, leaf_of(g, p), g.faulty()),
    {
        let ghost s = self@;
        let (r, Ghost(from)) = self.filter_ok(f);
        proof {
            assert forall|p: spec_fn(Match) -> bool| #![trigger delivers(s, p, false)] delivers(s, p, false) implies delivers(r@, leaf_of(g, p), g.faulty()) by { lemma_leafs(g, s, r@, from, |x: Match, b: bool| call_ensures(f, (&x,), b), p); }
        }
        r
    }
}
pub open spec fn grouped(x: Result<Match>, y: Result<MatchGroup>) -> bool { match x { Ok(m) => y is Ok && y->Ok_0@ == seq![m], Err(_) => y is Err } }
pub open spec fn leaf_test(g: AnnotationGraph, n: NodeID, b: bool) -> bool { if b { g.leaf(n) } else { !g.leaf(n) || g.faulty() } }
pub open spec fn leaf_of(g: AnnotationGraph, p: spec_fn(Match) -> bool) -> spec_fn(Match) -> bool { |m: Match| p(m) && g.leaf(m.node) }
pub proof fn lemma_leafs(g: AnnotationGraph, s: Seq<Result<Match>>, r: Seq<Result<Match>>, from: spec_fn(int) -> int, c: spec_fn(Match, bool) -> bool, p: spec_fn(Match) -> bool)
    requires kept_ok(s, r, from, c), delivers(s, p, false), forall|m: Match, b: bool| #![trigger c(m, b)] c(m, b) ==> leaf_test(g, m.node, b),
    ensures delivers(r, leaf_of(g, p), g.faulty()),
{
    let q = leaf_of(g, p);
    assert forall|j: int| #![trigger r[j]] 0 <= j < r.len() implies (r[j] matches Ok(m) ==> q(m)) by { let _ = s[from(j)]; }
    if !g.faulty() && (forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> r[i] is Ok) {
        assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies s[i] is Ok by { if s[i] is Err { let j = choose|j: int| #![trigger r[j]] 0 <= j < r.len() && r[j] == s[i]; let _ = r[j]; } }
        assert forall|m: Match| #![trigger q(m)] q(m) implies exists|j: int| #![trigger r[j]] 0 <= j < r.len() && r[j] == Ok::<Match, GraphAnnisError>(m) by {
            assert(p(m));
            let i = choose|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i] == Ok::<Match, GraphAnnisError>(m);
            assert(!c(m, false));
        }
    }
    assert forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i < j < r.len() && r[i] is Ok && r[j] is Ok implies r[i]->Ok_0 != r[j]->Ok_0 by { let _ = (s[from(i)], s[from(j)]); }
}
/// a qualified name: each node has at most one such annotation
pub proof fn lemma_qualified(s: Seq<Result<Match>>, p: spec_fn(Match) -> bool, f: bool, k: AnnoKey)
    requires delivers(s, p, f), forall|m: Match| #![trigger p(m)] p(m) ==> m.anno_key.ns@ == k.ns@ && m.anno_key.name@ == k.name@,
    ensures by_node(s, p, f), forall|m: Match| #![trigger p(m)] p(m) ==> m.anno_key == Arc::new(k),
{
    assert forall|m: Match| #![trigger p(m)] p(m) implies m.anno_key == Arc::new(k) by { axiom_key_ext(*m.anno_key, k); }
    assert forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() && s[i] is Ok && s[j] is Ok implies s[i]->Ok_0.node != s[j]->Ok_0.node by { assert(p(s[i]->Ok_0) && p(s[j]->Ok_0)); }
    if !f && (forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> s[i] is Ok) {
        assert forall|m: Match| #![trigger p(m)] p(m) implies exists|i: int| #![trigger s[i]] 0 <= i < s.len() && node_of(s[i]) == Some(m.node) by {
            let i = choose|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i] == Ok::<Match, GraphAnnisError>(m);
            let _ = s[i];
        }
    }
}
/// the same matches before the annotation is replaced
pub proof fn lemma_image(p: spec_fn(Match) -> bool, q: spec_fn(Match) -> bool, k: Option<Arc<AnnoKey>>)
    requires forall|m: Match| #![trigger q(m)] #![trigger p(m)] p(m) == q(m),
    ensures forall|m: Match| #![trigger (image(p, k))(m)] #![trigger (image(q, k))(m)] (image(p, k))(m) == (image(q, k))(m),
{
    assert forall|m: Match| #![trigger (image(p, k))(m)] #![trigger (image(q, k))(m)] (image(p, k))(m) == (image(q, k))(m) by {
        if (image(p, k))(m) { let o = choose|o: Match| #[trigger] p(o) && m == keyed(o, k); assert(q(o)); }
        if (image(q, k))(m) { let o = choose|o: Match| #[trigger] q(o) && m == keyed(o, k); assert(p(o)); }
    }
}
/// the description of the search is the one of the query
pub open spec fn described(x: NodeSearch, s: NodeSearchSpec, g: AnnotationGraph) -> bool {
    &&& qview(x.node_search_desc.qname) == s.qname()
    &&& conds_are(x.node_search_desc.cond@, s.cond(g))
    &&& x.node_search_desc.const_output == result_key(s.node_only())
}
/// what the search delivers is what the query asks for (assumed by the planner)
pub proof fn lemma_search(x: NodeSearch, s: NodeSearchSpec, g: AnnotationGraph)
    requires whole(x, g), described(x, s, g),
    ensures gives(x.it@, s.holds(g), g.faulty()), forall|m: Match| #![trigger (s.holds(g))(m)] (selects(*x.node_search_desc, g.annos()))(m) == (s.holds(g))(m),
{
    let d = *x.node_search_desc;
    let p = |m: Match| g.annos().has(qview(d.qname), m) && conds_ok(d.cond@, g.annos(), m);
    lemma_image(p, s.base(g), d.const_output);
    lemma_same_set(flat(x.it@), selects(d, g.annos()), s.holds(g), g.faulty());
}
pub open spec fn qn(q: (Option<String>, String)) -> QName { (sv(q.0), q.1@) }
/// the conditions of the index joins and the search agree
pub open spec fn agree(a: NodeAnnos, q: QName, c: Seq<Cond>, f: spec_fn(Match) -> bool) -> bool { forall|m: Match| #![trigger conds_ok(c, a, m)] #![trigger f(m)] a.has(q, m) ==> f(m) == conds_ok(c, a, m) }
pub open spec fn made_of(x: NodeSearch, q: (Option<String>, String), c: Vec<Cond>, is_meta: bool) -> bool {
    x.node_search_desc.qname == (q.0, Some(q.1)) && x.node_search_desc.cond == c && x.node_search_desc.const_output == result_key(is_meta)
}
pub open spec fn tok_fits(a: NodeAnnos, v: ValueSearch<Seq<char>>, re: bool, m: Match) -> bool {
    if re { match v { ValueSearch::Any => true, ValueSearch::Some(p) => a.fits_re(p, false, m), ValueSearch::NotSome(p) => a.fits_re(p, true, m) } } else { a.fits(v, m) }
}
pub open spec fn tok_set(a: NodeAnnos, v: ValueSearch<Seq<char>>, re: bool) -> spec_fn(Match) -> bool { |m: Match| a.has(token_name(), m) && tok_fits(a, v, re, m) }
pub open spec fn cond_of(a: NodeAnnos, q: QName, c: Seq<Cond>) -> spec_fn(Match) -> bool { |m: Match| a.has(q, m) && conds_ok(c, a, m) }
pub proof fn lemma_token_search(a: NodeAnnos, s: Seq<Result<Match>>, v: ValueSearch<Seq<char>>, re: bool, f: bool)
    requires match v {
            ValueSearch::Any => delivers(s, |m: Match| a.has(token_name(), m) && a.fits(ValueSearch::Any, m), false),
            ValueSearch::Some(p) => if re { delivers(s, |m: Match| a.has(token_name(), m) && a.fits_re(p, false, m), false) } else { delivers(s, |m: Match| a.has(token_name(), m) && a.fits(v, m), false) },
            ValueSearch::NotSome(p) => if re { delivers(s, |m: Match| a.has(token_name(), m) && a.fits_re(p, true, m), false) } else { delivers(s, |m: Match| a.has(token_name(), m) && a.fits(v, m), false) },
        },
    ensures delivers(s, tok_set(a, v, re), false),
{
    let q = tok_set(a, v, re);
    match v {
        ValueSearch::Any => lemma_same_set(s, |m: Match| a.has(token_name(), m) && a.fits(ValueSearch::Any, m), q, false),
        ValueSearch::Some(p) => if re { lemma_same_set(s, |m: Match| a.has(token_name(), m) && a.fits_re(p, false, m), q, false) } else { lemma_same_set(s, |m: Match| a.has(token_name(), m) && a.fits(v, m), q, false) },
        ValueSearch::NotSome(p) => if re { lemma_same_set(s, |m: Match| a.has(token_name(), m) && a.fits_re(p, true, m), q, false) } else { lemma_same_set(s, |m: Match| a.has(token_name(), m) && a.fits(v, m), q, false) },
    }
}
pub proof fn lemma_token_conds(g: AnnotationGraph, s: Seq<Result<Match>>, v: ValueSearch<Seq<char>>, re: bool, leafs: bool, c: Seq<Cond>)
    requires agree(g.annos(), token_name(), c, |m: Match| tok_fits(g.annos(), v, re, m) && (leafs ==> g.leaf(m.node))),
    ensures leafs && delivers(s, leaf_of(g, tok_set(g.annos(), v, re)), g.faulty()) ==> delivers(s, cond_of(g.annos(), token_name(), c), g.faulty()),
        !leafs && delivers(s, tok_set(g.annos(), v, re), false) ==> delivers(s, cond_of(g.annos(), token_name(), c), g.faulty()),
{
    let (p, q) = (tok_set(g.annos(), v, re), cond_of(g.annos(), token_name(), c));
    let h = |m: Match| tok_fits(g.annos(), v, re, m) && (leafs ==> g.leaf(m.node));
    if leafs {
        assert forall|m: Match| #![trigger q(m)] #![trigger (leaf_of(g, p))(m)] (leaf_of(g, p))(m) == q(m) by { let _ = h(m); }
        if delivers(s, leaf_of(g, p), g.faulty()) { lemma_same_set(s, leaf_of(g, p), q, g.faulty()); }
    } else {
        assert forall|m: Match| #![trigger q(m)] #![trigger p(m)] p(m) == q(m) by { let _ = h(m); }
        if delivers(s, p, false) { lemma_same_set(s, p, q, false); lemma_weaken(s, q, g.faulty()); }
    }
}
pub open spec fn node_nodes(a: NodeAnnos) -> spec_fn(Match) -> bool { |m: Match| a.has(node_type_name(), m) && a.fits(ValueSearch::Some("node"@), m) }
pub proof fn lemma_any_node(g: AnnotationGraph, it: Seq<Result<MatchGroup>>, f: Cond)
    requires gives(it, node_nodes(g.annos()), false), forall|a: NodeAnnos, m: Match| #![trigger f.accepts(a, m)] f.accepts(a, m) == (a.value(m) == Some("node"@)),
    ensures gives(it, image(cond_of(g.annos(), node_type_name(), Seq::<Cond>::empty().push(f)), result_key(true)), g.faulty()),
{
    lemma_conds();
    let c = Seq::<Cond>::empty().push(f);
    let (p, q) = (node_nodes(g.annos()), cond_of(g.annos(), node_type_name(), c));
    let r = image(q, result_key(true));
    assert forall|m: Match| #![trigger r(m)] #![trigger p(m)] p(m) == r(m) by {
        assert(conds_ok(c, g.annos(), m) == (conds_ok(Seq::<Cond>::empty(), g.annos(), m) && f.accepts(g.annos(), m)));
        if p(m) { axiom_key_ext(*m.anno_key, node_type_spec()); assert(q(m)); assert(m == keyed(m, result_key(true))); }
        if r(m) {
            let o = choose|o: Match| #[trigger] q(o) && m == keyed(o, result_key(true));
            assert(conds_ok(c, g.annos(), o) == (conds_ok(Seq::<Cond>::empty(), g.annos(), o) && f.accepts(g.annos(), o)));
            axiom_key_ext(*o.anno_key, node_type_spec());
            assert(o == m);
        }
    }
    lemma_same_set(flat(it), p, r, false);
    lemma_weaken(flat(it), r, g.faulty());
}
pub fn one_cond(c: Cond) -> (r: Vec<Cond>) ensures r@ == Seq::<Cond>::empty().push(c) { let mut v: Vec<Cond> = Vec::new(); v.push(c); v }
pub open spec fn pattern_ok(v: ValueSearch<Seq<char>>) -> bool { match v { ValueSearch::Any => true, ValueSearch::Some(p) => re_valid(anchored(p)), ValueSearch::NotSome(p) => re_valid(anchored(p)) } }

impl NodeSearch {
//@fn src=graphannis/src/annis/db/exec/nodesearch.rs item=NodeSearch::new_annosearch_exact ret=ret
//@rewrite <'a> =>
//@rewrite &'a => &
//@rewrite Vec<MatchValueFilterFunc> => Vec<Cond>
//@rewrite Box<dyn Iterator<Item = Result<Match>>> => It<Result<Match>>
//@rewrite \.map\(\|it\| it\.map_err\(GraphAnnisError::from\)\) =>
//@rewrite \.map_ok\(\|n\| smallvec!\[n\]\) => .groups(|n: Match| -> (r: MatchGroup) ensures r@ == seq![n] { single(n) })
//@rewrite \.map\(move \|m\| match m \{ => .rekey(Ghost(const_output), Ghost(p1), Ghost(db.faulty()), move |m: Result<Match>| -> (r: Result<Match>) ensures rekeyed(m, r, const_output) { match m {
//@rewrite Err\(e\)\s=>\sErr\(e\.into\(\)\),\s*\}\) => Err(e) => Err(e), } })
//@rewrite \.unique_by\(\|m\| match m \{((?:.|\n)*?)\}\) => .first_of_node(Ghost(p1), Ghost(db.faulty()), |m: &Result<Match>| -> (r: Option<NodeID>) ensures r == node_of(*m) { match m {${1}} })
//@rewrite Box::new\( => same(
//@rewrite qname\.0\.as_deref\(\) == Some\(ANNIS_NS\) && qname\.1 == NODE_NAME => is_node_name(&qname)
//@rewrite qname\.0\.as_deref\(\) => opt_str(&qname.0)
//@rewrite &qname\.1 => qname.1.as_str()
//@rewrite val\.as_ref\(\)\.map\(String::as_str\) => search_ref(&val)
//@rewrite &val,\s*&val, => val.as_str(), val.as_str(),
//@rewrite NODE_TYPE_KEY\.clone\(\) => NODE_TYPE_key()
//@rewrite const_output\.clone\(\) \{ => copy_key(&const_output) {
//@rewrite? common_args\.query_fragment\.clone\(\) => some_string()
//@rewrite? std::cmp:: =>
//@spec
    requires agree(db.annos(), qn(qname), filters@, |m: Match| db.annos().fits(vview(val), m)),
    ensures ret matches Ok(x) ==> whole(x, *db) && made_of(x, qname, filters, is_meta),
//@at after_call exact_anno_search 0
        let ghost (s0, p0) = (base_it@, |m: Match| db.annos().has(qn(qname), m) && db.annos().fits(vview(val), m));
        let ghost p1 = |m: Match| db.annos().has(qn(qname), m) && conds_ok(filters@, db.annos(), m);
        proof { lemma_same_set(s0, |m: Match| db.annos().has(qn(qname), m) && db.annos().fits(vview(val), m), p1, false); lemma_weaken(s0, p1, db.faulty()); }
//@at after_call get_qnames 0
        proof { if is_unique { lemma_unique(s0, p1, db.faulty(), db.annos(), qname.1@); } }
//@at before_call get 0
        proof { if !is_meta { lemma_plain(s0, p1, db.faulty()); } }
//@at before_call empty_with_fragment 0
        proof { lemma_singles(base_it@, it@, image(p1, const_output), db.faulty()); }
//@end
//@fn src=graphannis/src/annis/db/exec/nodesearch.rs item=NodeSearch::new_annosearch_regex ret=ret
//@rewrite <'a> =>
//@rewrite &'a => &
//@rewrite Vec<MatchValueFilterFunc> => Vec<Cond>
//@rewrite Box<dyn Iterator<Item = Result<Match>>> => It<Result<Match>>
//@rewrite \.map\(\|it\| it\.map_err\(GraphAnnisError::from\)\) =>
//@rewrite \.map_ok\(\|n\| smallvec!\[n\]\) => .groups(|n: Match| -> (r: MatchGroup) ensures r@ == seq![n] { single(n) })
//@rewrite \.map\(move \|m\| match m \{ => .rekey(Ghost(const_output), Ghost(p1), Ghost(db.faulty()), move |m: Result<Match>| -> (r: Result<Match>) ensures rekeyed(m, r, const_output) { match m {
//@rewrite Err\(e\)\s=>\sErr\(e\.into\(\)\),\s*\}\) => Err(e) => Err(e), } })
//@rewrite \.unique_by\(\|m\| match m \{((?:.|\n)*?)\}\) => .first_of_node(Ghost(p1), Ghost(db.faulty()), |m: &Result<Match>| -> (r: Option<NodeID>) ensures r == node_of(*m) { match m {${1}} })
//@rewrite Box::new\( => same(
//@rewrite qname\.0\.as_deref\(\) => opt_str(&qname.0)
//@rewrite &qname\.1 => qname.1.as_str()
//@rewrite NODE_TYPE_KEY\.clone\(\) => NODE_TYPE_key()
//@rewrite const_output\.clone\(\) \{ => copy_key(&const_output) {
//@rewrite? std::cmp:: =>
//@spec
    requires agree(db.annos(), qn(qname), filters@, |m: Match| db.annos().fits_re(pattern@, negated, m)), re_valid(anchored(pattern@)),
    ensures ret matches Ok(x) ==> whole(x, *db) && made_of(x, qname, filters, is_meta),
//@at after_call regex_anno_search 0
        let ghost (s0, p0) = (base_it@, |m: Match| db.annos().has(qn(qname), m) && db.annos().fits_re(pattern@, negated, m));
        let ghost p1 = |m: Match| db.annos().has(qn(qname), m) && conds_ok(filters@, db.annos(), m);
        proof { lemma_same_set(s0, |m: Match| db.annos().has(qn(qname), m) && db.annos().fits_re(pattern@, negated, m), p1, false); lemma_weaken(s0, p1, db.faulty()); }
//@at after_call get_qnames 0
        proof { if is_unique { lemma_unique(s0, p1, db.faulty(), db.annos(), qname.1@); } }
//@at before_call get 0
        proof { if !is_meta { lemma_plain(s0, p1, db.faulty()); } }
//@at before_call empty_with_fragment 0
        proof { lemma_singles(base_it@, it@, image(p1, const_output), db.faulty()); }
//@end
//@fn src=graphannis/src/annis/db/exec/nodesearch.rs item=NodeSearch::new_tokensearch ret=ret
//@rewrite <'a> =>
//@rewrite &'a => &
//@rewrite Vec<MatchValueFilterFunc> => Vec<Cond>
//@rewrite Box<dyn Iterator<Item = Result<Match>>> => It<Result<Match>>
//@rewrite \s*\.map\(\|it\| it\.map_err\(GraphAnnisError::from\)\) =>
//@rewrite dyn GraphStorage => Gs
//@rewrite \.filter_map\(\|c\| (\w+)\.get_graphstorage\(&c\)\) => .storages(Ghost(*${1}), |c: Component| -> (r: Option<Arc<Gs>>) ensures from_storage(*${1}, c, r) { ${1}.get_graphstorage(&c) })
//@rewrite \.filter\(\|gs\| \{ => .with_edges(Ghost(*db), |gs: &Arc<Gs>| -> (b: bool) ensures nonempty(*gs, b) {
//@rewrite \.filter_ok\(move \|n\| \{ => .leafs(Ghost(*db), move |n: &Match| -> (b: bool) ensures leaf_test(*db, n.node, b) {
//@rewrite let it_base = if leafs_only => proof { lemma_token_search(db.annos(), it_base@, vview(val), match_regex, db.faulty()); lemma_token_conds(*db, it_base@, vview(val), match_regex, leafs_only, filters@); } let it_base = if leafs_only
//@rewrite let it = it_base\.map_ok => proof { lemma_token_conds(*db, it_base@, vview(val), match_regex, leafs_only, filters@); lemma_qualified(it_base@, cond_of(db.annos(), token_name(), filters@), db.faulty(), token_spec()); } let it = it_base.map_ok
//@rewrite \.map_ok\(move \|n\| \{ => .node_groups(Ghost(Arc::new(node_type_spec())), Ghost(cond_of(db.annos(), token_name(), filters@)), Ghost(db.faulty()), move |n: Match| -> (r: MatchGroup) ensures r@ == seq![keyed(n, Some(Arc::new(node_type_spec())))] {
//@rewrite smallvec!\[((?:.|\n)*?)\] => single(${1})
//@rewrite Box::new\( => same(
//@rewrite None\.into\(\) => search_of(None)
//@rewrite Some\(&(TOKEN|NODE_TYPE)_KEY\.ns\) => Some(${1}_ns())
//@rewrite &(TOKEN|NODE_TYPE)_KEY\.name => ${1}_name()
//@rewrite TOKEN_KEY\.(ns|name)\.clone\(\) => copy_string(&TOKEN_key().${1})
//@rewrite (TOKEN|NODE_TYPE)_KEY\.clone\(\) => ${1}_key()
//@rewrite &?\bval,\s*&?val, => val.as_str(), val.as_str(),
//@rewrite &?\bval,\s*(true|false|\)) => val.as_str(), ${1}
//@rewrite (Some|NotSome)\(val\),\s*\) => ${1}(val.as_str()), )
//@rewrite? common_args\.query_fragment\.clone\(\) => some_string()
//@rewrite? std::cmp:: =>
//@spec
    requires agree(db.annos(), token_name(), filters@, |m: Match| tok_fits(db.annos(), vview(val), match_regex, m) && (leafs_only ==> db.leaf(m.node))), match_regex ==> pattern_ok(vview(val)),
    ensures ret matches Ok(x) ==> whole(x, *db) && qview(x.node_search_desc.qname) == token_name() && x.node_search_desc.cond == filters && x.node_search_desc.const_output == result_key(true),
//@forname 0 CIT
//@loop 0
    invariant decides(*db, cov_gs@), forall|k: int| #![trigger cov_gs@[k]] 0 <= k < CIT.index() ==> !cov_gs@[k].out(n.node),
//@end
//@fn src=graphannis/src/annis/db/exec/nodesearch.rs item=NodeSearch::new_anytoken_search ret=ret
//@rewrite <'a> =>
//@rewrite &'a => &
//@rewrite Box<dyn Iterator<Item = Result<MatchGroup>>> => It<Result<MatchGroup>>
//@rewrite Box::from => same
//@rewrite Vec<MatchValueFilterFunc> => Vec<Cond>
//@rewrite : MatchValueFilterFunc => : Cond
//@rewrite dyn GraphStorage => Gs
//@rewrite \.filter_map\(\|c\| (\w+)\.get_graphstorage\(&c\)\) => .storages(Ghost(*${1}), |c: Component| -> (r: Option<Arc<Gs>>) ensures from_storage(*${1}, c, r) { ${1}.get_graphstorage(&c) })
//@rewrite \.filter\(\|gs\| \{ => .with_edges(Ghost(*db), |gs: &Arc<Gs>| -> (b: bool) ensures nonempty(*gs, b) {
//@rewrite Box::new\(move \|m, _\| \{ => Cond::of(Ghost(|a: NodeAnnos, m: Match| db.leaf(m.node)), move |m: &Match, _a: &NodeAnnos| -> (r: Result<bool>) ensures r matches Ok(b) ==> b == db.leaf(m.node) {
//@rewrite Box::new\( => same(
//@rewrite Some\(&(TOKEN|NODE_TYPE)_KEY\.ns\) => Some(${1}_ns())
//@rewrite &(TOKEN|NODE_TYPE)_KEY\.name => ${1}_name()
//@rewrite TOKEN_KEY\.(ns|name)\.clone\(\) => copy_string(&TOKEN_key().${1})
//@rewrite (TOKEN|NODE_TYPE)_KEY\.clone\(\) => ${1}_key()
//@rewrite? common_args\.query_fragment\.clone\(\) => some_string()
//@rewrite? std::cmp:: =>
//@forname 0 CIT
//@spec
    ensures ret matches Ok(x) ==> whole(x, *db) && described(x, NodeSearchSpec::AnyToken, *db),
//@loop 0
    invariant decides(*db, cov_gs@), forall|k: int| #![trigger cov_gs@[k]] 0 <= k < CIT.index() ==> !cov_gs@[k].out(m.node),
//@at before_call number_of_annotations_by_name 0
        proof { lemma_conds(); assert(filters@ =~= Seq::<Cond>::empty().push(filters@[0])); let (p, q) = (|m: Match| db.annos().has(token_name(), m) && db.leaf(m.node), cond_of(db.annos(), token_name(), filters@)); lemma_image(p, q, result_key(true)); lemma_same_set(flat(it@), image(p, result_key(true)), image(q, result_key(true)), db.faulty()); }
//@end
//@fn src=graphannis/src/annis/db/exec/nodesearch.rs item=NodeSearch::from_spec ret=ret
//@rewrite <'a> =>
//@rewrite &'a => &
//@rewrite &mut HashMap<usize, usize> => &SizeCache
//@rewrite format!\("\{\}", spec\) => some_string()
//@rewrite \.map\(\|n\| match n \{((?:.|\n)*?)Err\(e\)\s=>\sErr\(e\.into\(\)\),\s*\}\) => .all_groups(Ghost(node_nodes(db.annos())), |n: Result<Match>| -> (r: Result<MatchGroup>) ensures grouped(n, r) { match n {${1}Err(e) => Err(e), } })
//@rewrite smallvec!\[n\] => single(n)
//@rewrite MatchValueFilterFunc = Box::new\(move \|m, node_annos\| \{ => Cond = Cond::of(Ghost(|a: NodeAnnos, m: Match| a.value(m) == Some("node"@)), move |m: &Match, node_annos: &NodeAnnos| -> (r: Result<bool>) ensures r matches Ok(b) ==> b == (node_annos.value(*m) == Some("node"@)) {
//@rewrite? val == "node" => str_eq(val.as_str(), "node")
//@rewrite? val != "node" => !str_eq(val.as_str(), "node")
//@rewrite Some\("node"\)\.into\(\) => search_of(Some("node"))
//@rewrite val\.into\(\) => search_of(val)
//@rewrite &val,\s*(true|false), => val.as_str(), ${1},
//@rewrite \butil:: =>
//@rewrite Box::new\( => same(
//@rewrite Some\(&(TOKEN|NODE_TYPE)_KEY\.ns\) => Some(${1}_ns())
//@rewrite &(TOKEN|NODE_TYPE)_KEY\.name => ${1}_name()
//@rewrite (TOKEN|NODE_TYPE)_KEY\.(ns|name)\.clone\(\) => copy_string(&${1}_key().${2})
//@rewrite (TOKEN|NODE_TYPE)_KEY\.clone\(\) => ${1}_key()
//@rewrite vec!\[filter_func\] => one_cond(filter_func)
//@rewrite? std::cmp:: =>
//@rewrite (?s)match spec \{(.*)\}\s*$ => let ret = match spec {${1}; proof { if ret is Ok { let x = ret->Ok_0; assert(described(x, sp, *db)); lemma_search(x, sp, *db); } } ret }
//@spec
    ensures ret matches Ok(x) ==> gives(x.it@, spec.holds(*db), db.faulty()) && forall|m: Match| #![trigger (spec.holds(*db))(m)] (selects(*x.node_search_desc, db.annos()))(m) == (spec.holds(*db))(m),
//@at fn_start
    let ghost sp = spec; proof { lemma_conds(); }
//@at before_call guess_max_count 0
                proof { lemma_any_node(*db, it@, filter_func); }
//@end
}
} // verus!
fn main() {}
