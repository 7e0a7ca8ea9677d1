
// ---- matches -----------------------------------------------------------------------------------
/// a group of matches (a small vector in the code)
pub struct MatchGroup { pub v: Vec<Match> }
impl View for MatchGroup { type V = Seq<Match>; open spec fn view(&self) -> Seq<Match> { self.v@ } }
impl MatchGroup {
    pub fn new() -> (r: MatchGroup) ensures r@ == Seq::<Match>::empty() { MatchGroup { v: Vec::new() } }
    pub fn push(&mut self, m: Match) ensures final(self)@ == old(self)@.push(m) { self.v.push(m); }
    pub fn append(&mut self, o: &mut MatchGroup) ensures final(self)@ == old(self)@ + old(o)@ { self.v.append(&mut o.v); }
    /// `extend(o.iter().cloned())`
    #[verifier::external_body]
    pub fn extend_cloned(&mut self, o: &MatchGroup) ensures final(self)@ == old(self)@ + o@ { unimplemented!() }
}
impl Clone for MatchGroup {
    #[verifier::external_body]
    fn clone(&self) -> (r: MatchGroup) ensures r == *self { unimplemented!() }
}
pub fn slice(g: &MatchGroup) -> (r: &[Match]) ensures r@ == g@ { g.v.as_slice() }
pub open spec fn same_key(a: AnnoKey, b: AnnoKey) -> bool { a.ns@ == b.ns@ && a.name@ == b.name@ }
#[verifier::external_body]
pub fn key_eq(a: &Arc<AnnoKey>, b: &Arc<AnnoKey>) -> (r: bool) ensures r == same_key(**a, **b) { unimplemented!() }
pub open spec fn diff(a: Match, b: Match) -> bool { a.node != b.node || !same_key(*a.anno_key, *b.anno_key) }
pub open spec fn diff_all(a: Match, s: Seq<Match>) -> bool { forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> diff(a, s[i]) }
impl Match {
//@fn src=core/src/annostorage/mod.rs item=Match::different_to_all ret=ret
//@rewrite? self\.anno_key == o\.anno_key => key_eq(&self.anno_key, &o.anno_key)
//@rewrite? self\.anno_key != o\.anno_key => !key_eq(&self.anno_key, &o.anno_key)
//@rewrite? other\.iter\(\) => other
//@forname 0 OIT
//@spec
    ensures ret == diff_all(*self, other@),
//@loop 0
    invariant forall|i: int| #![trigger other@[i]] 0 <= i < OIT.index() ==> diff(*self, other@[i]),
//@at loop_start 0
    proof { let _ = other@[OIT.index()]; }
//@end
//@fn src=core/src/annostorage/mod.rs item=Match::different_to ret=ret
//@rewrite? self\.anno_key == other\.anno_key => key_eq(&self.anno_key, &other.anno_key)
//@rewrite? self\.anno_key != other\.anno_key => !key_eq(&self.anno_key, &other.anno_key)
//@spec
    ensures ret == diff(*self, *other),
//@end
}
/// an iterator with a look at the next item (std::iter::Peekable)
pub struct Peek<T> { pub v: Vec<T> }
impl<T> View for Peek<T> { type V = Seq<T>; open spec fn view(&self) -> Seq<T> { self.v@ } }
impl<T> Peek<T> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures r is None <==> old(self)@.len() == 0, r is None ==> final(self)@ == old(self)@, r matches Some(x) ==> x == old(self)@[0] && final(self)@ == old(self)@.drop_first(),
    { unimplemented!() }
    pub fn peek(&self) -> (r: Option<&T>) ensures match r { Some(x) => self@.len() > 0 && *x == self@[0], None => self@.len() == 0 } { if self.v.len() > 0 { Some(&self.v[0]) } else { None } }
}
/// `c.map(|c| c.into_iter().peekable())`
pub fn peekable_opt(c: Option<Vec<Match>>) -> (r: Option<Peek<Match>>) ensures match c { Some(v) => r matches Some(p) && p@ == v@, None => r is None } { match c { Some(v) => Some(Peek { v }), None => None } }

// ---- operators and node searches (P12; P06, P07) -----------------------------------------------
#[verifier::external_body]
pub struct Op { x: u8 }
impl Op {
    pub uninterp spec fn accepts(&self, a: Match, b: Match) -> bool;
    pub uninterp spec fn reflexive(&self) -> bool;
    pub uninterp spec fn by_anno(&self) -> bool;
    /// partners in the order they are listed
    pub uninterp spec fn partner_seq(&self, a: Match) -> Seq<Match>;
    #[verifier::external_body]
    pub fn filter_match(&self, lhs: &Match, rhs: &Match) -> (r: Result<bool>) ensures r matches Ok(b) ==> b == self.accepts(*lhs, *rhs) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_reflexive(&self) -> (r: bool) ensures r == self.reflexive() { unimplemented!() }
    #[verifier::external_body]
    pub fn retrieve_matches(&self, m: &Match) -> (r: It<Result<Match>>)
        ensures r@.len() == self.partner_seq(*m).len(), forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> (r@[i] matches Ok(x) ==> x == self.partner_seq(*m)[i])
    { unimplemented!() }
    #[verifier::external_body]
    pub fn depends_on_annotation(&self) -> (r: bool) ensures r == self.by_anno() { unimplemented!() }
    pub fn as_ref(&self) -> (r: &Op) ensures *r == *self { self }
    #[verifier::external_body]
    pub fn estimation_type(&self) -> Result<EstimationType> { unimplemented!() }
}
//@item src=graphannis/src/annis/db/exec/mod.rs item="struct CostEstimate"
//@item src=graphannis/src/annis/db/exec/mod.rs item="struct ExecutionNodeDesc"
//@rewrite BTreeMap<usize, usize> => NodePos
/// ordered map from the node of the query to its position in the result
#[verifier::external_body]
pub struct NodePos { x: u8 }
impl View for NodePos { type V = Map<usize, usize>; uninterp spec fn view(&self) -> Map<usize, usize>; }
impl NodePos {
    #[verifier::external_body]
    pub fn new() -> (r: NodePos) ensures r@ == Map::<usize, usize>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: usize, v: usize) -> (r: Option<usize>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn entries(&self) -> (r: Vec<(usize, usize)>)
        ensures forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> self@.contains_key(r@[i].0) && self@[r@[i].0] == r@[i].1,
            forall|k: usize| #![trigger self@.contains_key(k)] self@.contains_key(k) ==> exists|i: int| #![trigger r@[i]] 0 <= i < r@.len() && r@[i].0 == k,
    { unimplemented!() }
}
impl Clone for NodePos {
    #[verifier::external_body]
    fn clone(&self) -> (r: NodePos) ensures r == *self { unimplemented!() }
}
/// the results have `n` positions and each one belongs to a node of the query
pub open spec fn layout(p: Map<usize, usize>, n: nat) -> bool {
    &&& p.dom().len() == n && n <= usize::MAX
    &&& forall|k: usize| #![trigger p.contains_key(k)] p.contains_key(k) ==> p[k] < n
}
/// positions after the groups have been put together
pub open spec fn joined_pos(l: Map<usize, usize>, r: Map<usize, usize>, ln: nat) -> Map<usize, usize> {
    Map::new(l.dom().union(r.dom()), |k: usize| if r.contains_key(k) { (r[k] + ln) as usize } else { l[k] })
}
pub open spec fn pos_of(d: Option<&ExecutionNodeDesc>) -> Map<usize, usize> { match d { Some(d) => d.node_pos@, None => Map::empty() } }
pub struct EstimationType { pub x: u8 }
#[verifier::external_body]
pub fn calculate_outputsize(op: &Op, l: &CostEstimate, r: &CostEstimate) -> Result<usize> { unimplemented!() }
#[verifier::external_body]
pub fn processed_func(e: EstimationType, l: usize, r: usize) -> usize { unimplemented!() }
#[verifier::external_body]
pub fn some_string() -> String { unimplemented!() }
#[verifier::external_body]
pub fn boxed(d: Option<&ExecutionNodeDesc>) -> Option<Box<ExecutionNodeDesc>> { unimplemented!() }
impl ExecutionNodeDesc {
//@fn src=graphannis/src/annis/db/exec/mod.rs item=ExecutionNodeDesc::join ret=ret
//@rewrite join<Op: BinaryOperatorBase \+ \?Sized> => join
//@rewrite (?s)\s*processed_func: &dyn Fn\(EstimationType, usize, usize\) -> usize, =>
//@rewrite BTreeMap::new => NodePos::new
//@rewrite &rhs\.node_pos => rhs.node_pos.entries()
//@rewrite (\w+)\.map\(\|x\| Box::new\(x\.clone\(\)\)\) => boxed($1)
//@rewrite String::from\(\w+\) => some_string()
//@rewrite \*e\.0 => e.0
//@spec
    requires layout(pos_of(lhs), pos_of(lhs).dom().len()), layout(pos_of(rhs), pos_of(rhs).dom().len()),
        pos_of(lhs).dom().len() + pos_of(rhs).dom().len() <= usize::MAX,
    ensures ret matches Ok(d) ==> d.node_pos@ == joined_pos(pos_of(lhs), pos_of(rhs), pos_of(lhs).dom().len()) && (lhs matches Some(x) ==> d.component_nr == x.component_nr),
//@forname 0 EIT
//@loop 0
    invariant l == pos_of(lhs), r == pos_of(Some(rhs)), ln == l.dom().len(), offset == ln, layout(l, ln), layout(r, r.dom().len()), ln + r.dom().len() <= usize::MAX,
        forall|i: int| #![trigger EIT.seq()[i]] 0 <= i < EIT.seq().len() ==> r.contains_key(EIT.seq()[i].0) && r[EIT.seq()[i].0] == EIT.seq()[i].1,
        forall|k: usize| #![trigger r.contains_key(k)] r.contains_key(k) ==> exists|i: int| #![trigger EIT.seq()[i]] 0 <= i < EIT.seq().len() && EIT.seq()[i].0 == k,
        forall|k: usize| #![trigger node_pos@.contains_key(k)] node_pos@.contains_key(k) <==> l.contains_key(k) || exists|i: int| #![trigger EIT.seq()[i]] 0 <= i < EIT.index() && EIT.seq()[i].0 == k,
        forall|i: int| #![trigger EIT.seq()[i]] 0 <= i < EIT.index() ==> node_pos@[EIT.seq()[i].0] == EIT.seq()[i].1 + ln,
        forall|k: usize| #![trigger node_pos@[k]] l.contains_key(k) && !(exists|i: int| #![trigger EIT.seq()[i]] 0 <= i < EIT.index() && EIT.seq()[i].0 == k) ==> node_pos@[k] == l[k],
//@at before_loop 0
    let ghost (l, r) = (pos_of(lhs), pos_of(Some(rhs))); let ghost ln = l.dom().len();
//@at loop_start 0
    proof { let _ = EIT.seq()[EIT.index()]; }
//@at after_loop 0
    proof { assert(node_pos@ =~= joined_pos(l, r, ln)); }
//@at fn_end
    proof { assert(node_pos@ =~= joined_pos(pos_of(lhs), pos_of(rhs), pos_of(lhs).dom().len())); }
//@end
}
#[verifier::external_body]
pub struct Cond { x: u8 }
impl Cond {
    pub uninterp spec fn accepts(&self, m: Match) -> bool;
    #[verifier::external_body]
    pub fn check(&self, m: &Match, a: &NodeAnnos) -> (r: Result<bool>) ensures r matches Ok(b) ==> b == self.accepts(*m) { unimplemented!() }
}
//@item src=graphannis/src/annis/db/exec/mod.rs item="struct NodeSearchDesc"
//@rewrite Vec<MatchValueFilterFunc> => Vec<Cond>

// ---- results of joins as sequences: None stands for an error -----------------------------------
pub type Groups = Seq<Result<MatchGroup>>;

/// a step of the execution plan with the results it delivers
pub struct Exec { pub v: Vec<Result<MatchGroup>>, pub d: Option<ExecutionNodeDesc> }
impl View for Exec { type V = Groups; open spec fn view(&self) -> Groups { self.v@ } }
pub open spec fn desc_of(e: Exec) -> Map<usize, usize> { match e.d { Some(d) => d.node_pos@, None => Map::empty() } }
impl Exec {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Result<MatchGroup>>)
        ensures final(self).d == old(self).d, r is None <==> old(self)@.len() == 0, r is None ==> final(self)@ == old(self)@, r matches Some(x) ==> x == old(self)@[0] && final(self)@ == old(self)@.drop_first(),
    { unimplemented!() }
    pub fn get_desc(&self) -> (r: Option<&ExecutionNodeDesc>) ensures match r { Some(d) => self.d == Some(*d), None => self.d is None } { match &self.d { Some(d) => Some(d), None => None } }
    #[verifier::external_body]
    pub fn desc_cloned(&self) -> (r: Option<ExecutionNodeDesc>) ensures r == self.d { unimplemented!() }
    pub fn peekable(self) -> (r: Peek<Result<MatchGroup>>) ensures r@ == self@ { Peek { v: self.v } }
}
pub fn desc_ref(d: &Option<ExecutionNodeDesc>) -> (r: Option<&ExecutionNodeDesc>) ensures match r { Some(x) => *d == Some(*x), None => *d is None } { match d { Some(x) => Some(x), None => None } }
pub struct BinaryOperatorArguments { pub left: usize, pub right: usize, pub global_reflexivity: bool }
pub struct BinaryOperatorEntry { pub op: Op, pub args: BinaryOperatorArguments }

// ---- nested loop -------------------------------------------------------------------------------
pub struct NlCfg { pub op: Op, pub ii: int, pub oi: int, pub left_is_outer: bool, pub global: bool }
impl NlCfg {
    pub open spec fn keeps(self, o: Seq<Match>, i: Seq<Match>) -> bool {
        &&& if self.left_is_outer { self.op.accepts(o[self.oi], i[self.ii]) } else { self.op.accepts(i[self.ii], o[self.oi]) }
        &&& self.op.reflexive() || (self.global && diff_all(o[self.oi], i) && diff_all(i[self.ii], o)) || (!self.global && diff(o[self.oi], i[self.ii]))
    }
    pub open spec fn item(self, o: Seq<Match>, i: Result<MatchGroup>) -> Seq<Option<Seq<Match>>> {
        match i { Err(_) => seq![None], Ok(i) => if self.keeps(o, i@) { seq![Some(o + i@)] } else { seq![] } }
    }
    /// combinations of one outer match
    pub open spec fn row(self, o: Seq<Match>, inner: Groups) -> Seq<Option<Seq<Match>>>
        decreases inner.len()
    {
        if inner.len() == 0 { seq![] } else { self.item(o, inner[0]) + self.row(o, inner.drop_first()) }
    }
    pub open spec fn outer_row(self, o: Result<MatchGroup>, inner: Groups) -> Seq<Option<Seq<Match>>> { match o { Err(_) => seq![None], Ok(o) => self.row(o@, inner) } }
    /// all combinations
    pub open spec fn product(self, outer: Groups, inner: Groups) -> Seq<Option<Seq<Match>>>
        decreases outer.len()
    {
        if outer.len() == 0 { seq![] } else { self.outer_row(outer[0], inner) + self.product(outer.drop_first(), inner) }
    }
    /// current outer match with its remaining inner ones, followed by the other outer matches
    pub open spec fn rest(self, outer: Groups, todo: Groups, inner: Groups) -> Seq<Option<Seq<Match>>> {
        if outer.len() == 0 { seq![] } else { self.outer_row(outer[0], todo) + self.product(outer.drop_first(), inner) }
    }
    /// sound and complete: a combination is delivered if and only if it is kept
    pub proof fn lemma_row(self, o: Seq<Match>, inner: Groups, r: Seq<Match>)
        ensures self.row(o, inner).contains(Some(r)) <==> exists|j: int| #![trigger inner[j]] 0 <= j < inner.len() && inner[j] is Ok && self.keeps(o, inner[j]->Ok_0@) && r == o + inner[j]->Ok_0@,
        decreases inner.len()
    {
        if inner.len() > 0 {
            let (a, b) = (self.item(o, inner[0]), self.row(o, inner.drop_first()));
            self.lemma_row(o, inner.drop_first(), r);
            lemma_contains_add(a, b, Some(r));
            if a.contains(Some(r)) { assert(a[0] == Some(r)); let _ = inner[0]; }
            if exists|j: int| #![trigger inner[j]] 0 <= j < inner.len() && inner[j] is Ok && self.keeps(o, inner[j]->Ok_0@) && r == o + inner[j]->Ok_0@ {
                let j = choose|j: int| #![trigger inner[j]] 0 <= j < inner.len() && inner[j] is Ok && self.keeps(o, inner[j]->Ok_0@) && r == o + inner[j]->Ok_0@;
                if j == 0 { assert(a[0] == Some(r)); } else { assert(inner.drop_first()[j - 1] == inner[j]); }
            }
            if b.contains(Some(r)) {
                let j = choose|j: int| #![trigger inner.drop_first()[j]] 0 <= j < inner.len() - 1 && inner.drop_first()[j] is Ok && self.keeps(o, inner.drop_first()[j]->Ok_0@) && r == o + inner.drop_first()[j]->Ok_0@;
                assert(inner[j + 1] == inner.drop_first()[j]);
            }
        }
    }
    pub proof fn lemma_product(self, outer: Groups, inner: Groups, r: Seq<Match>)
        ensures self.product(outer, inner).contains(Some(r)) <==> exists|i: int, j: int| #![trigger outer[i], inner[j]] 0 <= i < outer.len() && 0 <= j < inner.len() && outer[i] is Ok && inner[j] is Ok && self.keeps(outer[i]->Ok_0@, inner[j]->Ok_0@) && r == outer[i]->Ok_0@ + inner[j]->Ok_0@,
        decreases outer.len()
    {
        if outer.len() > 0 {
            let t = outer.drop_first();
            let (a, b) = (self.outer_row(outer[0], inner), self.product(t, inner));
            self.lemma_product(t, inner, r);
            lemma_contains_add(a, b, Some(r));
            if outer[0] is Ok { self.lemma_row(outer[0]->Ok_0@, inner, r); } else { assert forall|k: int| 0 <= k < a.len() implies a[k] != Some(r) by {} }
            if a.contains(Some(r)) { let _ = outer[0]; }
            if exists|i: int, j: int| #![trigger outer[i], inner[j]] 0 <= i < outer.len() && 0 <= j < inner.len() && outer[i] is Ok && inner[j] is Ok && self.keeps(outer[i]->Ok_0@, inner[j]->Ok_0@) && r == outer[i]->Ok_0@ + inner[j]->Ok_0@ {
                let (i, j) = choose|i: int, j: int| #![trigger outer[i], inner[j]] 0 <= i < outer.len() && 0 <= j < inner.len() && outer[i] is Ok && inner[j] is Ok && self.keeps(outer[i]->Ok_0@, inner[j]->Ok_0@) && r == outer[i]->Ok_0@ + inner[j]->Ok_0@;
                if i > 0 { assert(t[i - 1] == outer[i]); }
                let _ = inner[j];
            }
            if b.contains(Some(r)) {
                let (i, j) = choose|i: int, j: int| #![trigger t[i], inner[j]] 0 <= i < t.len() && 0 <= j < inner.len() && t[i] is Ok && inner[j] is Ok && self.keeps(t[i]->Ok_0@, inner[j]->Ok_0@) && r == t[i]->Ok_0@ + inner[j]->Ok_0@;
                assert(outer[i + 1] == t[i]);
                let _ = inner[j];
            }
        }
    }
}
pub proof fn lemma_step_row(c: NlCfg, outer: Groups, todo: Groups, all: Groups)
    requires outer.len() > 0, outer[0] is Ok, todo.len() > 0,
    ensures c.rest(outer, todo, all) == c.item(outer[0]->Ok_0@, todo[0]) + c.rest(outer, todo.drop_first(), all),
        c.item(outer[0]->Ok_0@, todo[0]).len() == 0 ==> c.rest(outer, todo, all) == c.rest(outer, todo.drop_first(), all),
        c.item(outer[0]->Ok_0@, todo[0]).len() == 1 ==> c.rest(outer, todo, all)[0] == c.item(outer[0]->Ok_0@, todo[0])[0] && c.rest(outer, todo, all).drop_first() == c.rest(outer, todo.drop_first(), all),
{
    let (i, r) = (c.item(outer[0]->Ok_0@, todo[0]), c.rest(outer, todo.drop_first(), all));
    assert(c.rest(outer, todo, all) =~= i + r);
    if i.len() == 0 { assert(i + r =~= r); }
    if i.len() == 1 { assert((i + r).drop_first() =~= r); }
}
pub proof fn lemma_end_row(c: NlCfg, outer: Groups, todo: Groups, all: Groups)
    requires outer.len() > 0, outer[0] is Ok, todo.len() == 0,
    ensures c.rest(outer, todo, all) == c.rest(outer.drop_first(), all, all),
{
    assert(c.rest(outer, todo, all) =~= c.product(outer.drop_first(), all));
    assert(c.rest(outer.drop_first(), all, all) =~= c.product(outer.drop_first(), all));
}
pub proof fn lemma_cached(c: Seq<MatchGroup>, i: Groups, m: MatchGroup)
    requires i.len() > 0, i[0] == Ok::<MatchGroup, GraphAnnisError>(m),
    ensures ok_groups(c.push(m)) + i.drop_first() == ok_groups(c) + i,
{
    assert(ok_groups(c.push(m)) + i.drop_first() =~= ok_groups(c) + i);
}
pub proof fn lemma_contains_add<T>(a: Seq<T>, b: Seq<T>, x: T)
    ensures (a + b).contains(x) <==> a.contains(x) || b.contains(x),
{
    if a.contains(x) { let k = choose|k: int| 0 <= k < a.len() && a[k] == x; assert((a + b)[k] == x); }
    if b.contains(x) { let k = choose|k: int| 0 <= k < b.len() && b[k] == x; assert((a + b)[a.len() + k] == x); }
}
/// what a step of a join delivers: the next result, or an error
pub open spec fn step(ret: Option<Result<MatchGroup>>, before: Seq<Option<Seq<Match>>>, after: Seq<Option<Seq<Match>>>) -> bool {
    match ret {
        None => before.len() == 0,
        Some(Ok(m)) => before.len() > 0 && before[0] == Some(m@) && after == before.drop_first(),
        Some(Err(_)) => true,
    }
}
pub open spec fn ok_groups(v: Seq<MatchGroup>) -> Groups { v.map_values(|m: MatchGroup| Ok::<MatchGroup, GraphAnnisError>(m)) }
pub open spec fn long(s: Groups, idx: int) -> bool { forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> (s[i] matches Ok(m) ==> m@.len() > idx) }

pub type QName = (Option<Seq<char>>, Option<Seq<char>>);
pub open spec fn qview(r: (Option<String>, Option<String>)) -> QName {
    (match r.0 { Some(x) => Some(x@), None => None }, match r.1 { Some(x) => Some(x@), None => None })
}
impl NodeAnnos {
    /// annotations with this name of the given nodes (P06, P07)
    pub uninterp spec fn keys_seq(&self, q: QName, nodes: Seq<NodeID>) -> Seq<Match>;
    /// the node has an annotation with this name
    pub uninterp spec fn has(&self, q: QName, m: Match) -> bool;
}
pub open spec fn nodes_of(s: Seq<Match>) -> Seq<NodeID> { s.map_values(|m: Match| m.node) }
#[verifier::external_body]
pub fn keys_for(a: &NodeAnnos, q: &(Option<String>, Option<String>), it: It<Result<Match>>) -> (r: Result<Vec<Match>>)
    ensures r matches Ok(v) ==> (forall|i: int| #![trigger it@[i]] 0 <= i < it@.len() ==> it@[i] is Ok) && v@ == a.keys_seq(qview(*q), nodes_of(it@.map_values(|x: Result<Match>| x->Ok_0)))
{ unimplemented!() }
pub open spec fn same(a: Match, b: Match) -> bool { !diff(a, b) }
pub open spec fn has_same(s: Seq<Match>, m: Match) -> bool { exists|i: int| #![trigger s[i]] 0 <= i < s.len() && same(s[i], m) }
/// set of matches
#[verifier::external_body]
pub struct MatchSet { x: u8 }
impl MatchSet {
    pub uninterp spec fn has(&self, m: Match) -> bool;
    #[verifier::external_body]
    pub fn new() -> (r: MatchSet) ensures forall|m: Match| #![trigger r.has(m)] !r.has(m) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, m: Match) -> (r: bool) ensures r == !old(self).has(m), forall|x: Match| #![trigger final(self).has(x)] final(self).has(x) == (old(self).has(x) || same(m, x)) { unimplemented!() }
}
/// only accepted partners and each one once
pub open spec fn accepted_once(op: Op, m: Match, s: Seq<Match>) -> Seq<Match>
    decreases s.len()
{
    if s.len() == 0 { s } else {
        let r = accepted_once(op, m, s.drop_last());
        if op.accepts(m, s.last()) && !has_same(r, s.last()) { r.push(s.last()) } else { r }
    }
}
pub open spec fn candidates(op: Op, a: NodeAnnos, q: QName, m: Match) -> Seq<Match> {
    let s = a.keys_seq(q, nodes_of(op.partner_seq(m)));
    if op.by_anno() { accepted_once(op, m, s) } else { s }
}
pub proof fn lemma_nodes(r: Seq<Result<Match>>, s: Seq<Match>)
    requires r.len() == s.len(), forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> (r[i] matches Ok(x) ==> x == s[i]),
    ensures (forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> r[i] is Ok) ==> nodes_of(r.map_values(|x: Result<Match>| x->Ok_0)) == nodes_of(s),
{
    if forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> r[i] is Ok {
        assert forall|i: int| 0 <= i < r.len() implies r.map_values(|x: Result<Match>| x->Ok_0)[i] == s[i] by { let _ = r[i]; }
        assert(r.map_values(|x: Result<Match>| x->Ok_0) =~= s);
    }
}
pub struct IjCfg { pub op: Op, pub idx: int, pub desc: NodeSearchDesc, pub annos: NodeAnnos, pub global: bool }
impl IjCfg {
    pub open spec fn cond_ok(self, m: Match) -> bool { forall|i: int| #![trigger self.desc.cond@[i]] 0 <= i < self.desc.cond@.len() ==> self.desc.cond@[i].accepts(m) }
    pub open spec fn out(self, m: Match) -> Match { match self.desc.const_output { Some(k) => Match { node: m.node, anno_key: k }, None => m } }
    pub open spec fn keeps(self, l: Seq<Match>, m: Match) -> bool {
        self.cond_ok(m) && (self.op.reflexive() || (self.global && diff_all(self.out(m), l)) || (!self.global && diff(self.out(m), l[self.idx])))
    }
    /// combinations of one match of the left-hand side; with a constant annotation each node counts once
    pub open spec fn row(self, l: Seq<Match>, c: Seq<Match>, skip: Option<NodeID>) -> Seq<Option<Seq<Match>>>
        decreases c.len()
    {
        if c.len() == 0 { seq![] }
        else if skip == Some(c[0].node) { self.row(l, c.drop_first(), skip) }
        else if self.keeps(l, c[0]) { seq![Some(l.push(self.out(c[0])))] + self.row(l, c.drop_first(), if self.desc.const_output is Some { Some(c[0].node) } else { None }) }
        else { self.row(l, c.drop_first(), None) }
    }
    pub open spec fn cands(self, l: Seq<Match>) -> Seq<Match> { candidates(self.op, self.annos, qview(self.desc.qname), l[self.idx]) }
    pub open spec fn lhs_row(self, l: Result<MatchGroup>) -> Seq<Option<Seq<Match>>> { match l { Err(_) => seq![None], Ok(l) => self.row(l@, self.cands(l@), None) } }
    pub open spec fn all(self, lhs: Groups) -> Seq<Option<Seq<Match>>>
        decreases lhs.len()
    {
        if lhs.len() == 0 { seq![] } else { self.lhs_row(lhs[0]) + self.all(lhs.drop_first()) }
    }
    pub open spec fn rest(self, lhs: Groups, c: Option<Seq<Match>>) -> Seq<Option<Seq<Match>>> {
        match c { Some(c) => if lhs.len() == 0 { seq![] } else { (match lhs[0] { Err(_) => seq![None], Ok(l) => self.row(l@, c, None) }) + self.all(lhs.drop_first()) }, None => self.all(lhs) }
    }
}
/// sound and complete: a combination is delivered if and only if it is kept
pub proof fn lemma_ij_row(g: IjCfg, l: Seq<Match>, c: Seq<Match>, skip: Option<NodeID>, r: Seq<Match>)
    requires skip is Some ==> g.desc.const_output is Some,
    ensures g.row(l, c, skip).contains(Some(r)) ==> exists|j: int| #![trigger c[j]] 0 <= j < c.len() && g.keeps(l, c[j]) && r == l.push(g.out(c[j])),
        forall|j: int| #![trigger c[j]] 0 <= j < c.len() && g.keeps(l, c[j]) && r == l.push(g.out(c[j])) && skip != Some(c[j].node) ==> g.row(l, c, skip).contains(Some(r)),
    decreases c.len()
{
    if c.len() > 0 {
        let t = c.drop_first();
        let emit = skip != Some(c[0].node) && g.keeps(l, c[0]);
        let s2 = if skip == Some(c[0].node) { skip } else if emit && g.desc.const_output is Some { Some(c[0].node) } else { None };
        let a = if emit { seq![Some(l.push(g.out(c[0])))] } else { seq![] };
        let b = g.row(l, t, s2);
        assert(g.row(l, c, skip) =~= a + b);
        lemma_ij_row(g, l, t, s2, r);
        lemma_contains_add(a, b, Some(r));
        if a.contains(Some(r)) { assert(a[0] == Some(r)); let _ = c[0]; }
        if b.contains(Some(r)) {
            let j = choose|j: int| #![trigger t[j]] 0 <= j < t.len() && g.keeps(l, t[j]) && r == l.push(g.out(t[j]));
            assert(c[j + 1] == t[j]);
        }
        assert forall|j: int| #![trigger c[j]] 0 <= j < c.len() && g.keeps(l, c[j]) && r == l.push(g.out(c[j])) && skip != Some(c[j].node) implies g.row(l, c, skip).contains(Some(r)) by {
            if j == 0 { assert(a[0] == Some(r)); } else {
                assert(t[j - 1] == c[j]);
                if s2 == Some(c[j].node) { assert(g.out(c[j]) == g.out(c[0])); assert(a[0] == Some(r)); }
            }
        }
    }
}
pub proof fn lemma_ij_all(g: IjCfg, lhs: Groups, r: Seq<Match>)
    ensures g.all(lhs).contains(Some(r)) <==> exists|i: int, j: int| #![trigger lhs[i], g.cands(lhs[i]->Ok_0@)[j]] 0 <= i < lhs.len() && lhs[i] is Ok && 0 <= j < g.cands(lhs[i]->Ok_0@).len() && g.keeps(lhs[i]->Ok_0@, g.cands(lhs[i]->Ok_0@)[j]) && r == lhs[i]->Ok_0@.push(g.out(g.cands(lhs[i]->Ok_0@)[j])),
    decreases lhs.len()
{
    if lhs.len() > 0 {
        let t = lhs.drop_first();
        let (a, b) = (g.lhs_row(lhs[0]), g.all(t));
        lemma_ij_all(g, t, r);
        lemma_contains_add(a, b, Some(r));
        if lhs[0] is Ok { lemma_ij_row(g, lhs[0]->Ok_0@, g.cands(lhs[0]->Ok_0@), None, r); } else { assert forall|k: int| 0 <= k < a.len() implies a[k] != Some(r) by {} }
        if a.contains(Some(r)) {
            let l = lhs[0]->Ok_0@;
            let j = choose|j: int| #![trigger g.cands(l)[j]] 0 <= j < g.cands(l).len() && g.keeps(l, g.cands(l)[j]) && r == l.push(g.out(g.cands(l)[j]));
            assert(lhs[0]->Ok_0@ == l && g.cands(lhs[0]->Ok_0@)[j] == g.cands(l)[j]);
        }
        if b.contains(Some(r)) {
            let (i, j) = choose|i: int, j: int| #![trigger t[i], g.cands(t[i]->Ok_0@)[j]] 0 <= i < t.len() && t[i] is Ok && 0 <= j < g.cands(t[i]->Ok_0@).len() && g.keeps(t[i]->Ok_0@, g.cands(t[i]->Ok_0@)[j]) && r == t[i]->Ok_0@.push(g.out(g.cands(t[i]->Ok_0@)[j]));
            assert(lhs[i + 1] == t[i]);
            let _ = g.cands(lhs[i + 1]->Ok_0@)[j];
        }
        if exists|i: int, j: int| #![trigger lhs[i], g.cands(lhs[i]->Ok_0@)[j]] 0 <= i < lhs.len() && lhs[i] is Ok && 0 <= j < g.cands(lhs[i]->Ok_0@).len() && g.keeps(lhs[i]->Ok_0@, g.cands(lhs[i]->Ok_0@)[j]) && r == lhs[i]->Ok_0@.push(g.out(g.cands(lhs[i]->Ok_0@)[j])) {
            let (i, j) = choose|i: int, j: int| #![trigger lhs[i], g.cands(lhs[i]->Ok_0@)[j]] 0 <= i < lhs.len() && lhs[i] is Ok && 0 <= j < g.cands(lhs[i]->Ok_0@).len() && g.keeps(lhs[i]->Ok_0@, g.cands(lhs[i]->Ok_0@)[j]) && r == lhs[i]->Ok_0@.push(g.out(g.cands(lhs[i]->Ok_0@)[j]));
            if i > 0 { assert(t[i - 1] == lhs[i]); let _ = g.cands(t[i - 1]->Ok_0@)[j]; } else { let _ = g.cands(lhs[0]->Ok_0@)[j]; }
        }
    }
}
/// the candidates are the nodes with the annotation which the operator accepts, whatever order they are listed in
pub proof fn lemma_candidates(op: Op, a: NodeAnnos, q: QName, l: Match, m: Match)
    requires
        // P12: the listed partners are the accepted ones
        op.by_anno() ==> (op.accepts(l, m) && a.has(q, m) ==> nodes_of(op.partner_seq(l)).contains(m.node)),
        !op.by_anno() ==> (op.accepts(l, m) <==> nodes_of(op.partner_seq(l)).contains(m.node)),
        // P06, P07: annotations of a list of nodes
        forall|x: Match| #![trigger has_same(a.keys_seq(q, nodes_of(op.partner_seq(l))), x)] has_same(a.keys_seq(q, nodes_of(op.partner_seq(l))), x) <==> a.has(q, x) && nodes_of(op.partner_seq(l)).contains(x.node),
        forall|x: Match, y: Match| #![trigger same(x, y)] same(x, y) ==> op.accepts(l, x) == op.accepts(l, y) && a.has(q, x) == a.has(q, y),
    ensures has_same(candidates(op, a, q, l), m) <==> a.has(q, m) && op.accepts(l, m),
{
    let s = a.keys_seq(q, nodes_of(op.partner_seq(l)));
    assert(has_same(s, m) <==> a.has(q, m) && nodes_of(op.partner_seq(l)).contains(m.node));
    if op.by_anno() { lemma_accepted_once(op, l, s, m); }
}
pub proof fn lemma_accepted_once(op: Op, l: Match, s: Seq<Match>, m: Match)
    requires forall|x: Match, y: Match| #![trigger same(x, y)] same(x, y) ==> op.accepts(l, x) == op.accepts(l, y),
    ensures has_same(accepted_once(op, l, s), m) <==> has_same(s, m) && op.accepts(l, m),
    decreases s.len()
{
    if s.len() > 0 {
        let (p, x) = (s.drop_last(), s.last());
        let r0 = accepted_once(op, l, p);
        let r = accepted_once(op, l, s);
        lemma_accepted_once(op, l, p, m);
        lemma_accepted_once(op, l, p, x);
        if has_same(r0, m) { let i = choose|i: int| #![trigger r0[i]] 0 <= i < r0.len() && same(r0[i], m); assert(same(r[i], m)); }
        if has_same(p, m) { let i = choose|i: int| #![trigger p[i]] 0 <= i < p.len() && same(p[i], m); assert(same(s[i], m)); }
        if has_same(s, m) {
            let i = choose|i: int| #![trigger s[i]] 0 <= i < s.len() && same(s[i], m);
            if i < p.len() { assert(same(p[i], m)); } else {
                assert(same(x, m));
                if op.accepts(l, m) {
                    assert(op.accepts(l, x));
                    if has_same(r0, x) { let k = choose|k: int| #![trigger r0[k]] 0 <= k < r0.len() && same(r0[k], x); assert(same(r0[k], m)); assert(same(r[k], m)); }
                    else { assert(r[r0.len() as int] == x); assert(same(r[r0.len() as int], m)); }
                }
            }
        }
        if has_same(r, m) {
            let i = choose|i: int| #![trigger r[i]] 0 <= i < r.len() && same(r[i], m);
            if i < r0.len() { assert(same(r0[i], m)); } else { assert(r[i] == x); assert(same(s[s.len() - 1], m)); }
        }
    }
}
pub proof fn lemma_ij_step(g: IjCfg, lhs: Groups, c: Seq<Match>)
    requires lhs.len() > 0, lhs[0] is Ok, c.len() > 0,
    ensures !g.keeps(lhs[0]->Ok_0@, c[0]) ==> g.rest(lhs, Some(c)) == g.rest(lhs, Some(c.drop_first())),
        g.keeps(lhs[0]->Ok_0@, c[0]) ==> g.rest(lhs, Some(c)).len() > 0 && g.rest(lhs, Some(c))[0] == Some(lhs[0]->Ok_0@.push(g.out(c[0])))
            && g.rest(lhs, Some(c)).drop_first() == g.row(lhs[0]->Ok_0@, c.drop_first(), if g.desc.const_output is Some { Some(c[0].node) } else { None }) + g.all(lhs.drop_first()),
{
    let l = lhs[0]->Ok_0@;
    if g.keeps(l, c[0]) {
        let r = g.row(l, c.drop_first(), if g.desc.const_output is Some { Some(c[0].node) } else { None });
        let a = g.all(lhs.drop_first());
        assert(g.rest(lhs, Some(c)) =~= (seq![Some(l.push(g.out(c[0])))] + r) + a);
        assert(g.rest(lhs, Some(c)).drop_first() =~= r + a);
    } else {
        assert(g.row(l, c, None) == g.row(l, c.drop_first(), None));
    }
}
pub proof fn lemma_ij_end(g: IjCfg, lhs: Groups)
    requires lhs.len() > 0,
    ensures lhs[0] is Ok ==> g.rest(lhs, Some(seq![])) == g.all(lhs.drop_first()),
        lhs[0] is Ok ==> g.rest(lhs, Some(g.cands(lhs[0]->Ok_0@))) == g.all(lhs),
{
    if lhs[0] is Ok { assert(g.rest(lhs, Some(seq![])) =~= g.all(lhs.drop_first())); }
}
