global size_of usize == 8;
pub type NodeID = u64;
#[verifier::external_body]
pub struct LineColumnRange { x: u8 }
pub struct AQLError { pub desc: String, pub location: Option<LineColumnRange> }
pub enum GraphAnnisError { AQLSemanticError(AQLError), Other(u8) }
pub type Result<T> = std::result::Result<T, GraphAnnisError>;
#[verifier::external_body]
pub fn some_string() -> String { unimplemented!() }
#[derive(Clone, Copy)]
pub struct TimeoutCheck { pub x: u64 }
/// estimated sizes, they only influence the order of joins
#[verifier::external_body]
pub struct SizeCache { x: u8 }
impl SizeCache {
    #[verifier::external_body]
    pub fn get(&self, k: &usize) -> Option<&usize> { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&self, k: usize, v: usize) -> Option<usize> { unimplemented!() }
}
pub fn max(a: usize, b: usize) -> usize { if a < b { b } else { a } }
pub fn same<T>(x: T) -> (r: T) ensures r == x { x }
#[verifier::external_body]
pub fn str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }

//@item src=core/src/types.rs item="struct AnnoKey"
//@item src=core/src/annostorage/mod.rs item="struct Match"
//@item src=core/src/annostorage/mod.rs item="enum ValueSearch"
/// strings are equal if their texts are
pub axiom fn axiom_key_ext(a: AnnoKey, b: AnnoKey) ensures a.ns@ == b.ns@ && a.name@ == b.name@ ==> a == b;
pub uninterp spec fn token_spec() -> AnnoKey;
pub uninterp spec fn node_type_spec() -> AnnoKey;
#[verifier::external_body]
pub fn TOKEN_key() -> (r: Arc<AnnoKey>) ensures *r == token_spec() { unimplemented!() }
#[verifier::external_body]
pub fn NODE_TYPE_key() -> (r: Arc<AnnoKey>) ensures *r == node_type_spec() { unimplemented!() }
#[verifier::external_body]
pub fn TOKEN_ns() -> (r: &'static str) ensures r@ == token_spec().ns@ { unimplemented!() }
#[verifier::external_body]
pub fn TOKEN_name() -> (r: &'static str) ensures r@ == token_spec().name@ { unimplemented!() }
#[verifier::external_body]
pub fn NODE_TYPE_ns() -> (r: &'static str) ensures r@ == node_type_spec().ns@ { unimplemented!() }
#[verifier::external_body]
pub fn NODE_TYPE_name() -> (r: &'static str) ensures r@ == node_type_spec().name@ { unimplemented!() }
#[verifier::external_body]
pub fn copy_key(k: &Option<Arc<AnnoKey>>) -> (r: Option<Arc<AnnoKey>>) ensures r == *k { unimplemented!() }
#[verifier::external_body]
pub fn copy_string(s: &String) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn opt_str(s: &Option<String>) -> (r: Option<&str>) ensures ov(r) == sv(*s) { unimplemented!() }
#[verifier::external_body]
pub fn is_node_name(q: &(Option<String>, String)) -> bool { unimplemented!() }
pub open spec fn ov(x: Option<&str>) -> Option<Seq<char>> { match x { Some(s) => Some(s@), None => None } }
pub open spec fn sv(x: Option<String>) -> Option<Seq<char>> { match x { Some(s) => Some(s@), None => None } }
pub open spec fn vview(v: ValueSearch<String>) -> ValueSearch<Seq<char>> { match v { ValueSearch::Any => ValueSearch::Any, ValueSearch::Some(s) => ValueSearch::Some(s@), ValueSearch::NotSome(s) => ValueSearch::NotSome(s@) } }
pub open spec fn rview(v: ValueSearch<&str>) -> ValueSearch<Seq<char>> { match v { ValueSearch::Any => ValueSearch::Any, ValueSearch::Some(s) => ValueSearch::Some(s@), ValueSearch::NotSome(s) => ValueSearch::NotSome(s@) } }
/// `ValueSearch::from(o)`
pub fn search_of<T>(o: Option<T>) -> (r: ValueSearch<T>) ensures r == (match o { Some(x) => ValueSearch::Some(x), None => ValueSearch::Any }) { match o { Some(x) => ValueSearch::Some(x), None => ValueSearch::Any } }
/// `v.as_ref().map(String::as_str)`
#[verifier::external_body]
pub fn search_ref(v: &ValueSearch<String>) -> (r: ValueSearch<&str>) ensures rview(r) == vview(*v) { unimplemented!() }

// ---- regular expressions -----------------------------------------------------------------------
/// the pattern is valid, and the values it matches as a whole
pub uninterp spec fn re_valid(p: Seq<char>) -> bool;
pub uninterp spec fn re_match(p: Seq<char>, s: Seq<char>) -> bool;
pub uninterp spec fn anchored(p: Seq<char>) -> Seq<char>;
pub open spec fn full_match(p: Seq<char>, s: Seq<char>) -> bool { re_match(anchored(p), s) }
#[verifier::external_body]
pub fn regex_full_match(p: &String) -> (r: String) ensures r@ == anchored(p@) { unimplemented!() }
#[verifier::external_body]
pub struct Regex { x: u8 }
impl Regex {
    pub uninterp spec fn pat(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn new(p: &String) -> (r: Result<Regex>) ensures r matches Ok(x) ==> x.pat() == p@ && re_valid(p@) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_match(&self, s: &String) -> (r: bool) ensures r == re_match(self.pat(), s@) { unimplemented!() }
}
/// a pattern that matches exactly one text
#[verifier::external_body]
pub fn exact_value_for_regex(p: &String) -> (r: Option<String>) ensures r matches Some(e) ==> forall|s: Seq<char>| #![trigger full_match(p@, s)] full_match(p@, s) == (s == e@) { unimplemented!() }

// ---- iterators: the items they deliver ---------------------------------------------------------
pub struct It<T> { pub v: Vec<T> }
impl<T> View for It<T> { type V = Seq<T>; open spec fn view(&self) -> Seq<T> { self.v@ } }
impl<T> It<T> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>) ensures r is None <==> old(self)@.len() == 0, r is None ==> final(self)@ == old(self)@, r matches Some(x) ==> x == old(self)@[0] && final(self)@ == old(self)@.drop_first() { unimplemented!() }
    pub fn into_iter(self) -> (r: It<T>) ensures r@ == self@ { self }
    pub fn collect(self) -> (r: Vec<T>) ensures r@ == self@ { self.v }
    #[verifier::external_body]
    pub fn map<B, F: Fn(T) -> B>(self, f: F) -> (r: It<B>)
        requires forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() ==> call_requires(f, (self@[i],)),
        ensures r@.len() == self@.len(), forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < r@.len() ==> call_ensures(f, (self@[i],), r@[i]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn filter<F: Fn(&T) -> bool>(self, f: F) -> (r: It<T>)
        requires forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() ==> call_requires(f, (&self@[i],)),
        ensures forall|j: int| #![trigger r@[j]] 0 <= j < r@.len() ==> exists|i: int| #![trigger self@[i]] 0 <= i < self@.len() && self@[i] == r@[j] && call_ensures(f, (&self@[i],), true),
            forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() ==> call_ensures(f, (&self@[i],), false) || exists|j: int| #![trigger r@[j]] 0 <= j < r@.len() && r@[j] == self@[i],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn filter_map<B, F: Fn(T) -> Option<B>>(self, f: F) -> (r: It<B>)
        requires forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() ==> call_requires(f, (self@[i],)),
        ensures forall|j: int| #![trigger r@[j]] 0 <= j < r@.len() ==> exists|i: int| #![trigger self@[i]] 0 <= i < self@.len() && call_ensures(f, (self@[i],), Some(r@[j])),
            forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() ==> call_ensures(f, (self@[i],), None) || exists|j: int| #![trigger r@[j]] 0 <= j < r@.len() && call_ensures(f, (self@[i],), Some(r@[j])),
    { unimplemented!() }
    /// the first item with each key
    #[verifier::external_body]
    pub fn unique_by<K, F: Fn(&T) -> K>(self, f: F) -> (r: It<T>)
        requires forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() ==> call_requires(f, (&self@[i],)),
        ensures forall|j: int| #![trigger r@[j]] 0 <= j < r@.len() ==> exists|i: int| #![trigger self@[i]] 0 <= i < self@.len() && self@[i] == r@[j],
            forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() ==> exists|j: int, k: K| #![trigger r@[j], call_ensures(f, (&self@[i],), k)] 0 <= j < r@.len() && call_ensures(f, (&self@[i],), k) && call_ensures(f, (&r@[j],), k),
            forall|i: int, j: int| #![trigger r@[i], r@[j]] 0 <= i < j < r@.len() ==> exists|k: K, l: K| #![trigger call_ensures(f, (&r@[i],), k), call_ensures(f, (&r@[j],), l)] call_ensures(f, (&r@[i],), k) && call_ensures(f, (&r@[j],), l) && k != l,
    { unimplemented!() }
}
impl<T> It<Result<T>> {
    #[verifier::external_body]
    pub fn map_ok<B, F: Fn(T) -> B>(self, f: F) -> (r: It<Result<B>>)
        requires forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() && self@[i] is Ok ==> call_requires(f, (self@[i]->Ok_0,)),
        ensures r@.len() == self@.len(), forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < r@.len() ==> match self@[i] { Ok(x) => r@[i] is Ok && call_ensures(f, (x,), r@[i]->Ok_0), Err(_) => r@[i] is Err },
    { unimplemented!() }
    /// keeps errors and the items with the condition, in the same order (`from`: where an item came from)
    #[verifier::external_body]
    pub fn filter_ok<F: Fn(&T) -> bool>(self, f: F) -> (ret: (It<Result<T>>, Ghost<spec_fn(int) -> int>))
        requires forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() && self@[i] is Ok ==> call_requires(f, (&self@[i]->Ok_0,)),
        ensures kept_ok(self@, ret.0@, ret.1@, |x: T, b: bool| call_ensures(f, (&x,), b)),
    { unimplemented!() }
}
pub open spec fn kept_ok<T>(s: Seq<Result<T>>, r: Seq<Result<T>>, from: spec_fn(int) -> int, c: spec_fn(T, bool) -> bool) -> bool {
    &&& forall|j: int| #![trigger r[j]] 0 <= j < r.len() ==> 0 <= from(j) < s.len() && s[from(j)] == r[j] && (r[j] matches Ok(x) ==> c(x, true))
    &&& forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i < j < r.len() ==> from(i) < from(j)
    &&& forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> (s[i] matches Ok(x) && c(x, false)) || exists|j: int| #![trigger r[j]] 0 <= j < r.len() && r[j] == s[i]
}

// ---- the graph as contracts (P02, P06, P07, P10) -----------------------------------------------
#[verifier::external_body]
pub struct NodeAnnos { x: u8 }
pub type QName = (Option<Seq<char>>, Seq<char>);
impl NodeAnnos {
    /// value of an annotation of a node
    pub uninterp spec fn value(&self, m: Match) -> Option<Seq<char>>;
    pub uninterp spec fn size(&self, ns: Option<Seq<char>>, name: Seq<char>) -> usize;
    /// the node has this annotation and the name is the wanted one
    pub open spec fn has(&self, q: QName, m: Match) -> bool { self.value(m) is Some && m.anno_key.name@ == q.1 && (q.0 matches Some(ns) ==> m.anno_key.ns@ == ns) }
    pub open spec fn fits(&self, v: ValueSearch<Seq<char>>, m: Match) -> bool {
        match v { ValueSearch::Any => true, ValueSearch::Some(s) => self.value(m) == Some(s), ValueSearch::NotSome(s) => self.value(m) != Some(s) }
    }
    pub open spec fn fits_re(&self, p: Seq<char>, negated: bool, m: Match) -> bool { full_match(p, self.value(m)->0) != negated }
    /// all annotations with this name have the same namespace
    pub open spec fn one_name(&self, name: Seq<char>) -> bool { forall|m: Match, n: Match| #![trigger self.value(m), self.value(n)] self.value(m) is Some && m.anno_key.name@ == name && self.value(n) is Some && n.anno_key.name@ == name ==> m.anno_key == n.anno_key }
    #[verifier::external_body]
    pub fn get_value_for_item(&self, n: &NodeID, k: &Arc<AnnoKey>) -> (r: Result<Option<String>>)
        ensures r matches Ok(v) ==> match v { Some(s) => self.value(Match { node: *n, anno_key: *k }) == Some(s@), None => self.value(Match { node: *n, anno_key: *k }) is None }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn exact_anno_search(&self, ns: Option<&str>, name: &str, v: ValueSearch<&str>) -> (r: It<Result<Match>>)
        ensures delivers(r@, |m: Match| self.has((ov(ns), name@), m) && self.fits(rview(v), m), false)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn regex_anno_search(&self, ns: Option<&str>, name: &str, p: &str, negated: bool) -> (r: It<Result<Match>>)
        ensures re_valid(anchored(p@)) ==> delivers(r@, |m: Match| self.has((ov(ns), name@), m) && self.fits_re(p@, negated, m), false)
    { unimplemented!() }
    /// all qualified names with this name
    #[verifier::external_body]
    pub fn get_qnames(&self, name: &str) -> (r: Result<Vec<AnnoKey>>)
        ensures r matches Ok(v) ==> (v@.len() <= 1 ==> self.one_name(name@))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn number_of_annotations_by_name(&self, ns: Option<&str>, name: &str) -> (r: Result<usize>) ensures r matches Ok(n) ==> n == self.size(ov(ns), name@) { unimplemented!() }
    // contracts proved in the unit `estimates`
    #[verifier::external_body]
    pub fn guess_max_count(&self, ns: Option<&str>, name: &str, lower: &str, upper: &str) -> (r: Result<usize>) ensures r matches Ok(n) ==> n <= self.size(ov(ns), name@) { unimplemented!() }
    #[verifier::external_body]
    pub fn guess_max_count_regex(&self, ns: Option<&str>, name: &str, pattern: &str) -> (r: Result<usize>) ensures r matches Ok(n) ==> n <= self.size(ov(ns), name@) { unimplemented!() }
}
pub enum AnnotationComponentType { Coverage, InverseCoverage, Dominance, Pointing, Ordering, LeftToken, RightToken, PartOf }
#[verifier::external_body]
pub struct Component { x: u8 }
impl Component { pub uninterp spec fn ctype(&self) -> AnnotationComponentType; }
pub struct GraphStatistic { pub nodes: usize }
//@item src=graphannis/src/annis/operator.rs item="enum EdgeAnnoSearchSpec"

/// annotations of edges; a match of them contains the source node of the edge
#[verifier::external_body]
pub struct EdgeAnnos { x: u8 }
pub struct EdgeMatch { pub node: NodeID }
impl EdgeAnnos {
    pub uninterp spec fn src(&self, q: QName, v: ValueSearch<Seq<char>>, n: NodeID) -> bool;
    #[verifier::external_body]
    pub fn exact_anno_search(&self, ns: Option<&str>, name: &str, v: ValueSearch<&str>) -> (r: It<Result<EdgeMatch>>)
        ensures edge_list(r@, *self, (ov(ns), name@), rview(v))
    { unimplemented!() }
}
/// only edges with this annotation, without errors all of them
pub open spec fn edge_list(s: Seq<Result<EdgeMatch>>, a: EdgeAnnos, q: QName, v: ValueSearch<Seq<char>>) -> bool {
    &&& forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> (s[i] matches Ok(m) ==> a.src(q, v, m.node))
    &&& (forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> s[i] is Ok) ==> forall|n: NodeID| #![trigger a.src(q, v, n)] a.src(q, v, n) ==> exists|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i] is Ok && s[i]->Ok_0.node == n
}
/// only wanted nodes, without errors all of them
pub open spec fn lists_nodes(s: Seq<Result<NodeID>>, p: spec_fn(NodeID) -> bool) -> bool {
    &&& forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> (s[i] matches Ok(n) ==> p(n))
    &&& (forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> s[i] is Ok) ==> forall|n: NodeID| #![trigger p(n)] p(n) ==> exists|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i] == Ok::<NodeID, GraphAnnisError>(n)
}
#[verifier::external_body]
pub struct Gs { x: u8 }
impl Gs {
    pub uninterp spec fn out(&self, n: NodeID) -> bool;
    /// reading this storage can fail
    pub uninterp spec fn faulty(&self) -> bool;
    #[verifier::external_body]
    pub fn get_outgoing_edges(&self, n: NodeID) -> (r: It<Result<NodeID>>)
        ensures r@.len() == 0 ==> !self.out(n), r@.len() > 0 ==> match r@[0] { Ok(_) => self.out(n), Err(_) => self.faulty() }
    { unimplemented!() }
    pub uninterp spec fn edge_annos(&self) -> EdgeAnnos;
    #[verifier::external_body]
    pub fn get_anno_storage(&self) -> (r: &EdgeAnnos) ensures *r == self.edge_annos() { unimplemented!() }
    #[verifier::external_body]
    pub fn source_nodes(&self) -> (r: It<Result<NodeID>>) ensures lists_nodes(r@, self.sources()) { unimplemented!() }
    pub open spec fn sources(&self) -> spec_fn(NodeID) -> bool { |n: NodeID| self.out(n) }
    #[verifier::external_body]
    pub fn get_statistics(&self) -> (r: Option<&GraphStatistic>) ensures r matches Some(s) ==> (s.nodes == 0 ==> forall|n: NodeID| #![trigger self.out(n)] !self.out(n)) { unimplemented!() }
}
#[verifier::external_body]
pub struct AnnotationGraph { x: u8 }
impl AnnotationGraph {
    pub uninterp spec fn annos(&self) -> NodeAnnos;
    pub uninterp spec fn storage(&self, c: Component) -> Option<Arc<Gs>>;
    #[verifier::external_body]
    pub fn get_node_annos(&self) -> (r: &NodeAnnos) ensures *r == self.annos() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_graphstorage(&self, c: &Component) -> (r: Option<Arc<Gs>>) ensures r == self.storage(*c) { unimplemented!() }
    /// components of a type
    #[verifier::external_body]
    pub fn get_all_components(&self, t: Option<AnnotationComponentType>, name: Option<&str>) -> (r: It<Component>)
        ensures forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> (t matches Some(t) ==> r@[i].ctype() == t),
            name is None ==> forall|c: Component| #![trigger self.storage(c)] self.storage(c) is Some && (t matches Some(t) ==> c.ctype() == t) ==> r@.contains(c),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_graphstorage_as_ref(&self, c: &Component) -> (r: Option<&Gs>) ensures match r { Some(x) => self.storage(*c) matches Some(y) && *x == *y, None => self.storage(*c) is None } { unimplemented!() }
    pub open spec fn covers(&self, c: Component) -> bool { c.ctype() == AnnotationComponentType::Coverage && self.storage(c) is Some }
    /// the node covers no other node
    pub open spec fn leaf(&self, n: NodeID) -> bool { forall|c: Component| #![trigger self.covers(c)] self.covers(c) ==> !self.storage(c)->0.out(n) }
    pub open spec fn faulty(&self) -> bool { exists|c: Component| #![trigger self.covers(c)] self.covers(c) && self.storage(c)->0.faulty() }
}
/// the storages decide whether a node is a leaf
pub open spec fn decides(g: AnnotationGraph, v: Seq<Arc<Gs>>) -> bool {
    &&& forall|n: NodeID| #![trigger g.leaf(n)] g.leaf(n) <==> forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> !v[i].out(n)
    &&& forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> (v[i].faulty() ==> g.faulty())
}
/// there are edges (if unknown, assume so)
pub open spec fn nonempty(s: Arc<Gs>, b: bool) -> bool { !b ==> forall|n: NodeID| #![trigger s.out(n)] !s.out(n) }
pub open spec fn from_storage(g: AnnotationGraph, c: Component, r: Option<Arc<Gs>>) -> bool { r == g.storage(c) }

pub open spec fn covering(g: AnnotationGraph, x: Arc<Gs>) -> bool { exists|c: Component| #![trigger g.covers(c)] g.covers(c) && g.storage(c)->0 == x }
/// exactly the coverage storages
pub open spec fn all_covering(g: AnnotationGraph, v: Seq<Arc<Gs>>) -> bool {
    &&& forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> covering(g, v[i])
    &&& forall|c: Component| #![trigger g.covers(c)] g.covers(c) ==> v.contains(g.storage(c)->0)
}
impl It<Component> {
    /// `filter_map` with the storages of the components
    pub fn storages<F: Fn(Component) -> Option<Arc<Gs>>>(self, Ghost(g): Ghost<AnnotationGraph>, f: F) -> (r: It<Arc<Gs>>)
        requires forall|c: Component| #![trigger call_requires(f, (c,))] call_requires(f, (c,)), forall|c: Component, x: Option<Arc<Gs>>| #![trigger call_ensures(f, (c,), x)] call_ensures(f, (c,), x) ==> x == g.storage(c),
            forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() ==> self@[i].ctype() == AnnotationComponentType::Coverage,
            forall|c: Component| #![trigger g.storage(c)] g.storage(c) is Some && c.ctype() == AnnotationComponentType::Coverage ==> self@.contains(c),
        ensures all_covering(g, r@),
    {
        let ghost s = self@;
        let r = self.filter_map(f);
        proof {
            let v = r@;
            assert forall|j: int| #![trigger v[j]] 0 <= j < v.len() implies covering(g, v[j]) by {
                let i = choose|i: int| #![trigger s[i]] 0 <= i < s.len() && call_ensures(f, (s[i],), Some(v[j]));
                assert(call_ensures(f, (s[i],), Some(v[j])));
                assert(g.covers(s[i]) && g.storage(s[i])->0 == v[j]);
            }
            assert forall|c: Component| #![trigger g.covers(c)] g.covers(c) implies v.contains(g.storage(c)->0) by {
                let _ = g.storage(c);
                let i = choose|i: int| 0 <= i < s.len() && s[i] == c;
                let _ = s[i];
                assert(!call_ensures(f, (s[i],), None));
                let j = choose|j: int| #![trigger v[j]] 0 <= j < v.len() && call_ensures(f, (s[i],), Some(v[j]));
                let _ = v[j];
                assert(v[j] == g.storage(c)->0);
            }
            assert(all_covering(g, v));
        }
        r
    }
}
impl It<Arc<Gs>> {
    /// `filter`, keeps all storages with edges
    pub fn with_edges<F: Fn(&Arc<Gs>) -> bool>(self, Ghost(g): Ghost<AnnotationGraph>, f: F) -> (r: It<Arc<Gs>>)
        requires forall|c: &Arc<Gs>| #![trigger call_requires(f, (c,))] call_requires(f, (c,)), forall|c: &Arc<Gs>, x: bool| #![trigger call_ensures(f, (c,), x)] call_ensures(f, (c,), x) ==> nonempty(*c, x),
            all_covering(g, self@),
        ensures decides(g, r@),
    {
        let ghost s = self@;
        let r = self.filter(f);
        proof {
            let v = r@;
            assert forall|n: NodeID| #![trigger g.leaf(n)] g.leaf(n) <==> forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> !v[i].out(n) by {
                if g.leaf(n) {
                    assert forall|i: int| #![trigger v[i]] 0 <= i < v.len() implies !v[i].out(n) by {
                        let k = choose|k: int| #![trigger s[k]] 0 <= k < s.len() && s[k] == v[i] && call_ensures(f, (&s[k],), true);
                        assert(covering(g, s[k]));
                    }
                }
                if forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> !v[i].out(n) {
                    assert forall|c: Component| #![trigger g.covers(c)] g.covers(c) implies !g.storage(c)->0.out(n) by {
                        let x = g.storage(c)->0;
                        let k = choose|k: int| 0 <= k < s.len() && s[k] == x;
                        let _ = s[k];
                        if call_ensures(f, (&s[k],), false) { assert(nonempty(s[k], false)); }
                        else { let j = choose|j: int| #![trigger v[j]] 0 <= j < v.len() && v[j] == s[k]; let _ = v[j]; }
                    }
                }
            }
            assert forall|i: int| #![trigger v[i]] 0 <= i < v.len() && v[i].faulty() implies g.faulty() by {
                let k = choose|k: int| #![trigger s[k]] 0 <= k < s.len() && s[k] == v[i] && call_ensures(f, (&s[k],), true);
                assert(covering(g, s[k]));
            }
        }
        r
    }
}

// ---- what a search delivers --------------------------------------------------------------------
/// only wanted matches, without errors all of them, and none twice
pub open spec fn delivers(s: Seq<Result<Match>>, p: spec_fn(Match) -> bool, faulty: bool) -> bool {
    &&& forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> (s[i] matches Ok(m) ==> p(m))
    &&& !faulty && (forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> s[i] is Ok) ==> forall|m: Match| #![trigger p(m)] p(m) ==> exists|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i] == Ok::<Match, GraphAnnisError>(m)
    &&& forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() && s[i] is Ok && s[j] is Ok ==> s[i]->Ok_0 != s[j]->Ok_0
}
pub struct MatchGroup { pub v: Vec<Match> }
impl View for MatchGroup { type V = Seq<Match>; open spec fn view(&self) -> Seq<Match> { self.v@ } }
pub fn single(m: Match) -> (r: MatchGroup) ensures r@ == seq![m] { MatchGroup { v: vec![m] } }
/// the same for groups of one match
pub open spec fn gives(s: Seq<Result<MatchGroup>>, p: spec_fn(Match) -> bool, faulty: bool) -> bool {
    &&& forall|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i] is Ok ==> s[i]->Ok_0@.len() == 1
    &&& delivers(flat(s), p, faulty)
}
pub open spec fn flat(s: Seq<Result<MatchGroup>>) -> Seq<Result<Match>> { s.map_values(|x: Result<MatchGroup>| match x { Ok(g) => Ok::<Match, GraphAnnisError>(g@[0]), Err(e) => Err(e) }) }
pub open spec fn singles(s: Seq<Result<Match>>, r: Seq<Result<MatchGroup>>) -> bool {
    r.len() == s.len() && forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> match s[i] { Ok(m) => r[i] is Ok && r[i]->Ok_0@ == seq![m], Err(_) => r[i] is Err }
}
pub proof fn lemma_singles(s: Seq<Result<Match>>, r: Seq<Result<MatchGroup>>, p: spec_fn(Match) -> bool, f: bool)
    requires singles(s, r), delivers(s, p, f),
    ensures gives(r, p, f),
{
    let t = flat(r);
    assert forall|i: int| #![trigger t[i]] 0 <= i < t.len() implies (t[i] is Ok <==> s[i] is Ok) && (t[i] is Ok ==> t[i] == s[i]) by { let _ = r[i]; }
    assert forall|i: int| #![trigger t[i]] 0 <= i < t.len() implies (t[i] matches Ok(m) ==> p(m)) by { let _ = s[i]; }
    if !f && (forall|i: int| #![trigger t[i]] 0 <= i < t.len() ==> t[i] is Ok) {
        assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies s[i] is Ok by { let _ = t[i]; }
        assert forall|m: Match| #![trigger p(m)] p(m) implies exists|i: int| #![trigger t[i]] 0 <= i < t.len() && t[i] == Ok::<Match, GraphAnnisError>(m) by {
            let i = choose|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i] == Ok::<Match, GraphAnnisError>(m);
            assert(t[i] == s[i]);
        }
    }
    assert forall|i: int, j: int| #![trigger t[i], t[j]] 0 <= i < j < t.len() && t[i] is Ok && t[j] is Ok implies t[i]->Ok_0 != t[j]->Ok_0 by { let _ = (s[i], s[j]); }
    assert forall|i: int| #![trigger r[i]] 0 <= i < r.len() && r[i] is Ok implies r[i]->Ok_0@.len() == 1 by { let _ = t[i]; }
}
pub proof fn lemma_same_set(s: Seq<Result<Match>>, p: spec_fn(Match) -> bool, q: spec_fn(Match) -> bool, f: bool)
    requires delivers(s, p, f), forall|m: Match| #![trigger q(m)] #![trigger p(m)] p(m) == q(m),
    ensures delivers(s, q, f),
{
    assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies (s[i] matches Ok(m) ==> q(m)) by { if let Ok(m) = s[i] { assert(p(m)); } }
    if !f && (forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> s[i] is Ok) {
        assert forall|m: Match| #![trigger q(m)] q(m) implies exists|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i] == Ok::<Match, GraphAnnisError>(m) by { assert(p(m)); }
    }
}
pub open spec fn keyed(m: Match, k: Option<Arc<AnnoKey>>) -> Match { match k { Some(k) => Match { node: m.node, anno_key: k }, None => m } }
/// the matches with the annotation of the result
pub open spec fn image(p: spec_fn(Match) -> bool, k: Option<Arc<AnnoKey>>) -> spec_fn(Match) -> bool { |m: Match| exists|o: Match| #[trigger] p(o) && m == keyed(o, k) }
pub open spec fn rekeyed(x: Result<Match>, y: Result<Match>, k: Arc<AnnoKey>) -> bool { match x { Ok(m) => y == Ok::<Match, GraphAnnisError>(keyed(m, Some(k))), Err(_) => y is Err } }
pub open spec fn all_rekeyed(s: Seq<Result<Match>>, r: Seq<Result<Match>>, k: Arc<AnnoKey>) -> bool { r.len() == s.len() && forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> rekeyed(s[i], r[i], k) }
pub open spec fn node_of(x: Result<Match>) -> Option<NodeID> { match x { Ok(m) => Some(m.node), Err(_) => None } }
pub open spec fn distinct_nodes(s: Seq<Result<Match>>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() && s[i] is Ok && s[j] is Ok ==> s[i]->Ok_0.node != s[j]->Ok_0.node }
/// only wanted matches, and a match of each node that has one
pub open spec fn by_node(s: Seq<Result<Match>>, p: spec_fn(Match) -> bool, f: bool) -> bool {
    &&& distinct_nodes(s)
    &&& forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> (s[i] matches Ok(m) ==> p(m))
    &&& !f && (forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> s[i] is Ok) ==> forall|m: Match| #![trigger p(m)] p(m) ==> exists|i: int| #![trigger s[i]] 0 <= i < s.len() && node_of(s[i]) == Some(m.node)
}
pub proof fn lemma_rekeyed(s: Seq<Result<Match>>, r: Seq<Result<Match>>, p: spec_fn(Match) -> bool, k: Arc<AnnoKey>, f: bool)
    requires by_node(s, p, f), all_rekeyed(s, r, k),
    ensures delivers(r, image(p, Some(k)), f),
{
    let q = image(p, Some(k));
    assert forall|i: int| #![trigger r[i]] 0 <= i < r.len() implies (r[i] matches Ok(m) ==> q(m)) by { if let Ok(m) = s[i] { assert(p(m)); } }
    if !f && (forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> r[i] is Ok) {
        assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies s[i] is Ok by { let _ = r[i]; }
        assert forall|m: Match| #![trigger q(m)] q(m) implies exists|i: int| #![trigger r[i]] 0 <= i < r.len() && r[i] == Ok::<Match, GraphAnnisError>(m) by {
            let o = choose|o: Match| #[trigger] p(o) && m == keyed(o, Some(k));
            let i = choose|i: int| #![trigger s[i]] 0 <= i < s.len() && node_of(s[i]) == Some(o.node);
            let _ = r[i];
        }
    }
    assert forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i < j < r.len() && r[i] is Ok && r[j] is Ok implies r[i]->Ok_0 != r[j]->Ok_0 by { let _ = (s[i], s[j]); }
}
/// an annotation has only one qualified name with this name
pub proof fn lemma_unique(s: Seq<Result<Match>>, p: spec_fn(Match) -> bool, f: bool, a: NodeAnnos, name: Seq<char>)
    requires delivers(s, p, f), a.one_name(name), forall|m: Match| #![trigger p(m)] p(m) ==> a.value(m) is Some && m.anno_key.name@ == name,
    ensures by_node(s, p, f),
{
    assert forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() && s[i] is Ok && s[j] is Ok implies s[i]->Ok_0.node != s[j]->Ok_0.node by {
        let (x, y) = (s[i]->Ok_0, s[j]->Ok_0);
        assert(p(x) && p(y));
        assert(a.value(x) is Some && a.value(y) is Some);
    }
    assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies (s[i] matches Ok(m) ==> p(m)) by {}
    if !f && (forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> s[i] is Ok) {
        assert forall|m: Match| #![trigger p(m)] p(m) implies exists|i: int| #![trigger s[i]] 0 <= i < s.len() && node_of(s[i]) == Some(m.node) by {
            let i = choose|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i] == Ok::<Match, GraphAnnisError>(m);
            let _ = s[i];
        }
    }
}
pub open spec fn first_by_node(s: Seq<Result<Match>>, r: Seq<Result<Match>>) -> bool {
    &&& forall|j: int| #![trigger r[j]] 0 <= j < r.len() ==> s.contains(r[j])
    &&& forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> exists|j: int| #![trigger r[j]] 0 <= j < r.len() && node_of(r[j]) == node_of(s[i])
    &&& forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i < j < r.len() ==> node_of(r[i]) != node_of(r[j])
}
pub proof fn lemma_first(s: Seq<Result<Match>>, r: Seq<Result<Match>>, p: spec_fn(Match) -> bool, f: bool)
    requires delivers(s, p, f), first_by_node(s, r),
    ensures by_node(r, p, f),
{
    assert forall|j: int| #![trigger r[j]] 0 <= j < r.len() implies (r[j] matches Ok(m) ==> p(m)) by { let i = choose|i: int| 0 <= i < s.len() && s[i] == r[j]; let _ = s[i]; }
    if !f && (forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> r[i] is Ok) {
        assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies s[i] is Ok by { let j = choose|j: int| #![trigger r[j]] 0 <= j < r.len() && node_of(r[j]) == node_of(s[i]); let _ = r[j]; }
        assert forall|m: Match| #![trigger p(m)] p(m) implies exists|i: int| #![trigger r[i]] 0 <= i < r.len() && node_of(r[i]) == Some(m.node) by {
            let i = choose|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i] == Ok::<Match, GraphAnnisError>(m);
            let _ = s[i];
        }
    }
}
pub proof fn lemma_plain(s: Seq<Result<Match>>, p: spec_fn(Match) -> bool, f: bool)
    requires delivers(s, p, f),
    ensures delivers(s, image(p, None), f),
{
    let q = image(p, None);
    assert forall|m: Match| #![trigger q(m)] #![trigger p(m)] p(m) == q(m) by { if p(m) { assert(m == keyed(m, None)); } }
    lemma_same_set(s, p, q, f);
}
/// the annotation of the result
pub open spec fn result_key(is_meta: bool) -> Option<Arc<AnnoKey>> { if is_meta { Some(Arc::new(node_type_spec())) } else { None } }

// ---- conditions of index joins -----------------------------------------------------------------
#[verifier::external_body]
pub struct Cond { x: u8 }
impl Cond {
    pub uninterp spec fn accepts(&self, a: NodeAnnos, m: Match) -> bool;
    /// a boxed closure
    #[verifier::external_body]
    pub fn of<F: Fn(&Match, &NodeAnnos) -> Result<bool>>(Ghost(p): Ghost<spec_fn(NodeAnnos, Match) -> bool>, f: F) -> (r: Cond)
        requires forall|m: &Match, a: &NodeAnnos| #![trigger call_requires(f, (m, a))] call_requires(f, (m, a)),
            forall|m: &Match, a: &NodeAnnos, x: Result<bool>| #![trigger call_ensures(f, (m, a), x)] call_ensures(f, (m, a), x) ==> (x matches Ok(b) ==> b == p(*a, *m)),
        ensures forall|a: NodeAnnos, m: Match| #![trigger r.accepts(a, m)] r.accepts(a, m) == p(a, m),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn check(&self, m: &Match, a: &NodeAnnos) -> (r: Result<bool>) ensures r matches Ok(b) ==> b == self.accepts(*a, *m) { unimplemented!() }
}
pub open spec fn conds_ok(c: Seq<Cond>, a: NodeAnnos, m: Match) -> bool { forall|i: int| #![trigger c[i]] 0 <= i < c.len() ==> c[i].accepts(a, m) }
pub open spec fn conds_are(c: Seq<Cond>, p: spec_fn(NodeAnnos, Match) -> bool) -> bool { forall|a: NodeAnnos, m: Match| #![trigger conds_ok(c, a, m)] conds_ok(c, a, m) == p(a, m) }
pub proof fn lemma_conds()
    ensures forall|c: Seq<Cond>, x: Cond, a: NodeAnnos, m: Match| #![trigger conds_ok(c.push(x), a, m)] conds_ok(c.push(x), a, m) == (conds_ok(c, a, m) && x.accepts(a, m)),
        forall|a: NodeAnnos, m: Match| #![trigger conds_ok(Seq::<Cond>::empty(), a, m)] conds_ok(Seq::<Cond>::empty(), a, m),
{
    assert forall|c: Seq<Cond>, x: Cond, a: NodeAnnos, m: Match| #![trigger conds_ok(c.push(x), a, m)] conds_ok(c.push(x), a, m) == (conds_ok(c, a, m) && x.accepts(a, m)) by {
        let d = c.push(x);
        if conds_ok(d, a, m) { assert(d[c.len() as int] == x); assert forall|i: int| #![trigger c[i]] 0 <= i < c.len() implies c[i].accepts(a, m) by { assert(d[i] == c[i]); } }
        if conds_ok(c, a, m) && x.accepts(a, m) { assert forall|i: int| #![trigger d[i]] 0 <= i < d.len() implies d[i].accepts(a, m) by { if i < c.len() { assert(d[i] == c[i]); } } }
    }
}
//@item src=graphannis/src/annis/db/exec/mod.rs item="struct NodeSearchDesc"
//@rewrite Vec<MatchValueFilterFunc> => Vec<Cond>
pub open spec fn qview(q: (Option<String>, Option<String>)) -> QName { (sv(q.0), q.1->0@) }
/// what an index join takes from the description: the annotations of a node with this name, that fulfil the conditions (see unit `joins`)
pub open spec fn selects(d: NodeSearchDesc, a: NodeAnnos) -> spec_fn(Match) -> bool { image(|m: Match| a.has(qview(d.qname), m) && conds_ok(d.cond@, a, m), d.const_output) }
#[verifier::external_body]
pub struct ExecutionNodeDesc { x: u8 }
impl ExecutionNodeDesc {
    #[verifier::external_body]
    pub fn empty_with_fragment(nr: usize, f: String, size: usize) -> ExecutionNodeDesc { unimplemented!() }
}
pub struct NodeSearch { pub it: It<Result<MatchGroup>>, pub desc: Option<ExecutionNodeDesc>, pub node_search_desc: Arc<NodeSearchDesc>, pub is_sorted: bool, pub timeout: TimeoutCheck }
/// the search delivers what its description selects
pub open spec fn whole(s: NodeSearch, g: AnnotationGraph) -> bool { gives(s.it@, selects(*s.node_search_desc, g.annos()), g.faulty()) && s.node_search_desc.qname.1 is Some }
