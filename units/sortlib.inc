// ---- the order of matches: shared by the units sortmatches and finding ----------------------------------
#[derive(Clone, Copy)]
//@item src=graphannis/src/annis/db/sort_matches.rs item="enum CollationType"

// ---- contracts assumed for dependencies ----------------------------------------------------------------
#[verifier::external_body]
pub fn same_ordering(a: Ordering, b: Ordering) -> (r: bool) ensures r == (a == b) { unimplemented!() }
#[verifier::external_body]
pub fn min_of(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { unimplemented!() }
pub open spec fn num_cmp(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a > b { Ordering::Greater } else { Ordering::Equal } }
#[verifier::external_body]
pub fn cmp_u64(a: &u64, b: &u64) -> (r: Ordering) ensures r == num_cmp(*a as int, *b as int) { unimplemented!() }
#[verifier::external_body]
pub fn cmp_usize(a: &usize, b: &usize) -> (r: Ordering) ensures r == num_cmp(*a as int, *b as int) { unimplemented!() }
#[verifier::external_body]
pub fn cmp_i32(a: &i32, b: &i32) -> (r: Ordering) ensures r == num_cmp(*a as int, *b as int) { unimplemented!() }

/// the order of text in the standard library: total, only the same text is equal
pub uninterp spec fn text_order(a: Seq<char>, b: Seq<char>) -> Ordering;
#[verifier::external_body]
pub proof fn axiom_text_order(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    ensures flips(text_order(a, b), text_order(b, a)), chain(text_order(a, b), text_order(b, c), text_order(a, c)), text_order(a, b) is Equal <==> a == b,
{ unimplemented!() }
#[verifier::external_body]
pub fn cmp_str(a: &str, b: &str) -> (r: Ordering) ensures r == text_order(a@, b@) { unimplemented!() }
/// strcoll of the C library on the texts: a total preorder for a fixed locale
pub uninterp spec fn locale_order(a: Seq<char>, b: Seq<char>) -> i32;
#[verifier::external_body]
pub proof fn axiom_locale_order(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    ensures flips(num_cmp(locale_order(a, b) as int, 0), num_cmp(locale_order(b, a) as int, 0)),
        chain(num_cmp(locale_order(a, b) as int, 0), num_cmp(locale_order(b, c) as int, 0), num_cmp(locale_order(a, c) as int, 0)),
{ unimplemented!() }
#[verifier::external_body]
pub fn strcoll_of(a: &str, b: &str) -> (r: i32) ensures r == locale_order(a@, b@) { unimplemented!() }
/// AnnoKey: derived order, total
#[verifier::external_body]
pub struct AnnoKey { x: u64 }
pub uninterp spec fn key_order(a: AnnoKey, b: AnnoKey) -> Ordering;
#[verifier::external_body]
pub proof fn axiom_key_order(a: Arc<AnnoKey>, b: Arc<AnnoKey>, c: Arc<AnnoKey>)
    ensures flips(key_order(*a, *b), key_order(*b, *a)), chain(key_order(*a, *b), key_order(*b, *c), key_order(*a, *c)), key_order(*a, *b) is Equal <==> a == b,
{ unimplemented!() }
#[verifier::external_body]
pub fn cmp_key(a: &Arc<AnnoKey>, b: &Arc<AnnoKey>) -> (r: Ordering) ensures r == key_order(**a, **b) { unimplemented!() }
#[verifier::external_body]
pub fn copy_text(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }

#[verifier::external_body]
pub fn copy_opt<T: Copy>(o: Option<&T>) -> (r: Option<T>) ensures match o { Some(x) => r == Some(*x), None => r is None } { unimplemented!() }

/// position of the last character c
pub open spec fn last_pos(s: Seq<char>, c: char) -> Option<int> decreases s.len()
{ if s.len() == 0 { None } else if s.last() == c { Some(s.len() - 1) } else { last_pos(s.drop_last(), c) } }
#[verifier::external_body]
pub fn rsplit_at<'a>(s: &'a str, c: char) -> (r: Option<(&'a str, &'a str)>)
    ensures match last_pos(s@, c) { Some(k) => r is Some && (r->0).0@ == s@.take(k) && (r->0).1@ == s@.skip(k + 1), None => r is None },
{ unimplemented!() }
/// the non-empty parts of the text between '/'
pub open spec fn seg_scan(s: Seq<char>) -> (Seq<Seq<char>>, Seq<char>) decreases s.len()
{
    if s.len() == 0 { (Seq::empty(), Seq::empty()) }
    else {
        let (w, cur) = seg_scan(s.drop_last());
        if s.last() == '/' { (if cur.len() > 0 { w.push(cur) } else { w }, Seq::empty()) } else { (w, cur.push(s.last())) }
    }
}
pub open spec fn segments(s: Seq<char>) -> Seq<Seq<char>> { let (w, cur) = seg_scan(s); if cur.len() > 0 { w.push(cur) } else { w } }
pub open spec fn are(v: Seq<&str>, s: Seq<Seq<char>>) -> bool { v.len() == s.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@ == s[i] }
/// split('/').filter(|s| !s.is_empty())
#[verifier::external_body]
pub struct Parts<'a> { x: &'a str }
impl<'a> Parts<'a> {
    pub uninterp spec fn view(&self) -> Seq<&'a str>;
    #[verifier::external_body]
    pub fn collect(self) -> (r: Vec<&'a str>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn zip(self, o: Parts<'a>) -> (r: Vec<(&'a str, &'a str)>)
        ensures r@.len() == (if self@.len() <= o@.len() { self@.len() } else { o@.len() }), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == (self@[i], o@[i]),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn parts_of<'a>(s: &'a str) -> (r: Parts<'a>) ensures are(r@, segments(s@)) { unimplemented!() }
#[verifier::external_body]
pub fn last_of<'a>(v: &Vec<&'a str>) -> (r: Option<&'a str>) ensures v@.len() == 0 ==> r is None, v@.len() > 0 ==> r == Some(v@.last()) { unimplemented!() }
/// percent decoding (invalid UTF-8 replaced)
pub uninterp spec fn decoded(s: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub fn percent_decoded(s: &str) -> (r: String) ensures r@ == decoded(s@) { unimplemented!() }

// ---- the order ---------------------------------------------------------------------------------------------
pub open spec fn flips(ab: Ordering, ba: Ordering) -> bool { (ab is Less <==> ba is Greater) && (ab is Greater <==> ba is Less) }
/// a <= b and b <= c imply a <= c, strictly if one of the steps is
pub open spec fn chain(ab: Ordering, bc: Ordering, ac: Ordering) -> bool {
    !(ab is Greater) && !(bc is Greater) ==> !(ac is Greater) && ((ab is Less || bc is Less) <==> ac is Less)
}
pub open spec fn then(a: Ordering, b: Ordering) -> Ordering { if a is Equal { b } else { a } }

pub open spec fn string_order(a: Seq<char>, b: Seq<char>, c: CollationType) -> Ordering {
    match c { CollationType::Default => text_order(a, b), CollationType::Locale => num_cmp(locale_order(a, b) as int, 0) }
}
/// the first difference of the segments decides
pub open spec fn seg_order(a: Seq<Seq<char>>, b: Seq<Seq<char>>, c: CollationType, i: int) -> Ordering decreases a.len() - i
{
    if i >= a.len() || i >= b.len() || i < 0 { Ordering::Equal } else { then(string_order(a[i], b[i], c), seg_order(a, b, c, i + 1)) }
}
/// in quirks mode only the document name decides
pub open spec fn doc_order(a: Seq<Seq<char>>, b: Seq<Seq<char>>, c: CollationType) -> Ordering {
    if a.len() > 0 && b.len() > 0 { string_order(decoded(a.last()), decoded(b.last()), c) } else { Ordering::Equal }
}
pub open spec fn path_order(a: Seq<char>, b: Seq<char>, c: CollationType, quirks: bool) -> Ordering {
    let (x, y) = (segments(a), segments(b));
    then(if quirks { doc_order(x, y, c) } else { seg_order(x, y, c, 0) }, num_cmp(x.len() as int, y.len() as int))
}
pub open spec fn path_part(s: Seq<char>) -> Seq<char> { match last_pos(s, '#') { Some(k) => s.take(k), None => s } }
pub open spec fn name_part(s: Seq<char>) -> Seq<char> { match last_pos(s, '#') { Some(k) => s.skip(k + 1), None => Seq::empty() } }

// ---- the corpus ----------------------------------------------------------------------------------------------
#[verifier::external_body]
pub struct NodeAnnos { x: u64 }
#[verifier::external_body]
pub struct NameKey { x: u64 }
/// the static key of annis::node_name
#[verifier::external_body]
pub fn node_name_key() -> &'static NameKey { unimplemented!() }
impl NodeAnnos {
    pub uninterp spec fn name(&self, n: NodeID) -> Option<Seq<char>>;
    /// P06
    #[verifier::external_body]
    pub fn get_value_for_item(&self, n: &NodeID, k: &NameKey) -> (r: Result<Option<String>>)
        ensures r matches Ok(x) ==> match x { Some(s) => self.name(*n) == Some(s@), None => self.name(*n) is None },
    { unimplemented!() }
}
#[verifier::external_body]
pub struct TokenHelper { x: u64 }
impl TokenHelper {
    pub uninterp spec fn left(&self, n: NodeID) -> Option<NodeID>;
    #[verifier::external_body]
    pub fn left_token_for(&self, n: NodeID) -> (r: Result<Option<NodeID>>) ensures r matches Ok(x) ==> x == self.left(n) { unimplemented!() }
}
#[verifier::external_body]
pub struct Storage { x: u64 }
impl Storage {
    pub uninterp spec fn connected(&self, a: NodeID, b: NodeID, min: usize, max: std::ops::Bound<usize>) -> bool;
    /// P04
    #[verifier::external_body]
    pub fn is_connected(&self, a: NodeID, b: NodeID, min: usize, max: std::ops::Bound<usize>) -> (r: Result<bool>) ensures r matches Ok(x) ==> x == self.connected(a, b, min, max) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct LruCache<K, V> { k: K, v: V }
impl<K, V> LruCache<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn new(n: usize) -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&mut self, k: &K) -> (r: Option<&V>)
        ensures final(self)@ == old(self)@, r matches Some(v) ==> old(self)@.dom().contains(*k) && *v == old(self)@[*k],
    { unimplemented!() }
    /// an older entry may get lost
    #[verifier::external_body]
    pub fn put(&mut self, k: K, v: V) ensures forall|x: K| #[trigger] final(self)@.dom().contains(x) ==> (x == k || old(self)@.dom().contains(x)) && final(self)@[x] == (if x == k { v } else { old(self)@[x] }) { unimplemented!() }
}
pub const CACHE_SIZE: usize = 1000;
pub struct Match { pub node: NodeID, pub anno_key: Arc<AnnoKey> }

//@item src=graphannis/src/annis/db/sort_matches.rs item="struct SortCache"
//@rewrite pub\(crate\) => pub
//@rewrite Arc<dyn GraphStorage> => Storage
//@rewrite (?m)^(\s*)(node_name|left_token|is_connected|gs_order): => ${1}pub ${2}:

/// all that the comparison reads
pub struct World<'a> { pub annos: &'a NodeAnnos, pub helper: Option<&'a TokenHelper>, pub order: Option<Storage>, pub collation: CollationType, pub quirks: bool }
pub open spec fn before(w: World, a: NodeID, b: NodeID) -> bool { w.order->0.connected(a, b, 1, std::ops::Bound::Unbounded) }
pub open spec fn left_of(w: World, n: NodeID) -> Option<NodeID> { if w.helper is Some && w.order is Some { w.helper->0.left(n) } else { None } }
pub open spec fn token_order(w: World, a: NodeID, b: NodeID) -> Ordering {
    match (left_of(w, a), left_of(w, b)) {
        (Some(x), Some(y)) => if before(w, x, y) { Ordering::Less } else if before(w, y, x) { Ordering::Greater } else { Ordering::Equal },
        _ => Ordering::Equal,
    }
}
pub open spec fn named_order(w: World, a: NodeID, b: NodeID) -> Ordering {
    match (w.annos.name(a), w.annos.name(b)) {
        (Some(x), Some(y)) => then(path_order(path_part(x), path_part(y), w.collation, w.quirks), then(token_order(w, a, b), string_order(name_part(x), name_part(y), w.collation))),
        _ => Ordering::Equal,
    }
}
/// document path, position in the text, name, internal number; annotation for the same node
pub open spec fn match_order(w: World, a: Match, b: Match) -> Ordering {
    if a.node == b.node { key_order(*a.anno_key, *b.anno_key) } else { then(named_order(w, a.node, b.node), num_cmp(a.node as int, b.node as int)) }
}
/// the first difference decides, longer matches come first
pub open spec fn group_order_from(w: World, a: Seq<Match>, b: Seq<Match>, i: int) -> Ordering decreases a.len() - i
{
    if i >= a.len() || i >= b.len() || i < 0 { num_cmp(b.len() as int, a.len() as int) } else { then(match_order(w, a[i], b[i]), group_order_from(w, a, b, i + 1)) }
}
pub open spec fn group_order(w: World, a: Seq<Match>, b: Seq<Match>) -> Ordering { group_order_from(w, a, b, 0) }

pub open spec fn names_ok(c: Map<NodeID, String>, a: NodeAnnos) -> bool { forall|n: NodeID| #[trigger] c.dom().contains(n) ==> a.name(n) == Some(c[n]@) }
pub open spec fn lefts_ok(c: Map<NodeID, Option<NodeID>>, h: Option<&TokenHelper>) -> bool { forall|n: NodeID| #[trigger] c.dom().contains(n) ==> h is Some && c[n] == h->0.left(n) }
pub open spec fn conns_ok(c: Map<(NodeID, NodeID), bool>, o: Option<Storage>) -> bool {
    forall|p: (NodeID, NodeID)| #[trigger] c.dom().contains(p) ==> o is Some && c[p] == o->0.connected(p.0, p.1, 1, std::ops::Bound::Unbounded)
}
impl SortCache {
    /// what is remembered is true
    pub open spec fn ok(&self, w: World) -> bool { self.gs_order == w.order && names_ok(self.node_name@, *w.annos) && lefts_ok(self.left_token@, w.helper) && conns_ok(self.is_connected@, w.order) }
}

// ---- it is a consistent order ------------------------------------------------------------------------------------
pub proof fn lemma_string_order(a: Seq<char>, b: Seq<char>, c: Seq<char>, col: CollationType)
    ensures flips(string_order(a, b, col), string_order(b, a, col)), chain(string_order(a, b, col), string_order(b, c, col), string_order(a, c, col)), string_order(a, a, col) is Equal,
{
    axiom_text_order(a, b, c); axiom_locale_order(a, b, c); axiom_text_order(a, a, a); axiom_locale_order(a, a, a);
}
pub proof fn lemma_seg_flips(a: Seq<Seq<char>>, b: Seq<Seq<char>>, col: CollationType, i: int)
    requires 0 <= i, ensures flips(seg_order(a, b, col, i), seg_order(b, a, col, i)) decreases a.len() - i
{
    if i < a.len() && i < b.len() { lemma_string_order(a[i], b[i], a[i], col); lemma_seg_flips(a, b, col, i + 1); }
}
pub open spec fn seg_len_order(a: Seq<Seq<char>>, b: Seq<Seq<char>>, col: CollationType, i: int) -> Ordering { then(seg_order(a, b, col, i), num_cmp(a.len() as int, b.len() as int)) }
pub proof fn lemma_seg_chain(a: Seq<Seq<char>>, b: Seq<Seq<char>>, c: Seq<Seq<char>>, col: CollationType, i: int)
    requires 0 <= i <= a.len(), i <= b.len(), i <= c.len(), ensures chain(seg_len_order(a, b, col, i), seg_len_order(b, c, col, i), seg_len_order(a, c, col, i)) decreases a.len() - i
{
    if i < a.len() && i < b.len() && i < c.len() { lemma_string_order(a[i], b[i], c[i], col); lemma_seg_chain(a, b, c, col, i + 1); }
}
/// the paths are in a consistent order
pub proof fn theorem_path_order(a: Seq<char>, b: Seq<char>, c: Seq<char>, col: CollationType, q: bool)
    ensures flips(path_order(a, b, col, q), path_order(b, a, col, q)), chain(path_order(a, b, col, q), path_order(b, c, col, q), path_order(a, c, col, q)),
{
    let (x, y, z) = (segments(a), segments(b), segments(c));
    lemma_seg_flips(x, y, col, 0);
    lemma_seg_chain(x, y, z, col, 0);
    if x.len() > 0 && y.len() > 0 { lemma_string_order(decoded(x.last()), decoded(y.last()), decoded(x.last()), col); }
    if x.len() > 0 && y.len() > 0 && z.len() > 0 { lemma_string_order(decoded(x.last()), decoded(y.last()), decoded(z.last()), col); }
}

/// same document
pub open spec fn together(w: World, a: NodeID, b: NodeID) -> bool { path_order(path_part(w.annos.name(a)->0), path_part(w.annos.name(b)->0), w.collation, w.quirks) is Equal }
/// every node has a name; in each document either all nodes have a position in one text or none
pub open spec fn one_text(w: World) -> bool {
    &&& forall|n: NodeID| #[trigger] w.annos.name(n) is Some
    &&& forall|a: NodeID, b: NodeID| #[trigger] together(w, a, b) ==> (left_of(w, a) is Some <==> left_of(w, b) is Some)
    &&& forall|a: NodeID, b: NodeID| #[trigger] together(w, a, b) && left_of(w, a) is Some && left_of(w, a) != left_of(w, b) ==> before(w, left_of(w, a)->0, left_of(w, b)->0) || before(w, left_of(w, b)->0, left_of(w, a)->0)
    &&& forall|a: NodeID| !#[trigger] before(w, a, a)
    &&& forall|a: NodeID, b: NodeID, c: NodeID| #[trigger] before(w, a, b) && #[trigger] before(w, b, c) ==> before(w, a, c)
}
pub proof fn lemma_token_flips(w: World, a: NodeID, b: NodeID)
    requires one_text(w), ensures flips(token_order(w, a, b), token_order(w, b, a))
{
    if let (Some(x), Some(y)) = (left_of(w, a), left_of(w, b)) { if before(w, x, y) && before(w, y, x) { assert(before(w, x, x)); } }
}
pub proof fn lemma_token_chain(w: World, a: NodeID, b: NodeID, c: NodeID)
    requires one_text(w), together(w, a, b), together(w, b, c), together(w, a, c),
    ensures chain(token_order(w, a, b), token_order(w, b, c), token_order(w, a, c)),
{
    if let (Some(x), Some(y), Some(z)) = (left_of(w, a), left_of(w, b), left_of(w, c)) {
        lemma_token_flips(w, a, b); lemma_token_flips(w, b, c); lemma_token_flips(w, a, c);
        if before(w, x, y) && before(w, y, z) { assert(before(w, x, z)); }
    }
}
pub proof fn lemma_node_order(w: World, a: NodeID, b: NodeID, c: NodeID)
    requires one_text(w),
    ensures flips(named_order(w, a, b), named_order(w, b, a)), chain(named_order(w, a, b), named_order(w, b, c), named_order(w, a, c)),
{
    assert(w.annos.name(a) is Some && w.annos.name(b) is Some && w.annos.name(c) is Some);
    let (x, y, z) = (w.annos.name(a)->0, w.annos.name(b)->0, w.annos.name(c)->0);
    theorem_path_order(path_part(x), path_part(y), path_part(z), w.collation, w.quirks);
    lemma_token_flips(w, a, b);
    lemma_string_order(name_part(x), name_part(y), name_part(z), w.collation);
    if together(w, a, b) && together(w, b, c) { assert(together(w, a, c)); lemma_token_chain(w, a, b, c); }
}
pub proof fn lemma_same_node(w: World, a: NodeID)
    requires one_text(w), ensures named_order(w, a, a) is Equal
{
    assert(w.annos.name(a) is Some);
    let x = w.annos.name(a)->0;
    theorem_path_order(path_part(x), path_part(x), path_part(x), w.collation, w.quirks);
    lemma_token_flips(w, a, a);
    lemma_string_order(name_part(x), name_part(x), name_part(x), w.collation);
}
pub proof fn theorem_match_order(w: World, a: Match, b: Match, c: Match)
    requires one_text(w),
    ensures flips(match_order(w, a, b), match_order(w, b, a)), chain(match_order(w, a, b), match_order(w, b, c), match_order(w, a, c)),
{
    lemma_node_order(w, a.node, b.node, c.node);
    lemma_same_node(w, a.node);
    axiom_key_order(a.anno_key, b.anno_key, c.anno_key);
    if a.node == c.node && a.node != b.node { lemma_node_order(w, b.node, a.node, b.node); }
}
/// P01: the comparison of matches is a total preorder, as sorting requires
pub proof fn theorem_group_order(w: World, a: Seq<Match>, b: Seq<Match>, c: Seq<Match>)
    requires one_text(w),
    ensures flips(group_order(w, a, b), group_order(w, b, a)), chain(group_order(w, a, b), group_order(w, b, c), group_order(w, a, c)),
{
    lemma_groups_flip(w, a, b, 0);
    lemma_groups(w, a, b, c, 0);
}
pub proof fn lemma_groups_flip(w: World, a: Seq<Match>, b: Seq<Match>, i: int)
    requires one_text(w), 0 <= i, ensures flips(group_order_from(w, a, b, i), group_order_from(w, b, a, i)) decreases a.len() - i
{
    if i < a.len() && i < b.len() { theorem_match_order(w, a[i], b[i], a[i]); lemma_groups_flip(w, a, b, i + 1); }
}
pub proof fn lemma_groups(w: World, a: Seq<Match>, b: Seq<Match>, c: Seq<Match>, i: int)
    requires one_text(w), 0 <= i <= a.len(), i <= b.len(), i <= c.len(),
    ensures chain(group_order_from(w, a, b, i), group_order_from(w, b, c, i), group_order_from(w, a, c, i)) decreases a.len() - i
{
    if i < a.len() && i < b.len() && i < c.len() { theorem_match_order(w, a[i], b[i], c[i]); lemma_groups(w, a, b, c, i + 1); }
}
/// only equal matches have the same position in the order
pub proof fn lemma_group_equal(w: World, a: Seq<Match>, b: Seq<Match>, i: int)
    requires 0 <= i <= a.len(), i <= b.len(), group_order_from(w, a, b, i) is Equal,
    ensures a.len() == b.len(), forall|k: int| i <= k < a.len() ==> a[k] == b[k]
    decreases a.len() - i
{
    if i < a.len() && i < b.len() { axiom_key_order(a[i].anno_key, b[i].anno_key, a[i].anno_key); lemma_group_equal(w, a, b, i + 1); }
}
