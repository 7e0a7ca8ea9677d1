// shared by the optimised storages: annotations of edges, ranges, results
//@item src=core/src/types.rs item="struct AnnoKey"
//@item src=core/src/types.rs item="struct Annotation"
//@item src=core/src/types.rs item="struct Edge"
impl Clone for Edge { fn clone(&self) -> (r: Edge) ensures r == *self { Edge { source: self.source, target: self.target } } }
#[verifier::external_body]
pub struct GraphStatistic { x: u8 }

pub type AnnoMap = Map<(Edge, AnnoKey), String>;
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct AnnoStorageImpl<T> { x: T }
impl AnnoStorageImpl<Edge> {
    pub uninterp spec fn view(&self) -> AnnoMap;
    #[verifier::external_body]
    pub fn insert(&mut self, item: Edge, anno: Annotation) -> (r: Result<()>)
        ensures r.is_ok() ==> final(self).view() == old(self).view().insert((item, anno.key), anno.val),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) -> (r: Result<()>) ensures r.is_ok() ==> final(self).view() == AnnoMap::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn calculate_statistics(&mut self) -> (r: Result<()>) ensures final(self).view() == old(self).view() { unimplemented!() }
}
pub trait EdgeAnnotationStorage {
    spec fn annos(&self) -> AnnoMap;
    fn get_annotations_for_item(&self, item: &Edge) -> (r: Result<Vec<Annotation>>)
        ensures r matches Ok(v) ==> lists_annos(v@, self.annos(), *item);
}
pub open spec fn lists_annos(v: Seq<Annotation>, m: AnnoMap, e: Edge) -> bool {
    &&& forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> m.dom().contains((e, v[i].key)) && m[(e, v[i].key)] == v[i].val
    &&& forall|k: AnnoKey| #![trigger m.dom().contains((e, k))] m.dom().contains((e, k)) ==> exists|i: int| #![trigger v[i]] 0 <= i < v.len() && v[i].key == k
}
pub open spec fn in_range(d: int, min: usize, max: Bound<usize>) -> bool {
    d >= min && match max { Bound::Unbounded => true, Bound::Included(m) => d <= m, Bound::Excluded(m) => d < m }
}
pub open spec fn oks(r: Seq<Result<NodeID>>, s: Seq<NodeID>) -> bool {
    r.len() == s.len() && forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> r[i] == Ok::<NodeID, GraphAnnisCoreError>(s[i])
}
/// a result lists node x
pub open spec fn listed(r: Seq<Result<NodeID>>, x: NodeID) -> bool { exists|i: int| #![trigger r[i]] 0 <= i < r.len() && r[i] == Ok::<NodeID, GraphAnnisCoreError>(x) }
pub open spec fn once(r: Seq<Result<NodeID>>) -> bool {
    &&& forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> r[i] is Ok
    &&& forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i < j < r.len() ==> r[i] != r[j]
}
#[verifier::external_body]
pub fn once_node(n: NodeID) -> (r: Vec<Result<NodeID>>) ensures oks(r@, seq![n]), once(r@), forall|t: NodeID| #![trigger listed(r@, t)] listed(r@, t) <==> t == n,
{ unimplemented!() }
//@fn src=core/src/graph/storage/mod.rs item=inclusive_max_distance
//@rewrite? std::ops::Bound => Bound
//@spec
    ensures
        ret is None <==> max_distance == Bound::<usize>::Excluded(0),
        ret matches Some(m) ==> forall|d: int| #![trigger in_range(d, 0, max_distance)] 0 <= d <= usize::MAX ==> (in_range(d, 0, max_distance) <==> d <= m),
//@end
//@fn src=core/src/graph/storage/mod.rs item=only_reflexive
//@rewrite <'a> =>
//@rewrite Box<dyn Iterator<Item = Result<NodeID>> \+ 'a> => Vec<Result<NodeID>>
//@rewrite Box::new\(std::iter::once\(Ok\(node\)\)\) => once_node(node)
//@rewrite Box::new\(std::iter::empty\(\)\) => Vec::new()
//@rewrite? std::ops::Bound => Bound
//@spec
    ensures once(ret@), forall|t: NodeID| #![trigger listed(ret@, t)] listed(ret@, t) <==> t == node && in_range(0, min_distance, max_distance),
//@at fn_start
    proof { assert(in_range(0, 0, max_distance) || !in_range(0, 0, max_distance)); }
//@end

