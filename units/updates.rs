// Verus unit: applying a list of changes (core/src/graph/mod.rs)
#![allow(unused)]
use vstd::prelude::*;
use std::num::NonZeroUsize;
verus! {
global size_of usize == 8;
pub type NodeID = u64;
#[derive(Debug)]
pub enum GraphAnnisCoreError { ZeroCacheSize, Other(u64) }
pub type Result<T> = std::result::Result<T, GraphAnnisCoreError>;

//@item src=core/src/types.rs item="struct AnnoKey"
//@item src=core/src/types.rs item="struct Annotation"
//@item src=core/src/types.rs item="struct Edge"
//@item src=core/src/graph/update.rs item="enum UpdateEvent"

//@include world.inc

// ---- contracts assumed for dependencies ---------------------------------------------------------
#[verifier::external_body]
pub fn clone_of<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
#[verifier::external_body]
pub fn node_name_key() -> (r: AnnoKey) ensures r == name_key() { unimplemented!() }
#[verifier::external_body]
pub fn node_type_key() -> (r: AnnoKey) ensures r == type_key() { unimplemented!() }
#[verifier::external_body]
pub fn key_eq(a: &AnnoKey, b: &AnnoKey) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
#[verifier::external_body]
pub fn ctype_from_str(s: &String) -> (r: std::result::Result<CT, u8>)
    ensures r is Ok <==> ctype_of(*s) is Some, r matches Ok(c) ==> ctype_of(*s) == Some(c),
{ unimplemented!() }
impl Component {
    #[verifier::external_body]
    pub fn new(ctype: CT, layer: String, name: String) -> (r: Component) ensures r == (Component { ctype, layer, name }) { unimplemented!() }
}
#[verifier::external_body]
pub fn cache_size() -> (r: Result<usize>) { unimplemented!() }
/// clru::CLruCache: entries may disappear at any time
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct CLruCache<K, V> { k: K, v: V }
impl<K, V> CLruCache<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn new(n: usize) -> (r: Self) ensures r.view() == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self).view() == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&mut self, k: &K) -> (r: Option<&V>)
        ensures r matches Some(v) ==> old(self).view().dom().contains(*k) && *v == old(self).view()[*k], final(self).view() == old(self).view(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn put(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures forall|x: K| #![trigger final(self).view().dom().contains(x)] final(self).view().dom().contains(x) ==> if x == k { final(self).view()[x] == v } else { old(self).view().dom().contains(x) && final(self).view()[x] == old(self).view()[x] },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn pop(&mut self, k: &K) -> (r: Option<V>) ensures final(self).view() == old(self).view().remove(*k) { unimplemented!() }
}
/// node annotations, with the contracts proved in the units `annosmem` and `annosdisk`
#[verifier::external_body]
pub struct NodeAnnos { x: u8 }
impl NodeAnnos {
    pub uninterp spec fn view(&self) -> Labels;
    #[verifier::external_body]
    pub fn has_node_name(&self, n: &String) -> (r: Result<bool>) ensures r matches Ok(b) ==> b == known(self.view(), *n) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_node_id_from_name(&self, n: &String) -> (r: Result<Option<NodeID>>)
        ensures r matches Ok(None) ==> !known(self.view(), *n), r matches Ok(Some(id)) ==> named(self.view(), id, *n),
    { unimplemented!() }
    /// node IDs do not run out
    #[verifier::external_body]
    pub fn get_largest_item(&self) -> (r: Result<Option<NodeID>>)
        ensures
            r matches Ok(None) ==> self.view() == Labels::empty(),
            r matches Ok(Some(l)) ==> l < u64::MAX && forall|p: (NodeID, AnnoKey)| #![trigger self.view().dom().contains(p)] self.view().dom().contains(p) ==> p.0 <= l,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, n: NodeID, a: Annotation) -> (r: Result<()>) ensures r is Ok ==> final(self).view() == old(self).view().insert((n, a.key), a.val) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_item(&mut self, n: &NodeID) -> (r: Result<bool>) ensures r is Ok ==> final(self).view() == without_node(old(self).view(), *n) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_annotation_for_item(&mut self, n: &NodeID, k: &AnnoKey) -> (r: Result<Option<String>>) ensures r is Ok ==> final(self).view() == old(self).view().remove((*n, *k)) { unimplemented!() }
}
/// writable storages of a component, with the contracts proved in the unit `adjacency`
#[verifier::external_body]
pub struct Gs { x: u8 }
#[derive(PartialEq, Eq)]
pub enum Bound<T> { Included(T), Excluded(T), Unbounded }
impl Gs {
    pub uninterp spec fn edges(&self) -> Set<Edge>;
    pub uninterp spec fn labels(&self) -> EdgeLabels;
    #[verifier::external_body]
    pub fn add_edge(&mut self, e: Edge) -> (r: Result<()>)
        ensures r is Ok ==> final(self).edges() == add_edge(old(self).edges(), e) && final(self).labels() == old(self).labels(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn delete_edge(&mut self, e: &Edge) -> (r: Result<()>)
        ensures r is Ok ==> final(self).edges() == old(self).edges().remove(*e) && final(self).labels() == elabels_without_edge(old(self).labels(), *e),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn delete_node(&mut self, n: NodeID) -> (r: Result<()>)
        ensures r is Ok ==> final(self).edges() == edges_without(old(self).edges(), n) && final(self).labels() == elabels_without(old(self).labels(), n),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_connected(&self, s: NodeID, t: NodeID, min: usize, max: Bound<usize>) -> (r: Result<bool>)
        ensures min == 1 && max == Bound::<usize>::Included(1) ==> (r matches Ok(b) ==> b == self.edges().contains(Edge { source: s, target: t })),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn add_edge_annotation(&mut self, e: Edge, a: Annotation) -> (r: Result<()>)
        ensures r is Ok ==> final(self).edges() == old(self).edges() && (old(self).edges().contains(e) ==> final(self).labels() == old(self).labels().insert((e, a.key), a.val)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn delete_edge_annotation(&mut self, e: &Edge, k: &AnnoKey) -> (r: Result<()>)
        ensures r is Ok ==> final(self).edges() == old(self).edges() && final(self).labels() == old(self).labels().remove((*e, *k)),
    { unimplemented!() }
}
/// the loaded components and the storages they are kept in
#[verifier::external_body]
pub struct Components { x: u8 }
impl Components {
    pub uninterp spec fn edges(&self) -> spec_fn(Component) -> Set<Edge>;
    pub uninterp spec fn elabels(&self) -> spec_fn(Component) -> EdgeLabels;
}
#[verifier::external_body]
pub struct Persistance { x: u8 }
#[verifier::external_body]
pub struct Location { x: u8 }
#[verifier::external_body]
pub struct Statistics { x: u8 }
/// graphannis_core::graph::update::GraphUpdate: an ordered list of numbered changes (P11)
#[verifier::external_body]
pub struct GraphUpdate { x: u8 }
impl GraphUpdate {
    pub uninterp spec fn events(&self) -> Seq<(u64, UpdateEvent)>;
    #[verifier::external_body]
    pub fn len(&self) -> (r: Result<usize>) { unimplemented!() }
    #[verifier::external_body]
    pub fn iter(&self) -> (r: Result<Vec<Result<(u64, UpdateEvent)>>>)
        ensures r matches Ok(v) ==> v@.len() == self.events().len() && forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() && v@[i] is Ok ==> v@[i]->Ok_0 == self.events()[i],
    { unimplemented!() }
}
/// the hooks of the component type get a shared reference to the graph
#[verifier::external_body]
pub struct Index { x: u8 }
pub struct ComponentType { }
impl ComponentType {
    #[verifier::external_body]
    pub fn init_update_graph_index(g: &Graph) -> (r: Result<Index>) { unimplemented!() }
    #[verifier::external_body]
    pub fn before_update_event(e: &UpdateEvent, g: &Graph, i: &mut Index) -> (r: Result<()>) { unimplemented!() }
    #[verifier::external_body]
    pub fn after_update_event(e: UpdateEvent, g: &Graph, i: &mut Index) -> (r: Result<()>) { unimplemented!() }
    #[verifier::external_body]
    pub fn apply_update_graph_index(i: Index, g: &mut Graph) -> (r: Result<()>) ensures r is Ok ==> same_but_derived(old(g).world(), final(g).world()) { unimplemented!() }
}

// ---- the code ---------------------------------------------------------------------------------
//@item src=core/src/graph/mod.rs item="struct Graph"
//@rewrite Graph<CT: ComponentType> => Graph
//@rewrite node_annos: Box<dyn NodeAnnotationStorage> => pub node_annos: NodeAnnos
//@rewrite (?m)^    location: Option<PathBuf> => pub location: Location
//@rewrite components: BTreeMap<Component<CT>, Option<Arc<dyn GraphStorage>>> => pub components: Components
//@rewrite (?m)^    current_change_id: => pub current_change_id:
//@rewrite background_persistance: Arc<Mutex<\(\)>> => pub background_persistance: Persistance
//@rewrite Option<CT::GlobalStatistics> => Option<Statistics>
//@rewrite (?m)^    disk_based: => pub disk_based:
impl Graph {
    pub open spec fn world(&self) -> World { World { labels: self.node_annos.view(), edges: self.components.edges(), elabels: self.components.elabels() } }
    /// registry::create_writeable copies the edges and labels (P04)
    #[verifier::external_body]
    pub fn get_or_create_writable(&mut self, c: &Component) -> (r: Result<&mut Gs>)
        ensures
            final(self).node_annos == old(self).node_annos, final(self).current_change_id == old(self).current_change_id,
            r is Err ==> final(self).world() == old(self).world(),
            r matches Ok(gs) ==> gs.edges() == (old(self).components.edges())(*c) && gs.labels() == (old(self).components.elabels())(*c)
                && final(self).components.edges() == put(old(self).components.edges(), *c, final(gs).edges())
                && final(self).components.elabels() == put(old(self).components.elabels(), *c, final(gs).labels()),
    { unimplemented!() }
    /// every component with edges is listed, once
    #[verifier::external_body]
    pub fn get_all_components(&self, t: Option<CT>, n: Option<&str>) -> (r: Vec<Component>)
        ensures
            t is None && n is None ==> forall|c: Component| #![trigger r@.contains(c)] !r@.contains(c) ==> (self.components.edges())(c) == Set::<Edge>::empty() && (self.components.elabels())(c) == EdgeLabels::empty(),
            r@.no_duplicates(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn calculate_all_statistics(&mut self) -> (r: Result<()>) ensures r is Ok ==> final(self).world() == old(self).world() { unimplemented!() }

    /// what is cached about names is true
    pub open spec fn cached(&self, c: CLruCache<String, Option<NodeID>>) -> bool {
        forall|n: String| #![trigger c.view().dom().contains(n)] c.view().dom().contains(n) ==> match c.view()[n] { Some(id) => named(self.node_annos.view(), id, n), None => !known(self.node_annos.view(), n) }
    }
//@fn src=core/src/graph/mod.rs item=Graph::get_cached_node_id_from_name
//@rewrite Cow<str> => &String
//@rewrite node_name\.as_ref\(\) => node_name
//@rewrite &node_name => node_name
//@rewrite node_name\.to_string\(\) => clone_of(node_name)
//@spec
    requires self.cached(*old(cache)),
    ensures
        self.cached(*final(cache)),
        ret matches Ok(None) ==> !known(self.node_annos.view(), *node_name),
        ret matches Ok(Some(id)) ==> named(self.node_annos.view(), id, *node_name),
//@end
#[verifier::loop_isolation(false)]
#[verifier::rlimit(60)]
//@fn src=core/src/graph/mod.rs item=Graph::apply_update_in_memory
//@rewrite <F> =>
//@rewrite (?s)where\s+F: Fn\(&str\),? =>
//@rewrite (?s),\s+progress_callback: F, => ,
//@rewrite progress_callback\(&format!\("applying[^;]*; =>
//@rewrite progress_callback\("[^;]*; =>
//@rewrite (?s)if nr_updates > 0 && nr_updates % 100_000 == 0 \{.*?\n            \} =>
//@rewrite NonZeroUsize::new\(1_000\)\.ok_or\(GraphAnnisCoreError::ZeroCacheSize\)\? => cache_size()?
//@rewrite for \(nr_updates, update_event\) in ([\w/*: ]*)u\.iter\(\)\?\.enumerate\(\) => for update_event in ${1}u.iter()?
//@rewrite CLruCache::new\( => CLruCache::<String, Option<NodeID>>::new(
//@rewrite Cow::Borrowed\((\w+)\) => $1
//@rewrite (\w+) == \*NODE_NAME_KEY\.as_ref\(\) => key_eq(&$1, &node_name_key())
//@rewrite anno\.key_eq\(&key, => key_eq(&anno.key,
//@rewrite NODE_NAME_KEY\.as_ref\(\)\.clone\(\) => node_name_key()
//@rewrite NODE_TYPE_KEY\.as_ref\(\)\.clone\(\) => node_type_key()
//@rewrite (\w+)\.into\(\) => clone_of($1)
//@rewrite node_name\.clone\(\) => clone_of(node_name)
//@rewrite CT::from_str => ctype_from_str
//@rewrite Included\(1\) => Bound::Included(1)
//@spec
    ensures
        // the result is one the changes have one after another; the derived components are updated
        ret is Ok ==> exists|m: World| #[trigger] steps(old(self).world(), old(u).events(), m) && same_but_derived(m, final(self).world()),
//@forname 0 it
//@loop 0
    invariant
        steps(old(self).world(), evs.take(it.index()), self.world()), it.index() <= evs.len(),
        it.seq().len() == evs.len(), forall|i: int| #![trigger it.seq()[i]] 0 <= i < it.seq().len() && it.seq()[i] is Ok ==> it.seq()[i]->Ok_0 == evs[i],
        self.cached(node_id_cache),
//@at before_loop 0
    let ghost evs = u.events();
    proof { assert(trace(old(self).world(), evs.take(0), seq![self.world()], self.world())); }
//@at before_call before_update_event 0
    let ghost w0 = self.world();
    let ghost ch = change;
    let ghost cache0 = node_id_cache;
//@forname 1 jt
//@loop 1
    invariant
        removed_in_first(w0, self.world(), existing_node_id, jt.seq(), jt.index() as int),
//@at loop_start 1
    let ghost w1 = self.world();
//@at loop_end 1
    proof { lemma_removed_next(w0, w1, self.world(), existing_node_id, jt.seq(), jt.index()); }
//@at after_loop 1
    proof {
        assert(exists|all: Seq<Component>| #[trigger] removed_in_first(w0, self.world(), existing_node_id, all, all.len() as int));
        let all = choose|all: Seq<Component>| #[trigger] removed_in_first(w0, self.world(), existing_node_id, all, all.len() as int);
        assert(all.take(all.len() as int) =~= all);
        lemma_removed_all(w0, self.world(), existing_node_id, all);
    }
//@at after_loop 0
    proof { assert(evs.take(evs.len() as int) =~= evs); }
//@at before_call after_update_event 0
    proof {
        axiom_keys();
        assert forall|n: String| #![trigger node_id_cache.view().dom().contains(n)] node_id_cache.view().dom().contains(n) implies match node_id_cache.view()[n] { Some(id) => named(self.node_annos.view(), id, n), None => !known(self.node_annos.view(), n) } by {
            match ch {
                UpdateEvent::AddNode { node_name, node_type } => { assert(node_id_cache.view()[n] is Some ==> named(self.node_annos.view(), node_id_cache.view()[n]->0, n)); 
                   if node_id_cache.view()[n] is None { assert forall|id: NodeID| !named(self.node_annos.view(), id, n) by { assert(!named(w0.labels, id, n)); } } }
                UpdateEvent::DeleteNode { node_name } => {  assert(node_id_cache.view()[n] is Some ==> named(self.node_annos.view(), node_id_cache.view()[n]->0, n)); 
                   if node_id_cache.view()[n] is None { assert forall|id: NodeID| !named(self.node_annos.view(), id, n) by { assert(!named(w0.labels, id, n)); } } }
                UpdateEvent::AddNodeLabel { node_name, anno_ns, anno_name, anno_value } => {  assert(node_id_cache.view()[n] is Some ==> named(self.node_annos.view(), node_id_cache.view()[n]->0, n)); 
                   if node_id_cache.view()[n] is None { assert forall|id: NodeID| !named(self.node_annos.view(), id, n) by { assert(!named(w0.labels, id, n)); } } }
                UpdateEvent::DeleteNodeLabel { node_name, anno_ns, anno_name } => {  assert(node_id_cache.view()[n] is Some ==> named(self.node_annos.view(), node_id_cache.view()[n]->0, n)); 
                   if node_id_cache.view()[n] is None { assert forall|id: NodeID| !named(self.node_annos.view(), id, n) by { assert(!named(w0.labels, id, n)); } } }
                _ => { assert(w0.labels == self.node_annos.view()); }
            }
        }
        assert forall|c: Component| #![trigger put(w0.edges, c, (w0.edges)(c))] put(w0.edges, c, (w0.edges)(c)) == w0.edges by { lemma_put_same(w0.edges, c); }
        assert forall|c: Component| #![trigger put(w0.elabels, c, (w0.elabels)(c))] put(w0.elabels, c, (w0.elabels)(c)) == w0.elabels by { lemma_put_same(w0.elabels, c); }
        match ch {
            UpdateEvent::AddNode { node_name, node_type } => { assert(step(w0, ch, self.world())); }
            UpdateEvent::DeleteNode { node_name } => { assert(step(w0, ch, self.world())); }
            UpdateEvent::AddNodeLabel { .. } => { assert(step(w0, ch, self.world())); }
            UpdateEvent::DeleteNodeLabel { .. } => { assert(step(w0, ch, self.world())); }
            UpdateEvent::AddEdge { .. } => { assert(step(w0, ch, self.world())); }
            UpdateEvent::DeleteEdge { .. } => { assert(step(w0, ch, self.world())); }
            UpdateEvent::AddEdgeLabel { .. } => { assert(step(w0, ch, self.world())); }
            UpdateEvent::DeleteEdgeLabel { .. } => { assert(step(w0, ch, self.world())); }
        }
        lemma_steps_next(old(self).world(), evs, it.index(), w0, self.world());
    }
//@end
}
}
