// Verus unit: the implementation chosen from the statistics of a component can represent the component
#![allow(unused)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub type NodeID = u64;
#[derive(Debug)]
pub struct GraphAnnisCoreError { pub code: u64 }
pub type Result<T> = std::result::Result<T, GraphAnnisCoreError>;
pub mod disk_path {
//@item src=core/src/graph/storage/disk_path.rs item="const MAX_DEPTH"
//@rewrite pub\(crate\) => pub
}
//@item src=core/src/graph/storage/mod.rs item="struct GraphStatistic"
/// which implementation is created, with the bits of its order (or position) and level numbers
pub enum Kind { AdjacencyList, DenseAdjacencyList, DiskAdjacencyList, DiskPath, Linear(u8), PrePost(u8, u8) }
pub struct GSInfo { pub kind: Kind }
/// `create_info::<GS>()`
pub fn create_info(kind: Kind) -> (r: GSInfo) ensures r.kind == kind { GSInfo { kind } }
pub fn create_info_diskadjacency() -> (r: GSInfo) ensures r.kind == Kind::DiskAdjacencyList { GSInfo { kind: Kind::DiskAdjacencyList } }
pub fn create_info_diskpath() -> (r: GSInfo) ensures r.kind == Kind::DiskPath { GSInfo { kind: Kind::DiskPath } }
pub trait NodeAnnotationStorage { fn get_largest_item(&self) -> Result<Option<NodeID>>; }
pub struct Graph { pub disk_based: bool, pub node_annos: Box<dyn NodeAnnotationStorage> }
/// comparisons of floating point ratios: either answer is possible
#[verifier::external_body]
pub fn ratio_at_least(nodes: usize, largest: NodeID, limit: f64) -> bool { unimplemented!() }
#[verifier::external_body]
pub fn at_most(ratio: f64, limit: f64) -> bool { unimplemented!() }
pub open spec fn pow(bits: u8) -> int { if bits == 8 { 0x100 } else if bits == 16 { 0x1_0000 } else if bits == 32 { 0x1_0000_0000 } else { 0x1_0000_0000_0000_0000 } }
/// an implementation of this kind holds every component with such statistics: a linear storage needs chains (trees without branches)
/// and numbers for every position, a pre/post order storage acyclic components with numbers for every level and two per visit of a node,
/// a disk path storage unbranched acyclic paths of limited length, a dense adjacency list at most one outgoing edge per node
pub open spec fn holds(k: Kind, s: &GraphStatistic, disk_based: bool) -> bool {
    match k {
        Kind::AdjacencyList => !disk_based,
        Kind::DiskAdjacencyList => disk_based,
        Kind::DenseAdjacencyList => !disk_based && s.max_fan_out <= 1,
        Kind::DiskPath => disk_based && !s.cyclic && s.max_fan_out <= 1 && s.max_depth <= 15,
        Kind::Linear(p) => s.rooted_tree && !s.cyclic && s.max_fan_out <= 1 && s.max_depth < pow(p),
        Kind::PrePost(o, l) => !s.cyclic && s.max_depth < pow(l) && (o == 64 || (s.rooted_tree && 2 * s.nodes <= pow(o))),
    }
}
/// statistics say of cyclic components that they are no trees
pub open spec fn consistent(s: &GraphStatistic) -> bool { s.rooted_tree ==> !s.cyclic }
//@fn src=core/src/graph/storage/registry.rs item=get_optimal_impl_heuristic
//@rewrite <CT: ComponentType> =>
//@rewrite Graph<CT> => Graph
//@rewrite stats\.dfs_visit_ratio <= 1\.03 => at_most(stats.dfs_visit_ratio, 1.03)
//@spec
    requires consistent(stats),
    ensures holds(ret.kind, stats, db.disk_based) || (db.disk_based && (ret.kind is Linear || ret.kind is PrePost) && holds(ret.kind, stats, false)),
//@end
//@fn src=core/src/graph/storage/registry.rs item=get_adjacencylist_impl
//@rewrite <CT: ComponentType> =>
//@rewrite Graph<CT> => Graph
//@rewrite \(stats\.nodes as f64 / largest_node_id as f64\) >= 0\.75 => ratio_at_least(stats.nodes, largest_node_id, 0.75)
//@rewrite create_info::<DenseAdjacencyListStorage>\(\) => create_info(Kind::DenseAdjacencyList)
//@rewrite create_info::<AdjacencyListStorage>\(\) => create_info(Kind::AdjacencyList)
//@spec
    ensures holds(ret.kind, stats, db.disk_based),
//@end
//@fn src=core/src/graph/storage/registry.rs item=get_prepostorder_by_size
//@rewrite create_info::<PrePostOrderStorage<u(\d+), u(\d+)>>\(\) => create_info(Kind::PrePost($1, $2))
//@spec
    requires !stats.cyclic,
    ensures ret.kind is PrePost, holds(ret.kind, stats, false),
//@end
//@fn src=core/src/graph/storage/registry.rs item=get_linear_by_size
//@rewrite create_info::<LinearGraphStorage<u(\d+)>>\(\) => create_info(Kind::Linear($1))
//@spec
    requires stats.rooted_tree, !stats.cyclic, stats.max_fan_out <= 1,
    ensures ret.kind is Linear, holds(ret.kind, stats, false),
//@end
}
