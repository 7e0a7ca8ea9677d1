//! P07: histories of the on-disk annotation storage against a plain map.
use graphannis_core::annostorage::ondisk::AnnoStorageImpl;
use graphannis_core::types::{Edge, NodeID};
use replay::annos::*;
use replay::*;

fn main() {
    let mut c = Ctx::from_args();
    c.rule("random histories of insert, remove_annotation_for_item, remove_item, statistics, save + load, clear on node and edge storages, every lookup, search, count and value list compared with a map; non-trivial: annotations left at the end");
    let fresh = || AnnoStorageImpl::<NodeID>::new(None).unwrap();
    let fresh_e = || AnnoStorageImpl::<Edge>::new(None).unwrap();
    c.run("node", 300, |rng, _, tr| history::<NodeID, _>(rng, tr, fresh(), fresh, |s, m, p| check_names(s, m, p), 40));
    c.run("edge", 200, |rng, _, tr| history::<Edge, _>(rng, tr, fresh_e(), fresh_e, |_, _, _| Ok(()), 40));
    c.run("long", 10, |rng, _, tr| history::<NodeID, _>(rng, tr, fresh(), fresh, |s, m, p| check_names(s, m, p), 400));
    c.run("evict", 2, |rng, _, tr| large(rng, tr, fresh(), fresh, 5_100));
    c.finish();
}
