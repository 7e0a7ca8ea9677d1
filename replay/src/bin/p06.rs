//! P06: histories of the in-memory annotation storage against a plain map.
use graphannis_core::annostorage::inmemory::AnnoStorageImpl;
use graphannis_core::types::{Edge, NodeID};
use replay::annos::*;
use replay::*;

fn main() {
    let mut c = Ctx::from_args();
    c.rule("random histories of insert, remove_annotation_for_item, remove_item, statistics, save + load, clear on node and edge storages, every lookup, search, count and value list compared with a map; non-trivial: annotations left at the end");
    c.run("node", 500, |rng, _, tr| {
        history::<NodeID, _>(rng, tr, AnnoStorageImpl::new(), AnnoStorageImpl::new, |s, m, p| check_names(s, m, p), 40)
    });
    c.run("edge", 250, |rng, _, tr| history::<Edge, _>(rng, tr, AnnoStorageImpl::new(), AnnoStorageImpl::new, |_, _, _| Ok(()), 40));
    c.run("long", 20, |rng, _, tr| {
        history::<NodeID, _>(rng, tr, AnnoStorageImpl::new(), AnnoStorageImpl::new, |s, m, p| check_names(s, m, p), 400)
    });
    c.finish();
}
