//! P03: histories of edge operations on the writable storages against a plain map.
use graphannis_core::graph::storage::adjacencylist::AdjacencyListStorage;
use graphannis_core::graph::storage::disk_adjacency::DiskAdjacencyListStorage;
use graphannis_core::graph::storage::{EdgeContainer, GraphStorage, WriteableGraphStorage};
use graphannis_core::types::{AnnoKey, Edge};
use replay::gs::*;
use replay::*;

fn check(what: &str, gs: &dyn GraphStorage, m: &Model) -> Result<(), String> {
    check_edges(what, gs, m)?;
    check_annos(what, gs, m)
}

fn history<G: WriteableGraphStorage + 'static>(what: &str, mut gs: G, rng: &mut Rng, tr: &mut Trace, disk: bool) -> Result<(), String> {
    let dirs = [tempfile::tempdir().unwrap(), tempfile::tempdir().unwrap()];
    let mut ids: Vec<u64> = (0..rng.range(2, 6) as u64).map(|x| x * rng.range(1, 300) as u64).collect();
    if rng.chance(1, 3) {
        ids.push(u64::MAX);
        ids.push(u64::MAX - 1);
    }
    ids.sort();
    ids.dedup();
    let mut m = Model { nodes: ids.clone(), ..Default::default() };
    let ops = rng.range(3, 40);
    let wild = rng.chance(1, 3);
    for _ in 0..ops {
        let e = if !m.edges.is_empty() && rng.chance(1, 2) {
            let v: Vec<_> = m.edges.iter().copied().collect();
            *rng.pick(&v)
        } else {
            (*rng.pick(&ids), *rng.pick(&ids))
        };
        let edge = Edge { source: e.0, target: e.1 };
        match rng.below(if wild { 24 } else { 17 }) {
            0..=6 => {
                tr.note("add_edge", &e);
                ok(gs.add_edge(edge), "add_edge")?;
                m.add(e.0, e.1);
            }
            7..=11 => {
                let (k, v) = random_anno(rng);
                tr.note("add_edge_annotation", &(e, &k, &v));
                ok(gs.add_edge_annotation(edge, anno(&k, &v)), "add_edge_annotation")?;
                if m.edges.contains(&e) {
                    m.annos.entry(e).or_default().insert(k, v);
                }
            }
            12..=13 => {
                tr.note("delete_edge", &e);
                ok(gs.delete_edge(&edge), "delete_edge")?;
                m.edges.remove(&e);
                m.annos.remove(&e);
            }
            14..=15 => {
                let (k, _) = random_anno(rng);
                tr.note("delete_edge_annotation", &(e, &k));
                ok(gs.delete_edge_annotation(&edge, &AnnoKey { ns: k.0.clone(), name: k.1.clone() }), "delete_edge_annotation")?;
                if let Some(a) = m.annos.get_mut(&e) {
                    a.remove(&k);
                }
            }
            16 => {
                tr.note("delete_node", &e.0);
                ok(gs.delete_node(e.0), "delete_node")?;
                m.edges.retain(|x| x.0 != e.0 && x.1 != e.0);
                m.annos.retain(|x, _| x.0 != e.0 && x.1 != e.0);
            }
            17 => {
                tr.note("calculate_statistics", &());
                ok(gs.calculate_statistics(), "calculate_statistics")?;
            }
            18 if rng.chance(1, 4) => {
                tr.note("clear", &());
                ok(gs.clear(), "clear")?;
                m.edges.clear();
                m.annos.clear();
            }
            19 if rng.chance(1, 3) => {
                let m2 = random_model(rng, Shape::Any, 5, true);
                tr.note("copy from", &(&m2.edges, &m2.annos));
                let orig = adjacency(&m2)?;
                ok(gs.copy(&node_annos(&m2), &orig), "copy")?;
                m.edges = m2.edges;
                m.annos = m2.annos;
                for n in m2.nodes {
                    if !m.nodes.contains(&n) {
                        m.nodes.push(n);
                    }
                }
            }
            20 if !disk || rng.chance(1, 2) => {
                let d = rng.below(2);
                tr.note("save and load", &d);
                ok(gs.save_to(dirs[d].path()), "save_to")?;
                check("storage after save_to", &gs, &m)?;
                gs = ok(G::load_from(dirs[d].path()), "load_from")?;
            }
            _ => continue,
        }
        check(what, &gs, &m)?;
    }
    tr.trivial_if(false);
    check_reach(what, &gs, &m, rng, 1, true)
}

fn evict(tr: &mut Trace) -> Result<(), String> {
    let dir = ok(tempfile::tempdir(), "tempdir")?;
    let mut gs = ok(DiskAdjacencyListStorage::new(), "new")?;
    let mut edges = std::collections::BTreeSet::new();
    for i in 0..50u64 {
        ok(gs.add_edge(Edge { source: i, target: i + 1000 }), "add_edge")?;
        edges.insert((i, i + 1000));
    }
    ok(gs.save_to(dir.path()), "save_to")?;
    let mut gs = ok(DiskAdjacencyListStorage::load_from(dir.path()), "load_from")?;
    for k in 0..10_300u64 {
        let (s, t) = (k % 101, 1000 + k / 101);
        if k % 101 == 0 {
            tr.note("add_edge", &(format!("{{0..101}} -> {t}"), "deleting {0..101} % 3"));
        }
        ok(gs.add_edge(Edge { source: s, target: t }), "add_edge")?;
        edges.insert((s, t));
        if s % 3 == 1 {
            ok(gs.delete_edge(&Edge { source: s, target: t }), "delete_edge")?;
            edges.remove(&(s, t));
        }
    }
    for n in (0..101).chain(1000..1105u64) {
        let mut out = ok(gs.get_outgoing_edges(n).collect::<Result<Vec<u64>, _>>(), "get_outgoing_edges")?;
        out.sort();
        eq(out, edges.iter().filter(|e| e.0 == n).map(|e| e.1).collect(), &format!("get_outgoing_edges({n})"))?;
        let mut inc = ok(gs.get_ingoing_edges(n).collect::<Result<Vec<u64>, _>>(), "get_ingoing_edges")?;
        inc.sort();
        eq(inc, edges.iter().filter(|e| e.1 == n).map(|e| e.0).collect(), &format!("get_ingoing_edges({n})"))?;
    }
    Ok(())
}

fn main() {
    let mut c = Ctx::from_args();
    c.rule("Random histories of adding and deleting edges, annotations and nodes (plus clear, copy, statistics, save and load) over few nodes, so that operations meet; after every operation all edges in both directions and all annotations are compared with a plain map; a case is one history.");
    c.run("adjacency", 700, |rng, _, tr| history("AdjacencyList", AdjacencyListStorage::new(), rng, tr, false));
    c.run("diskadjacency", 250, |rng, _, tr| history("DiskAdjacencyList", ok(DiskAdjacencyListStorage::new(), "new")?, rng, tr, true));
    // more changes than are kept in memory, after loading the storage
    c.run_exact("diskadjacency-evict", 1, |_, _, tr| evict(tr));
    c.finish();
}
