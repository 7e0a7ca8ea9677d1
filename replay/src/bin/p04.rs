//! P04: copying a component into any suited storage, saving and loading keeps all answers.
use graphannis_core::graph::storage::disk_path::DiskPathStorage;
use graphannis_core::graph::storage::{EdgeContainer, GraphStorage};
use replay::gs::*;
use replay::*;

struct CopyIt<'a> {
    m: &'a Model,
    /// content of the storage before
    old: Option<&'a Model>,
    save: bool,
}
fn check(what: &str, gs: &dyn GraphStorage, m: &Model, rng: &mut Rng, reflexive: bool) -> Result<(), String> {
    check_edges(what, gs, m)?;
    check_annos(what, gs, m)?;
    check_reach(what, gs, m, rng, 3, reflexive)
}
fn same_stats(what: &str, a: &dyn EdgeContainer, b: &dyn EdgeContainer) -> Result<(), String> {
    let f = |x: &dyn EdgeContainer| x.get_statistics().map(|s| serde_json::to_string(s).unwrap());
    ensure_eq(&format!("{what}: statistics"), &f(a), &f(b))
}
impl Visit for CopyIt<'_> {
    fn visit<G: Impl>(&mut self, name: &str, reflexive: bool, rng: &mut Rng) -> Result<(), String> {
        let mut gs = G::make()?;
        // an empty storage has no edges
        check(&format!("{name}(empty)"), &gs, &Model { nodes: self.m.nodes.clone(), ..Default::default() }, rng, reflexive)?;
        if let Some(old) = self.old
            && suited(old).contains(&name)
        {
            ok(gs.copy(&node_annos(old), &adjacency(old)?), "first copy")?;
        }
        let orig = adjacency(self.m)?;
        ok(gs.copy(&node_annos(self.m), &orig), "copy")?;
        check(name, &gs, self.m, rng, reflexive)?;
        same_stats(name, &gs, &orig)?;
        if self.save {
            let d = tempfile::tempdir().unwrap();
            ok(gs.save_to(d.path()), "save_to")?;
            let loaded = ok(G::load_from(d.path()), "load_from")?;
            check(&format!("{name}(loaded)"), &loaded, self.m, rng, reflexive)?;
            same_stats(&format!("{name}(loaded)"), &loaded, &orig)?;
            ensure_eq("serialization_id", &loaded.serialization_id(), &gs.serialization_id())?;
            // saving a loaded storage, to the same and to another place
            let d2 = tempfile::tempdir().unwrap();
            ok(loaded.save_to(d.path()), "save_to the same place")?;
            ok(loaded.save_to(d2.path()), "save_to another place")?;
            drop(loaded);
            let l1 = ok(G::load_from(d.path()), "load_from")?;
            check(&format!("{name}(saved in place)"), &l1, self.m, rng, reflexive)?;
            let mut l2 = ok(G::load_from(d2.path()), "load_from")?;
            check(&format!("{name}(saved again)"), &l2, self.m, rng, reflexive)?;
            if let Some(old) = self.old
                && suited(old).contains(&name)
            {
                ok(l2.copy(&node_annos(old), &adjacency(old)?), "copy into a loaded storage")?;
                let mut o = old.clone();
                o.nodes.extend(&self.m.nodes);
                check(&format!("{name}(copied into loaded)"), &l2, &o, rng, reflexive)?;
            }
        }
        // copying back into a writable storage
        let mut back = graphannis_core::graph::storage::adjacencylist::AdjacencyListStorage::new();
        ok(back.copy(&node_annos(self.m), &gs), "copy back")?;
        check(&format!("adjacency list copied from {name}"), &back, self.m, rng, true)
    }
}

/// long components: positions, orders and levels beyond one and two bytes
struct Long<'a> {
    m: &'a Model,
    succ: &'a dyn Fn(u64, usize) -> Option<u64>,
}
impl Visit for Long<'_> {
    fn visit<G: Impl>(&mut self, name: &str, _: bool, rng: &mut Rng) -> Result<(), String> {
        let mut gs = G::make()?;
        ok(gs.copy(&node_annos(self.m), &adjacency(self.m)?), "copy")?;
        let n = self.m.nodes.len() as u64;
        for _ in 0..12 {
            let s = if rng.chance(1, 3) { 0 } else { rng.below(n as usize) as u64 };
            let d = if rng.chance(1, 3) { (n - 1 - s) as usize } else { rng.below(n as usize + 1) };
            let want = (self.succ)(s, d);
            let got = ok(gs.find_connected(s, d, std::ops::Bound::Included(d)).collect::<Result<Vec<_>, _>>(), "find_connected")?;
            ensure_eq(&format!("{name}.find_connected({s}, {d}, ..={d})"), &got, &want.into_iter().collect::<Vec<_>>())?;
            if let Some(t) = want {
                ensure_eq(&format!("{name}.distance({s}, {t})"), &ok(gs.distance(s, t), "distance")?, &Some(d))?;
                let c = ok(gs.is_connected(s, t, d, std::ops::Bound::Included(d)), "is_connected")?;
                ensure_eq(&format!("{name}.is_connected({s}, {t}, {d}, ..={d})"), &c, &true)?;
                let c = ok(gs.is_connected(s, t, 0, std::ops::Bound::Excluded(d)), "is_connected")?;
                ensure_eq(&format!("{name}.is_connected({s}, {t}, 0, ..{d})"), &c, &false)?;
                let got = ok(gs.find_connected_inverse(t, d, std::ops::Bound::Excluded(d + 1)).collect::<Result<Vec<_>, _>>(), "find_connected_inverse")?;
                ensure_eq(&format!("{name}.find_connected_inverse({t}, {d}, ..{})", d + 1), &got, &vec![s])?;
                if s != t {
                    let c = ok(gs.is_connected(t, s, 0, std::ops::Bound::Unbounded), "is_connected")?;
                    ensure_eq(&format!("{name}.is_connected({t}, {s}, ..)"), &c, &false)?;
                }
            }
        }
        for s in [0, n / 2, n - 2] {
            let o = ok(gs.get_outgoing_edges(s).collect::<Result<Vec<_>, _>>(), "get_outgoing_edges")?;
            ensure_eq(&format!("{name}.get_outgoing_edges({s})"), &o, &(self.succ)(s, 1).into_iter().collect::<Vec<_>>())?;
        }
        let mut src: Vec<u64> = ok(gs.source_nodes().collect::<Result<Vec<_>, _>>(), "source_nodes")?;
        src.sort();
        ensure_eq(&format!("{name}.source_nodes()"), &src, &self.m.sources().into_iter().collect::<Vec<_>>())
    }
}

fn main() {
    let mut c = Ctx::from_args();
    c.rule("Random components of each supported shape are copied into every suited implementation (empty or with previous content), saved, loaded and copied back; edges, annotations, statistics and random range queries are compared with a plain map after each step; a case is one component, non-trivial when it has edges.");
    for shape in [Shape::Any, Shape::Dag, Shape::Forest, Shape::Chains, Shape::FanOutOne, Shape::FanOutOneAcyclic] {
        c.run(&format!("copy-{shape:?}"), 45, |rng, i, tr| {
            let m = random_model(rng, shape, if i % 5 == 4 { 9 } else { 6 }, i % 2 == 0);
            let old = random_model(rng, shape, 6, i % 2 == 0);
            tr.note("component", &(&m.edges, &m.annos));
            tr.note("previous content", &(&old.edges, &old.annos));
            tr.trivial_if(m.edges.is_empty());
            visit_suited(&m, rng, &mut CopyIt { m: &m, old: (i % 3 != 0).then_some(&old), save: i % 2 == 1 })
        });
    }
    c.run("long-chain", 4, |rng, i, tr| {
        let n = [254u64, 255, 256, 257, 300, 700][(i + rng.below(2)) % 6];
        let mut m = Model { nodes: (0..n).collect(), ..Default::default() };
        for k in 1..n {
            m.add(k - 1, k);
        }
        tr.note("length of the chain", &n);
        let mut names = vec!["AdjacencyList", "DiskAdjacencyList", "DenseAdjacencyList", "Linear16", "Linear32", "Linear64", "PrePost64/64", "PrePost64/32", "PrePost32/32", "PrePost16/32"];
        if n <= 255 {
            names.extend(["Linear8", "PrePost64/8", "PrePost32/8", "PrePost16/8"]);
        }
        for name in names {
            visit_one(name, rng, &mut Long { m: &m, succ: &|s, d| (s as usize + d < n as usize).then(|| s + d as u64) })?;
        }
        Ok(())
    });
    c.run_exact("disk-path-depth", 16, |rng, i, tr| {
        // chains of every length up to the maximal depth
        let n = i as u64 + 1;
        let mut m = Model { nodes: (0..=n).collect(), ..Default::default() };
        for k in 0..n.min(15) {
            m.add(k, k + 1);
        }
        tr.note("edges", &m.edges);
        visit_one("DiskPath", rng, &mut CopyIt { m: &m, old: None, save: i % 4 == 3 })
    });
    c.run_exact("disk-path-reflexive", 1, |_, _, tr| {
        let m = Model { nodes: vec![0, 1], edges: [(0, 1)].into(), ..Default::default() };
        tr.note("component", &m.edges);
        let mut gs = ok(DiskPathStorage::new(), "new")?;
        ok(gs.copy(&node_annos(&m), &adjacency(&m)?), "copy")?;
        let d = ok(gs.distance(0, 0), "distance")?;
        let x = ok(gs.is_connected(0, 0, 0, std::ops::Bound::Included(1)), "is_connected")?;
        ensure!(d == Some(0) && x, "DiskPathStorage: distance(n, n) = {d:?}, is_connected(n, n, 0, ..=1) = {x}");
        Ok(())
    });
    c.finish();
}
