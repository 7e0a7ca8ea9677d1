//! P02: reachability inside a component against the enumeration of all simple paths.
use graphannis_core::dfs::CycleSafeDFS;
use graphannis_core::graph::storage::adjacencylist::AdjacencyListStorage;
use graphannis_core::graph::storage::disk_adjacency::DiskAdjacencyListStorage;
use graphannis_core::graph::storage::union::UnionEdgeContainer;
use graphannis_core::graph::storage::{EdgeContainer, GraphStorage};
use replay::gs::*;
use replay::*;
use std::collections::BTreeSet;

struct Reach<'a> {
    m: &'a Model,
    orig: &'a AdjacencyListStorage,
}
impl Visit for Reach<'_> {
    fn visit<G: Impl>(&mut self, name: &str, reflexive: bool, rng: &mut Rng) -> Result<(), String> {
        let mut gs = G::make()?;
        ok(gs.copy(&node_annos(self.m), self.orig), "copy")?;
        check_reach(name, &gs, self.m, rng, 3, reflexive)
    }
}

fn main() {
    let mut c = Ctx::from_args();
    c.rule("Random components (all shapes, ids up to u64::MAX) in every storage suited for the shape; each node is asked with random inclusive, exclusive, unbounded and extreme ranges; a case is one component with its answers, non-trivial when it has edges.");
    for shape in [Shape::Any, Shape::Dag, Shape::Forest, Shape::Chains, Shape::FanOutOne, Shape::FanOutOneAcyclic] {
        c.run(&format!("reach-{shape:?}"), 250, |rng, i, tr| {
            let m = random_model(rng, shape, 7, i % 2 == 0);
            tr.note("component", &m.edges);
            tr.trivial_if(m.edges.is_empty());
            let orig = adjacency(&m)?;
            check_reach("AdjacencyList(filled)", &orig, &m, rng, 4, true)?;
            visit_suited(&m, rng, &mut Reach { m: &m, orig: &orig })
        });
    }
    // every digraph on three nodes, every range up to four, on both writable storages
    c.run_exact("all-3-node-graphs", 64, |rng, i, tr| {
        let pairs = [(1u64, 2u64), (2, 1), (1, 3), (3, 1), (2, 3), (3, 2)];
        let mut m = Model { nodes: vec![1, 2, 3, 4], ..Default::default() };
        for (k, p) in pairs.iter().enumerate() {
            if i >> k & 1 == 1 {
                m.add(p.0, p.1);
            }
        }
        tr.note("component", &m.edges);
        let mut d = ok(DiskAdjacencyListStorage::new(), "new")?;
        fill(&mut d, &m)?;
        let mut a = AdjacencyListStorage::new();
        fill(&mut a, &m)?;
        for min in 0..4 {
            for max in [std::ops::Bound::Unbounded, std::ops::Bound::Included(0), std::ops::Bound::Included(1), std::ops::Bound::Included(2), std::ops::Bound::Excluded(0), std::ops::Bound::Excluded(1), std::ops::Bound::Excluded(2), std::ops::Bound::Excluded(3)] {
                for gs in [&a as &dyn GraphStorage, &d] {
                    for n in [1u64, 2, 3, 4] {
                        let l = lens(&m.edges, n);
                        let want: BTreeSet<u64> = l.iter().filter(|x| x.1.iter().any(|d| in_range(*d, min, &max))).map(|x| *x.0).collect();
                        let got: Vec<u64> = ok(gs.find_connected(n, min, max).collect::<Result<Vec<_>, _>>(), "find_connected")?;
                        ensure!(got.len() == want.len() && got.iter().all(|x| want.contains(x)), "find_connected({n}, {min}, {max:?}) = {got:?}, expected {want:?}");
                        for t in [1u64, 2, 3, 4] {
                            let g = ok(gs.is_connected(n, t, min, max), "is_connected")?;
                            ensure!(g == want.contains(&t), "is_connected({n}, {t}, {min}, {max:?}) = {g}");
                        }
                    }
                }
            }
        }
        check_reach("DiskAdjacencyList", &d, &m, rng, 3, true)
    });
    // the traversal itself: every node of every simple path with its length, over unions of components
    c.run("traversal", 1500, |rng, i, tr| {
        let m1 = random_model(rng, Shape::Any, 6, true);
        let mut m2 = random_model(rng, if i % 2 == 0 { Shape::Any } else { Shape::Dag }, 5, true);
        let both: BTreeSet<(u64, u64)> = m1.edges.union(&m2.edges).copied().collect();
        m2.nodes.extend(m1.nodes.iter());
        tr.note("components", &(&m1.edges, &m2.edges));
        tr.trivial_if(both.is_empty());
        let (a1, a2) = (adjacency(&m1)?, adjacency(&m2)?);
        let u = UnionEdgeContainer::new(vec![a1.as_edgecontainer(), a2.as_edgecontainer()]);
        let m = Model { edges: both.clone(), nodes: m2.nodes.clone(), ..Default::default() };
        check_edges("union", &u, &m)?;
        let rev = m.reversed();
        for n in m.nodes.iter().copied().collect::<BTreeSet<_>>() {
            let (min, max) = (rng.below(4), if rng.chance(1, 3) { usize::MAX } else { rng.below(6) });
            for (inv, edges) in [(false, &both), (true, &rev)] {
                let mut it = if inv { CycleSafeDFS::new_inverse(&u, n, min, max) } else { CycleSafeDFS::new(&u, n, min, max) };
                let mut got: BTreeSet<(u64, usize)> = BTreeSet::new();
                for s in it.by_ref() {
                    let s = ok(s, "traversal")?;
                    got.insert((s.node, s.distance));
                }
                let want: BTreeSet<(u64, usize)> = lens(edges, n).into_iter().flat_map(|(t, d)| d.into_iter().map(move |d| (t, d))).filter(|x| x.1 >= min && x.1 <= max).collect();
                ensure!(got == want, "traversal from {n} (inverse: {inv}) with {min}..={max}: got {got:?}, expected {want:?}");
                // a cycle is reported exactly if the traversal met one within its maximal distance
                let reach: BTreeSet<u64> = lens(edges, n).keys().copied().collect();
                let sub = Model { edges: edges.iter().filter(|e| reach.contains(&e.0)).copied().collect(), ..Default::default() };
                if !sub.is_cyclic() {
                    ensure!(!it.is_cyclic(), "traversal from {n} (inverse: {inv}) reports a cycle in an acyclic graph");
                } else if max == usize::MAX {
                    ensure!(it.is_cyclic(), "traversal from {n} (inverse: {inv}) does not report the cycle");
                }
            }
        }
        Ok(())
    });
    // long chains and a long cycle: positions beyond one byte
    c.run("long", 3, |rng, i, tr| {
        let n = *rng.pick(&[254usize, 255, 256, 257, 300]);
        let cycle = i % 3 == 2;
        let mut m = Model { nodes: (0..n as u64).collect(), ..Default::default() };
        for k in 1..n as u64 {
            m.add(k - 1, k);
        }
        if cycle {
            m.add(n as u64 - 1, 0);
        }
        tr.note("chain length, cycle", &(n, cycle));
        let a = adjacency(&m)?;
        for _ in 0..6 {
            let s = rng.below(n);
            let min = rng.below(n + 2);
            let max = min + rng.below(4);
            let it = a.find_connected(s as u64, min, std::ops::Bound::Included(max));
            let mut got: Vec<u64> = ok(it.collect::<Result<Vec<_>, _>>(), "find_connected")?;
            got.sort();
            let mut want: Vec<u64> = (min..=max)
                .filter_map(|d| if cycle { (d < n).then(|| ((s + d) % n) as u64) } else { (s + d < n).then(|| (s + d) as u64) })
                .collect();
            want.sort();
            ensure!(got == want, "find_connected({s}, {min}, ..={max}) = {got:?}, expected {want:?}");
        }
        let d = ok(a.distance(0, n as u64 - 1), "distance")?;
        eq(d, Some(n - 1), "distance")
    });
    c.finish();
}
