//! P05: statistics are truthful, the chosen implementation can represent the component, optimising changes no answer.
use graphannis_core::annostorage::ValueSearch;
use graphannis_core::graph::Graph;
use graphannis_core::graph::storage::adjacencylist::AdjacencyListStorage;
use graphannis_core::graph::storage::disk_adjacency::DiskAdjacencyListStorage;
use graphannis_core::graph::storage::{EdgeContainer, GraphStatistic, GraphStorage, WriteableGraphStorage, registry};
use graphannis_core::types::{Component, DefaultComponentType, Edge};
use replay::gs::*;
use replay::*;
use std::collections::BTreeSet;

type G = Graph<DefaultComponentType>;

fn paths(m: &Model, n: u64, depth: usize) -> (usize, usize) {
    // (number of paths from n, length of the longest), only for acyclic components
    let mut r = (1, depth);
    for t in m.out(n) {
        let (c, d) = paths(m, t, depth + 1);
        r = (r.0 + c, r.1.max(d));
    }
    r
}

fn check_stats(what: &str, s: &GraphStatistic, m: &Model) -> Result<(), String> {
    let cyclic = m.is_cyclic();
    ensure_eq(&format!("{what}: cyclic"), &s.cyclic, &cyclic)?;
    ensure_eq(&format!("{what}: rooted_tree"), &s.rooted_tree, &(!cyclic && m.max_fan_in() <= 1))?;
    ensure_eq(&format!("{what}: nodes"), &s.nodes, &m.edge_nodes().len())?;
    ensure_eq(&format!("{what}: root_nodes"), &s.root_nodes, &m.roots().len())?;
    ensure_eq(&format!("{what}: max_fan_out"), &s.max_fan_out, &m.max_fan_out())?;
    if !m.edges.is_empty() {
        let avg = m.edges.len() as f64 / m.edge_nodes().len() as f64;
        ensure!((s.avg_fan_out - avg).abs() < 1e-9, "{what}: avg_fan_out {} expected {avg}", s.avg_fan_out);
    }
    if !cyclic && !m.edges.is_empty() {
        let mut visits = 0;
        let mut depth = 1;
        for r in m.roots() {
            let (c, d) = paths(m, r, 0);
            visits += c;
            depth = depth.max(d);
        }
        ensure_eq(&format!("{what}: max_depth"), &s.max_depth, &depth)?;
        let ratio = visits as f64 / m.edge_nodes().len() as f64;
        ensure!((s.dfs_visit_ratio - ratio).abs() < 1e-9, "{what}: dfs_visit_ratio {} expected {ratio}", s.dfs_visit_ratio);
    }
    Ok(())
}

fn stats_of<S: WriteableGraphStorage>(what: &str, mut gs: S, m: &Model, tr: &mut Trace) -> Result<(), String> {
    fill(&mut gs, m)?;
    ok(gs.calculate_statistics(), "calculate_statistics")?;
    let s = gs.get_statistics().ok_or("no statistics after calculate_statistics")?.clone();
    tr.note("statistics", &serde_json::to_string(&s).unwrap());
    check_stats(what, &s, m)
}

/// what a chosen implementation can hold
fn capable(id: &str, m: &Model) -> Result<(), String> {
    let cyclic = m.is_cyclic();
    let depth = || if cyclic { usize::MAX } else { m.roots().into_iter().map(|r| longest(m, r)).max().unwrap_or(0) };
    let acyclic = |o: bool| if o { Ok(()) } else { Err(format!("implementation {id} cannot hold the component")) };
    if id.starts_with("Linear") {
        let max = match () {
            _ if id.contains("O8") => 255,
            _ if id.contains("O16") => 65535,
            _ => usize::MAX,
        };
        acyclic(!cyclic && m.max_fan_out() <= 1 && m.max_fan_in() <= 1 && depth() <= max)
    } else if id.starts_with("PrePost") {
        let lvl = if id.contains("L8") { 255 } else { usize::MAX };
        let ord = if id.contains("O16") { 65535usize } else { usize::MAX };
        acyclic(!cyclic && depth() <= lvl && (ord == usize::MAX || 2 * m.edge_nodes().len() <= ord + 1))
    } else if id.starts_with("DiskPath") {
        acyclic(!cyclic && m.max_fan_out() <= 1 && depth() <= 15)
    } else if id.starts_with("Dense") {
        acyclic(m.max_fan_out() <= 1)
    } else {
        acyclic(id.contains("AdjacencyList"))
    }
}
fn longest(m: &Model, n: u64) -> usize {
    // iterative for deep chains
    let mut best = 0;
    let mut level: BTreeSet<u64> = [n].into();
    while !level.is_empty() {
        level = level.iter().flat_map(|x| m.edges.range((*x, 0)..=(*x, u64::MAX)).map(|e| e.1)).collect();
        if !level.is_empty() {
            best += 1;
        }
    }
    best
}

fn graph_of(parts: &[(Component<DefaultComponentType>, Model)], disk: bool) -> Result<G, String> {
    let mut g = ok(G::new(disk), "Graph::new")?;
    for (_, m) in parts {
        for n in m.nodes.iter().copied().chain(m.edge_nodes()) {
            for (k, v) in [("node_name", format!("n{n}")), ("node_type", "node".to_string())] {
                ok(g.get_node_annos_mut().insert(n, anno(&("annis".into(), k.into()), &v)), "insert")?;
            }
        }
    }
    for (c, m) in parts {
        fill(ok(g.get_or_create_writable(c), "get_or_create_writable")?, m)?;
    }
    Ok(g)
}

fn check_graph(what: &str, g: &G, parts: &[(Component<DefaultComponentType>, Model)], rng: &mut Rng) -> Result<(), String> {
    let nodes: BTreeSet<u64> = parts.iter().flat_map(|p| p.1.nodes.iter().copied().chain(p.1.edge_nodes())).collect();
    let mut got = BTreeSet::new();
    for m in g.get_node_annos().exact_anno_search(Some("annis"), "node_type", ValueSearch::Any) {
        got.insert(ok(m, "node search")?.node);
    }
    ensure_eq(&format!("{what}: nodes"), &got, &nodes)?;
    for n in &nodes {
        let name = ok(g.get_node_annos().get_value_for_item(n, &graphannis_core::types::AnnoKey { ns: "annis".into(), name: "node_name".into() }), "node name")?;
        ensure_eq(&format!("{what}: name of {n}"), &name.map(|x| x.to_string()), &Some(format!("n{n}")))?;
    }
    for (c, m) in parts {
        let gs = g.get_graphstorage(c).ok_or_else(|| format!("{what}: component {c} is gone"))?;
        let id = gs.serialization_id();
        let l = format!("{what}: {c} as {id}");
        capable(&id, m).map_err(|e| format!("{l}: {e}"))?;
        check_edges(&l, gs.as_ref(), m)?;
        check_annos(&l, gs.as_ref(), m)?;
        check_reach(&l, gs.as_ref(), m, rng, 2, !id.starts_with("DiskPath"))?;
        if let Some(s) = gs.get_statistics() {
            check_stats(&l, s, m)?;
        }
    }
    Ok(())
}

fn main() {
    let mut c = Ctx::from_args();
    c.rule("Random components of every shape: calculated statistics are compared with the ones of the plain edge set; graphs of several such components are optimised in memory and on disk (and back, changed in between, saved and loaded) and every edge, annotation and range query compared; choices are also made for components around the limits of the position, level and order types; a case is one component or graph, non-trivial when it has edges.");
    for shape in [Shape::Any, Shape::Dag, Shape::Forest, Shape::Chains, Shape::FanOutOne, Shape::FanOutOneAcyclic] {
        c.run(&format!("statistics-{shape:?}"), 150, |rng, i, tr| {
            let m = random_model(rng, shape, if i % 4 == 0 { 12 } else { 7 }, i % 2 == 0);
            tr.note("edges", &m.edges);
            tr.trivial_if(m.edges.is_empty());
            if i % 5 == 0 {
                stats_of("DiskAdjacencyList", ok(DiskAdjacencyListStorage::new(), "new")?, &m, tr)
            } else {
                stats_of("AdjacencyList", AdjacencyListStorage::new(), &m, tr)
            }
        });
    }
    c.run("statistics-many", 12, |rng, i, tr| {
        // more than 100 nodes, the largest fan-out at one node only
        let n = rng.range(100, 400) as u64;
        let mut m = Model { nodes: (0..n).collect(), ..Default::default() };
        let hub = rng.below(n as usize) as u64;
        for k in 1..n {
            let s = if rng.chance(1, 30) { hub } else { k - 1 };
            if i % 2 == 0 || s < k {
                m.add(s, k);
            }
        }
        tr.note("edges", &m.edges);
        let cyc = m.is_cyclic();
        stats_of("AdjacencyList", AdjacencyListStorage::new(), &m, tr)?;
        tr.note("cyclic", &cyc);
        if i % 3 == 0 { stats_of("DiskAdjacencyList", ok(DiskAdjacencyListStorage::new(), "new")?, &m, tr) } else { Ok(()) }
    });
    c.run("optimise", 160, |rng, i, tr| {
        let mut parts = Vec::new();
        for k in 0..rng.range(1, 3) {
            let shape = *rng.pick(&[Shape::Any, Shape::Dag, Shape::Forest, Shape::Chains, Shape::FanOutOne, Shape::FanOutOneAcyclic]);
            let mx = rng.range(2, 9);
            let m = random_model(rng, shape, mx, true);
            parts.push((Component::<DefaultComponentType>::new(DefaultComponentType::Edge, "l".into(), format!("c{k}").into()), m));
        }
        for (c, m) in &parts {
            tr.note(&format!("{c}"), &(&m.edges, &m.annos));
        }
        let disk = rng.chance(1, 3);
        tr.note("disk based", &disk);
        let mut g = graph_of(&parts, disk)?;
        ok(g.calculate_all_statistics(), "calculate_all_statistics")?;
        check_graph("graph", &g, &parts, rng)?;
        let dir = tempfile::tempdir().unwrap();
        if i % 3 == 0 {
            ok(g.persist_to(dir.path()), "persist_to")?;
        }
        for round in 0..rng.range(1, 3) {
            let d = if rng.chance(1, 3) { !disk } else { disk };
            tr.note("optimise, disk based", &d);
            ok(g.optimize_impl(d), "optimize_impl")?;
            check_graph(&format!("after optimising ({round})"), &g, &parts, rng)?;
            if i % 3 == 0 {
                let mut h = ok(G::new(false), "Graph::new")?;
                ok(h.open(dir.path()), "open")?;
                ok(h.ensure_loaded_all(), "ensure_loaded_all")?;
                check_graph("opened again", &h, &parts, rng)?;
                drop(h);
            }
            if rng.chance(1, 2) {
                // change a component, then optimise again
                let k = rng.below(parts.len());
                let (c, m) = &mut parts[k];
                let gs = ok(g.get_or_create_writable(c), "get_or_create_writable")?;
                for _ in 0..rng.range(1, 4) {
                    let (a, b) = (*rng.pick(&m.nodes), *rng.pick(&m.nodes));
                    if rng.chance(1, 4) {
                        tr.note("delete_edge", &(a, b));
                        ok(gs.delete_edge(&Edge { source: a, target: b }), "delete_edge")?;
                        m.edges.remove(&(a, b));
                        m.annos.remove(&(a, b));
                    } else {
                        tr.note("add_edge", &(a, b));
                        ok(gs.add_edge(Edge { source: a, target: b }), "add_edge")?;
                        m.add(a, b);
                    }
                }
                ok(g.calculate_all_statistics(), "calculate_all_statistics")?;
                check_graph("changed", &g, &parts, rng)?;
            }
        }
        Ok(())
    });
    c.run("limits", 14, |rng, i, tr| {
        // components around the limits of the types
        let n = [15u64, 16, 17, 127, 128, 253, 254, 255, 256, 257, 258][(i + rng.below(3)) % 11];
        let mut m = Model { nodes: (0..=n).collect(), ..Default::default() };
        for k in 0..n {
            m.add(k, k + 1);
        }
        let kind = rng.below(4);
        match kind {
            0 => {}
            1 => m.edges.extend([(0, n + 1)]),     // a tree, not a chain
            2 => m.edges.extend([(n + 1, n), (n + 2, n)]), // almost a tree
            _ => m.edges.extend([(n + 1, n)]),
        }
        tr.note("chain length, kind", &(n, kind));
        let c = Component::<DefaultComponentType>::new(DefaultComponentType::Edge, "l".into(), "c".into());
        let parts = [(c.clone(), m.clone())];
        let disk = i % 4 == 3;
        let mut g = graph_of(&parts, disk)?;
        ok(g.optimize_impl(disk), "optimize_impl")?;
        let gs = g.get_graphstorage(&c).unwrap();
        let id = gs.serialization_id();
        tr.note("implementation", &id);
        capable(&id, &m)?;
        check_edges(&id, gs.as_ref(), &m)?;
        for (s, d) in [(0, n), (0, n - 1), (1, n - 1), (n - 1, 1), (rng.below(n as usize) as u64, 1)] {
            let r = ok(gs.find_connected(s, d as usize, std::ops::Bound::Included(d as usize)).collect::<Result<Vec<_>, _>>(), "find_connected")?;
            ensure!(r.contains(&(s + d)), "{id}.find_connected({s}, {d}, ..={d}) = {r:?} lacks {}", s + d);
            ensure_eq(&format!("{id}.distance({s}, {})", s + d), &ok(gs.distance(s, s + d), "distance")?, &Some(d as usize))?;
            let c = ok(gs.is_connected(s, s + d, d as usize, std::ops::Bound::Included(d as usize)), "is_connected")?;
            ensure!(c, "{id}.is_connected({s}, {}, {d}, ..={d}) = false", s + d);
        }
        Ok(())
    });
    let depths = [0usize, 1, 2, 14, 15, 16, 254, 255, 256, 65534, 65535, 65536, (1 << 32) - 2, (1 << 32) - 1, 1 << 32];
    let nodes = [0usize, 1, 2, 32766, 32767, 32768, 32769, 65534, 65535, 65536, (1 << 31) - 2, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, (1 << 32) - 2, (1 << 32) - 1, 1 << 33];
    c.run_exact("choice", 2 * nodes.len(), |rng, i, tr| {
        // the choice for made up statistics: only the recorded facts may be relied on
        let disk = i % 2 == 1;
        let nodes = nodes[i / 2];
        let mut g = ok(G::new(disk), "Graph::new")?;
        ok(g.get_node_annos_mut().insert(*rng.pick(&[0, 1, 100, 40000]), anno(&("annis".into(), "node_name".into()), "x")), "insert")?;
        let mut created = BTreeSet::new();
        for depth in depths {
            for max_fan_out in 0..3 {
                for (cyclic, rooted_tree) in [(false, false), (false, true), (true, false)] {
                    for dfs_visit_ratio in [0.0, 1.0, 1.03, 1.04] {
                        let s = GraphStatistic {
                            cyclic,
                            rooted_tree,
                            nodes,
                            root_nodes: 1,
                            avg_fan_out: 1.0,
                            fan_out_99_percentile: 1,
                            inverse_fan_out_99_percentile: 1,
                            max_fan_out,
                            // the depth of a cyclic component is recorded as zero
                            max_depth: if cyclic { 0 } else { depth },
                            dfs_visit_ratio,
                        };
                        let id = registry::get_optimal_impl_heuristic(&g, &s).id;
                        let path_like = !s.cyclic;
                        let good = if let Some(x) = id.strip_prefix("LinearO") {
                            let bits: u32 = x.trim_end_matches("V1").parse().unwrap_or(0);
                            bits > 0 && s.rooted_tree && s.max_fan_out <= 1 && path_like && (bits >= 64 || s.max_depth < (1usize << bits))
                        } else if let Some(x) = id.strip_prefix("PrePostOrderO") {
                            let (o, l) = x.trim_end_matches("V1").split_once('L').unwrap_or(("0", "0"));
                            let (o, l): (u32, u32) = (o.parse().unwrap_or(0), l.parse().unwrap_or(0));
                            o > 0 && l > 0 && path_like && (l >= 64 || s.max_depth < (1usize << l)) && (o >= 64 || s.rooted_tree && 2 * s.nodes <= (1usize << o))
                        } else if id.starts_with("DiskPath") {
                            disk && path_like && s.max_fan_out <= 1 && s.max_depth <= 15
                        } else if id.starts_with("Dense") {
                            !disk && s.max_fan_out <= 1
                        } else {
                            id.contains("AdjacencyList")
                        };
                        let new = created.insert(id.clone());
                        if !good || new {
                            tr.note("statistics", &serde_json::to_string(&s).unwrap());
                            tr.note("chosen", &id);
                        }
                        ensure!(good, "implementation {id} is chosen but cannot hold every component with these statistics (disk based: {disk})");
                        if new {
                            let gs = ok(registry::create_from_info(&registry::get_optimal_impl_heuristic(&g, &s)), "create_from_info")?;
                            ensure!(gs.serialization_id() == id, "the created storage has another name than {id}");
                        }
                    }
                }
            }
        }
        Ok(())
    });
    c.finish();
}
