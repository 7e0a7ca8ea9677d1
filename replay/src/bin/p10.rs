//! P10: lists of changes against a plain model, applied at once and split into several updates.
use graphannis::AnnotationGraph;
use graphannis::update::UpdateEvent;
use replay::upd::*;
use replay::*;

fn graph(disk: bool, default_components: bool) -> Result<AnnotationGraph, String> {
    if default_components { ok(AnnotationGraph::with_default_graphstorages(disk), "new graph") } else { ok(AnnotationGraph::new(disk), "new graph") }
}

fn main() {
    let mut c = Ctx::from_args();
    c.rule("random lists of changes over few node names (deleted, renamed and re-created nodes, missing nodes, unknown component types), applied as one update, event by event and randomly split, in memory and on disk, with and without optimising and statistics in between; compared with a plain model including the derived components");
    c.run("histories", 260, |rng, i, tr| {
        let n = names(rng);
        let len = if i % 10 == 0 { rng.range(0, 300) } else { rng.range(0, 60) };
        let ev = events(rng, &n, len);
        tr.note("events", &ev);
        let mut w = World::default();
        for e in &ev {
            w.apply(e);
        }
        tr.trivial_if(w.nodes.is_empty());
        let disk = i % 5 == 4;
        // all at once
        let mut g = graph(disk, true)?;
        ok(g.apply_update(&mut update(&ev)?, |_| {}), "apply_update")?;
        compare("one update", &mut g, &w)?;
        // split
        let mut g = graph(disk, true)?;
        let mut w2 = World::default();
        let mut at = 0;
        let mut cuts = vec![];
        let single = i % 4 == 1;
        while at < ev.len() {
            let k = if single { 1 } else { rng.range(1, (ev.len() - at).max(2)) }.min(ev.len() - at);
            for e in &ev[at..at + k] {
                w2.apply(e);
            }
            let mut u = update(&ev[at..at + k])?;
            if rng.chance(1, 3) {
                ok(g.apply_update_keep_statistics(&mut u, |_| {}), "apply_update_keep_statistics")?;
            } else {
                ok(g.apply_update(&mut u, |_| {}), "apply_update")?;
            }
            at += k;
            cuts.push(at);
            if rng.chance(1, 6) {
                ok(g.optimize_impl(disk), "optimize_impl")?;
                cuts.push(0);
            }
            if !single || rng.chance(1, 10) {
                tr.note("updates after the events (0: optimised)", &cuts);
                compare("several updates", &mut g, &w2)?;
            }
        }
        tr.note("updates after the events (0: optimised)", &cuts);
        compare("several updates", &mut g, &w2)?;
        // an empty update changes nothing
        ok(g.apply_update(&mut update(&[])?, |_| {}), "apply_update")?;
        compare("empty update", &mut g, &w)
    });
    c.rule("texts whose token order, coverage and dominance edges are added, removed and replaced in a random order over several updates");
    c.run("order", 160, |rng, i, tr| {
        let k = rng.range(3, 8);
        let toks: Vec<String> = (0..k).map(|i| format!("c/d#t{}", (i * 5) % 8)).collect();
        let structs: Vec<String> = (0..rng.range(1, 5)).map(|i| format!("c/d#s{i}")).collect();
        let mut ev = vec![];
        for x in toks.iter().chain(&structs) {
            ev.push(corpus::add_node(x, "node"));
        }
        for x in &toks {
            ev.push(corpus::add_label(x, "annis", "tok", x));
        }
        let mut rest = vec![];
        for j in 1..k {
            rest.push(corpus::add_edge(&toks[j - 1], &toks[j], "annis", "Ordering", ""));
        }
        for (j, s) in structs.iter().enumerate() {
            for t in &toks {
                if rng.chance(1, 3) {
                    rest.push(corpus::add_edge(s, t, "annis", "Coverage", ""));
                } else if rng.chance(1, 6) {
                    rest.push(corpus::add_edge(s, t, "test", "Dominance", "edge"));
                }
            }
            if j > 0 {
                rest.push(corpus::add_edge(s, &structs[rng.below(j)], "test", "Dominance", rng.pick(&["", "edge"][..])));
            }
        }
        rng.shuffle(&mut rest);
        ev.append(&mut rest);
        // remove a token or an order edge and close the gap
        for _ in 0..rng.below(3) {
            let j = rng.range(1, k - 1);
            if j + 1 < k {
                if rng.chance(1, 2) {
                    ev.push(UpdateEvent::DeleteNode { node_name: toks[j].clone() });
                } else {
                    for (a, b) in [(j - 1, j), (j, j + 1)] {
                        ev.push(UpdateEvent::DeleteEdge { source_node: toks[a].clone(), target_node: toks[b].clone(), layer: "annis".into(), component_type: "Ordering".into(), component_name: "".into() });
                    }
                }
                ev.push(corpus::add_edge(&toks[j - 1], &toks[j + 1], "annis", "Ordering", ""));
            }
        }
        tr.note("events", &ev);
        let mut g = graph(i % 6 == 5, true)?;
        let mut w = World::default();
        let mut at = 0;
        let mut cuts = vec![];
        while at < ev.len() {
            let m = if i % 3 == 0 { 1 } else { rng.range(1, 9) }.min(ev.len() - at);
            for e in &ev[at..at + m] {
                w.apply(e);
            }
            ok(g.apply_update(&mut update(&ev[at..at + m])?, |_| {}), "apply_update")?;
            at += m;
            cuts.push(at);
            tr.note("updates after the events", &cuts);
            if i % 3 != 0 || at + 3 > ev.len() {
                compare("several updates", &mut g, &w)?;
            }
        }
        Ok(())
    });
    c.finish();
}
