//! P13: the result of a query is the set of matches it means, for every plan.
use graphannis::annis::db::aql::Config;
use graphannis::annis::db::plan::ExecutionPlan;
use graphannis::annis::util::TimeoutCheck;
use graphannis::aql;
use graphannis::corpusstorage::{QueryLanguage, ResultOrder, SearchQuery};
use graphannis_core::annostorage::MatchGroup;
use replay::ops::*;
use replay::query::*;
use replay::upd::World;
use replay::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

struct Names {
    rev: BTreeMap<u64, u64>,
}
impl Names {
    fn hits(&self, m: &MatchGroup, used: &[usize]) -> Result<Vec<Hit>, String> {
        used.iter()
            .map(|i| {
                let m = m.get(*i).ok_or(format!("match with {} nodes", m.len()))?;
                let n = self.rev.get(&m.node).ok_or(format!("node {} is not in the corpus", m.node))?;
                Ok((*n, m.anno_key.ns.to_string(), m.anno_key.name.to_string()))
            })
            .collect()
    }
}
fn show(b: &Built, m: &[Hit]) -> String {
    m.iter().map(|(n, ns, k)| format!("{}::{}::{}", ns, k, b.s.w.name(*n))).collect::<Vec<_>>().join(" ")
}
fn compare(what: &str, b: &Built, got: Vec<Vec<Hit>>, want: &BTreeSet<Vec<Hit>>) -> Result<(), String> {
    let mut seen = BTreeSet::new();
    for m in &got {
        ensure!(want.contains(m), "{what}: found {} which is no match", show(b, m));
        ensure!(seen.insert(m.clone()), "{what}: found {} twice", show(b, m));
    }
    if let Some(m) = want.iter().find(|m| !seen.contains(*m)) {
        return Err(format!("{what}: {} is missing ({} of {} found)", show(b, m), seen.len(), want.len()));
    }
    Ok(())
}
fn permutations(n: usize) -> Vec<Vec<usize>> {
    fn rec(p: &mut Vec<usize>, n: usize, r: &mut Vec<Vec<usize>>) {
        if p.len() == n {
            r.push(p.clone());
        }
        for i in 0..n {
            if !p.contains(&i) {
                p.push(i);
                rec(p, n, r);
                p.pop();
            }
        }
    }
    let mut r = vec![];
    rec(&mut vec![], n, &mut r);
    r
}
fn matches_of(r: Result<MatchGroup, graphannis::errors::GraphAnnisError>, n: &Names, used: &[usize], what: &str) -> Result<Vec<Hit>, String> {
    n.hits(&ok(r, what)?, used)
}

fn plans(b: &Built, queries: Vec<Alt>, rng: &mut Rng, tr: &mut Trace) -> Result<(), String> {
    let names = Names { rev: b.id.iter().map(|(a, b)| (*b, *a)).collect() };
    let mut any = false;
    for q in queries {
        let global = !rng.chance(1, 5);
        tr.note("query", &q.debug());
        tr.note("nodes differ from all others", &global);
        let want = q.matches(&b.s, global);
        any |= !want.is_empty();
        let used: Vec<usize> = (0..q.nodes.len()).filter(|i| !q.nodes[*i].1).collect();
        let n_bin = q.lits.iter().filter(|l| matches!(l, Lit::Bin { .. } | Lit::Val { .. })).count();
        for par in [false, true] {
            let config = Config { use_parallel_joins: par };
            let d = ok(q.conjunction(global), "query")?.into_disjunction();
            let plan = ok(ExecutionPlan::from_disjunction(&d, &b.g, &config, TimeoutCheck::new(None)), "plan")?;
            let desc = format!("{plan}");
            let mut got = vec![];
            let all: Vec<usize> = (0..used.len()).collect();
            for m in plan {
                let m = ok(m, "match")?;
                eq(m.len(), all.len(), "nodes of the match")?;
                got.push(names.hits(&m, &all)?);
            }
            compare(&format!("{} (parallel: {par})\n{desc}", q.debug()), b, got, &want)?;
            let conj = ok(q.conjunction(global), "query")?;
            for order in permutations(n_bin).into_iter().take(24) {
                let mut cache = HashMap::new();
                let node = match conj.make_exec_plan_with_order(&b.g, &config, order.clone(), &mut cache, TimeoutCheck::new(None)) {
                    Ok(n) => n,
                    Err(e) => {
                        ensure!(want.is_empty(), "{} joins in order {order:?}: {e:?}", q.debug());
                        continue;
                    }
                };
                let desc = node.get_desc().ok_or("no description")?;
                let pos: Vec<usize> = used.iter().map(|i| desc.node_pos[i]).collect();
                let text = desc.debug_string("");
                let mut got = vec![];
                for m in node {
                    got.push(matches_of(m, &names, &pos, "match")?);
                }
                compare(&format!("{} (parallel: {par}, joins in order {order:?})\n{text}", q.debug()), b, got, &want)?;
            }
        }
    }
    tr.trivial_if(!any);
    Ok(())
}

fn main() {
    let mut c = Ctx::from_args();
    c.rule("random corpora and queries with one to four nodes (all kinds of node conditions, operators, negation, value comparison, number of children, optional nodes), every order of joins, sequential and parallel: the set of matches against a search through all combinations, and no match twice; a case is non-trivial when some query has a match");
    c.run("plans", 120, |rng, i, tr| {
        let b = build(rng, i, 5, tr)?;
        let queries = (0..4).map(|k| alt(rng, 2 + k % 3)).collect();
        plans(&b, queries, rng, tr)
    });
    c.rule("spans over the same one to three tokens and queries with three or four nodes which find the same ones, joined in a chain, a star or in pairs by operators which do not accept a node as its own partner: the same comparison");
    c.run("distinct", 60, |rng, i, tr| {
        let b = build_crowded(rng, i, tr)?;
        let queries = (0..3).map(|k| crowded(rng, 3 + k % 2)).collect();
        plans(&b, queries, rng, tr)
    });
    c.rule("queries with one to three alternatives as text: the union of the matches, each once");
    c.run("alternatives", 60, |rng, i, tr| {
        let b = build(rng, i, 4, tr)?;
        let names = Names { rev: b.id.iter().map(|(a, b)| (*b, *a)).collect() };
        let mut any = false;
        for _ in 0..6 {
            let mut alts = vec![];
            let mut texts = vec![];
            let mut off = 0;
            let n = rng.range(1, 3);
            while alts.len() < n {
                let a = alt(rng, 2);
                if let Some(t) = a.text(off) {
                    off += a.nodes.len();
                    texts.push(t);
                    alts.push(a);
                }
            }
            let text = if n == 1 { texts[0].clone() } else { texts.iter().map(|t| format!("({t})")).collect::<Vec<_>>().join(" | ") };
            tr.note("query", &text);
            let mut want: BTreeSet<Vec<Hit>> = BTreeSet::new();
            for a in &alts {
                want.extend(a.matches(&b.s, true));
            }
            any |= !want.is_empty();
            let d = ok(aql::parse(&text, false), "parse")?;
            for par in [false, true] {
                let mut got = vec![];
                for m in ok(aql::execute_query_on_graph(&b.g, &d, par, None), "query")? {
                    let m = ok(m, "match")?;
                    let all: Vec<usize> = (0..m.len()).collect();
                    got.push(names.hits(&m, &all)?);
                }
                let plan = ok(ExecutionPlan::from_disjunction(&d, &b.g, &Config { use_parallel_joins: par }, TimeoutCheck::new(None)), "plan")?;
                compare(&format!("{text} (parallel: {par})\n{plan}"), &b, got, &want)?;
            }
        }
        tr.trivial_if(!any);
        Ok(())
    });
    c.rule("the same queries on a corpus storage, mostly with the corpus unloaded before the query (it has to load the components it needs): number and names of the matches");
    c.run("storage", 10, |rng, i, tr| {
        let dir = tempfile::tempdir().unwrap();
        let cs = corpus::storage(dir.path(), i % 2 == 1)?;
        let docs = rng.range(1, 2);
        let ev = events(rng, "c", docs, 5);
        tr.note("events", &ev);
        ok(cs.apply_update("c", &mut upd::update(&ev)?), "apply_update")?;
        let mut w = World::default();
        for e in &ev {
            w.apply(e);
        }
        let s = Sem::new(w);
        for k in 0..16 {
            let mut alts = vec![];
            let mut texts = vec![];
            let mut off = 0;
            let n = if k % 3 == 0 { 2 } else { 1 };
            while alts.len() < n {
                let a = alt(rng, 3);
                if let Some(t) = a.text(off) {
                    off += a.nodes.len();
                    texts.push(t);
                    alts.push(a);
                }
            }
            let text = if n == 1 { texts[0].clone() } else { texts.iter().map(|t| format!("({t})")).collect::<Vec<_>>().join(" | ") };
            tr.note("query", &text);
            let mut want: BTreeSet<Vec<Hit>> = BTreeSet::new();
            for a in &alts {
                want.extend(a.matches(&s, true));
            }
            // the query has to load the components it needs itself
            if rng.chance(2, 3) {
                ok(cs.unload("c"), "unload")?;
            }
            let q = || SearchQuery { corpus_names: &["c"], query: &text, query_language: QueryLanguage::AQL, timeout: None };
            eq(ok(cs.count(q()), "count")? as usize, want.len(), &format!("count of {text}"))?;
            let want: BTreeSet<Vec<String>> = want.iter().map(|m| m.iter().map(|h| s.w.name(h.0)).collect()).collect();
            for order in [ResultOrder::Normal, ResultOrder::NotSorted, ResultOrder::Inverted, ResultOrder::Randomized] {
                let got = ok(cs.find(q(), 0, None, order), "find")?;
                let got: BTreeSet<Vec<String>> = got.iter().map(|m| m.split(' ').filter(|x| !x.is_empty()).map(|x| x.rsplit("::").next().unwrap().to_string()).collect()).collect();
                ensure!(got == want, "find {text} ({order:?}): {got:?} instead of {want:?}");
            }
        }
        Ok(())
    });
    c.rule("texts with 400 to 1800 tokens, queries with up to four token nodes joined by precedence, nearness and identical coverage, sequential and parallel: the matches against a search along the text");
    c.run("large", 4, |rng, i, tr| {
        use replay::corpus::*;
        let n = rng.range(400, 1800);
        tr.note("tokens", &n);
        let mut ev = vec![add_node("c", "corpus")];
        let kinds = ["A", "B", "C"];
        let w = rng.range(1, 5);
        let pos: Vec<usize> = (0..n).map(|_| if rng.chance(w, 6) { 0 } else { rng.below(3) }).collect();
        for (t, p) in pos.iter().enumerate() {
            let name = format!("c#t{t}");
            ev.push(add_node(&name, "node"));
            ev.push(add_label(&name, "annis", "tok", "w"));
            ev.push(add_label(&name, "test", "pos", kinds[*p]));
            ev.push(add_edge(&name, "c", "annis", "PartOf", ""));
            if t > 0 {
                ev.push(add_edge(&format!("c#t{}", t - 1), &name, "annis", "Ordering", ""));
            }
        }
        let mut g = ok(graphannis::AnnotationGraph::with_default_graphstorages(false), "new graph")?;
        ok(g.apply_update(&mut upd::update(&ev)?, |_| {}), "apply_update")?;
        if i % 2 == 0 {
            ok(g.calculate_all_statistics(), "calculate_all_statistics")?;
        } else {
            ok(g.optimize_impl(false), "optimize_impl")?;
        }
        ok(g.ensure_loaded_all(), "ensure_loaded_all")?;
        let mut at = HashMap::new();
        for t in 0..n {
            at.insert(ok(g.get_node_annos().get_node_id_from_name(&format!("c#t{t}")), "id")?.ok_or("no token")?, t);
        }
        for _ in 0..3 {
            let k = rng.range(2, 4);
            let sel: Vec<Option<usize>> = (0..k).map(|_| if rng.chance(1, 2) { None } else { Some(rng.below(3)) }).collect();
            // (left, right, operator, smallest and largest distance)
            let mut ops = vec![];
            let mut single = BTreeSet::new();
            for j in 1..k {
                let o = rng.below(j);
                let (l, r) = if rng.chance(1, 2) { (j, o) } else { (o, j) };
                let a = rng.range(1, 2) as i64;
                let b = a + rng.below(2) as i64;
                ops.push(match rng.below(4) {
                    0 | 1 => (l, r, '.', a, b),
                    2 => (l, r, '^', a, b),
                    _ => {
                        single.extend([l, r]);
                        (l, r, '=', 0, 0)
                    }
                });
            }
            let holds = |o: &(usize, usize, char, i64, i64), m: &[usize]| {
                let d = m[o.1] as i64 - m[o.0] as i64;
                match o.2 {
                    '.' => o.3 <= d && d <= o.4,
                    '^' => o.3 <= d.abs() && d.abs() <= o.4,
                    _ => d == 0,
                }
            };
            // the same token with another annotation is another hit
            let same = |m: &[usize], a: usize, b: usize| m[a] == m[b] && sel[a].is_some() == sel[b].is_some();
            let mut want: Vec<Vec<usize>> = (0..n).filter(|t| sel[0].is_none_or(|s| pos[*t] == s)).map(|t| vec![t]).collect();
            for j in 1..k {
                let mut next = vec![];
                for m in &want {
                    let around = if ops[j - 1].0 == j { m[ops[j - 1].1] } else { m[ops[j - 1].0] };
                    for t in around.saturating_sub(4)..(around + 5).min(n) {
                        let mut m = m.clone();
                        m.push(t);
                        if sel[j].is_none_or(|s| pos[t] == s) && holds(&ops[j - 1], &m) && (0..j).all(|x| !(single.contains(&x) || single.contains(&j)) || !same(&m, x, j)) {
                            next.push(m);
                        }
                    }
                }
                want = next;
            }
            let mut text: Vec<String> = sel.iter().map(|s| s.map_or("tok".to_string(), |s| format!("pos=\"{}\"", kinds[s]))).collect();
            for o in &ops {
                text.push(match o.2 {
                    '=' => format!("#{} _=_ #{}", o.0 + 1, o.1 + 1),
                    c => format!("#{} {c}{},{} #{}", o.0 + 1, o.3, o.4, o.1 + 1),
                });
            }
            let text = text.join(" & ");
            tr.note("query", &text);
            let d = ok(aql::parse(&text, false), "parse")?;
            let want: BTreeSet<Vec<usize>> = want.into_iter().collect();
            for par in [false, true] {
                let mut got = BTreeSet::new();
                for m in ok(aql::execute_query_on_graph(&g, &d, par, None), "query")? {
                    let m: Vec<usize> = ok(m, "match")?.iter().map(|m| at[&m.node]).collect();
                    ensure!(want.contains(&m), "{text} (parallel: {par}): the tokens {m:?} are no match");
                    ensure!(got.insert(m.clone()), "{text} (parallel: {par}): the tokens {m:?} are found twice");
                }
                if let Some(m) = want.iter().find(|m| !got.contains(*m)) {
                    return Err(format!("{text} (parallel: {par}): the tokens {m:?} are missing ({} of {} found)", got.len(), want.len()));
                }
            }
        }
        Ok(())
    });
    c.finish();
}
