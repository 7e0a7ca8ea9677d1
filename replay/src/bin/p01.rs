//! P01: sorting, partial sorting and result windows.
use graphannis::annis::errors::GraphAnnisError;
use graphannis::annis::util::quicksort::{sort, sort_first_n_items};
use graphannis::annis::util::sortablecontainer::SortableContainer;
use graphannis::corpusstorage::{QueryLanguage, ResultOrder, SearchQuery};
use replay::corpus::*;
use replay::*;
use std::cmp::Ordering;
use transient_btree_index::{BtreeConfig, BtreeIndex};

fn keys(rng: &mut Rng, n: usize) -> Vec<(u32, u32)> {
    let kind = rng.below(6);
    (0..n)
        .map(|i| {
            let k = match kind {
                0 => i as u32,
                1 => (n - i) as u32,
                2 => 7,
                3 => rng.below(3) as u32,
                4 => if i % 2 == 0 { i as u32 } else { (2 * n - i) as u32 },
                _ => rng.below(1000) as u32,
            };
            (k, i as u32)
        })
        .collect()
}
fn check_sorted(before: &[(u32, u32)], after: &[(u32, u32)], n: usize) -> Result<(), String> {
    let mut a = before.to_vec();
    let mut b = after.to_vec();
    a.sort();
    b.sort();
    ensure!(a == b, "items lost or invented: {after:?}");
    for i in 0..after.len().min(n) {
        for j in i + 1..after.len() {
            ensure!(after[i].0 <= after[j].0, "position {i} ({:?}) is greater than position {j} ({:?}), first {n} items of {after:?}", after[i], after[j]);
        }
    }
    Ok(())
}
fn cmp(a: &(u32, u32), b: &(u32, u32)) -> Result<Ordering, GraphAnnisError> {
    Ok(a.0.cmp(&b.0))
}
fn sizes(rng: &mut Rng) -> usize {
    *rng.pick(&[0, 1, 2, 3, 5, 19, 20, 21, 22, 23, 40, 41, 60, 99, 150])
}

fn main() {
    let mut c = Ctx::from_args();
    c.rule("random item lists (sorted, reversed, constant, few values, zig-zag, random keys), sizes around the insertion-sort limit; windows over queries on random corpora; a case is non-trivial when it has at least two items");
    c.run("sort_vec", 200, |rng, _, t| {
        let n = sizes(rng);
        let v = keys(rng, n);
        t.note("items", &v);
        t.trivial_if(n < 2);
        let mut w = v.clone();
        ok(sort(&mut w, cmp), "sort")?;
        check_sorted(&v, &w, n)
    });
    c.run("sort_first_n_vec", 400, |rng, _, t| {
        let n = sizes(rng);
        let v = keys(rng, n);
        let k = match rng.below(4) {
            0 => rng.below(n + 2),
            1 => 0,
            2 => n + 10,
            _ => rng.below(25),
        };
        t.note("items", &v);
        t.note("first", &k);
        t.trivial_if(n < 2);
        let mut w = v.clone();
        ok(sort_first_n_items(&mut w, k, cmp), "sort_first_n_items")?;
        check_sorted(&v, &w, k)
    });
    c.run("sort_first_n_btree", 60, |rng, _, t| {
        let n = sizes(rng);
        let v = keys(rng, n);
        let k = rng.below(n + 2);
        t.note("items", &v);
        t.note("first", &k);
        t.trivial_if(n < 2);
        let mut idx: BtreeIndex<usize, (u32, u32)> = ok(BtreeIndex::with_capacity(BtreeConfig::default(), n + 1), "btree")?;
        for (i, x) in v.iter().enumerate() {
            ok(idx.insert(i, *x), "insert")?;
        }
        ok(sort_first_n_items(&mut idx, k, cmp), "sort_first_n_items")?;
        ok(SortableContainer::<(u32, u32)>::try_len(&idx), "len").and_then(|l| eq(l, n, "length"))?;
        let mut w = vec![];
        for i in 0..n {
            w.push(ok(SortableContainer::<(u32, u32)>::try_get(&idx, i), "get")?.into_owned());
        }
        check_sorted(&v, &w, k)
    });
    c.run("sort_error", 40, |rng, _, t| {
        let n = rng.range(2, 60);
        let v = keys(rng, n);
        t.note("items", &v);
        let mut w = v.clone();
        let r = sort(&mut w, |_, _| Err(GraphAnnisError::IndexOutOfBounds(0)));
        ensure!(r.is_err(), "an error of the comparison is swallowed");
        Ok(())
    });

    // windows over queries
    let queries = ["tok", "tok .1,10 tok", "pos=/.*/", "tok . pos", "span _i_ tok", "cat", "node", "pos=\"A\" | span", "cat > tok", "tok @* annis:doc", "pos _=_ tok"];
    c.run("windows_single", 6, |rng, _, t| {
        let dir = tempfile::tempdir().unwrap();
        let par = rng.chance(1, 2);
        let cs = storage(dir.path(), par)?;
        let docs = rng.range(1, 3);
        let corp = random(rng, "c1", &Opts { docs, max_tok: 9, ..Default::default() });
        t.note("parallel", &par);
        t.note("events", &corp.events.len());
        ok(cs.apply_update("c1", &mut corp.update()), "apply_update")?;
        for q in queries {
            window(&cs, &["c1"], q, rng, t)?;
        }
        Ok(())
    });
    c.run("windows_multi", 4, |rng, _, t| {
        let dir = tempfile::tempdir().unwrap();
        let cs = storage(dir.path(), false)?;
        let names = ["ca", "cb", "cc"];
        for n in names {
            let docs = rng.range(0, 2);
            let corp = random(rng, n, &Opts { docs, max_tok: 4, ..Default::default() });
            ok(cs.apply_update(n, &mut corp.update()), "apply_update")?;
        }
        for qq in ["tok", "tok . tok", "node", "cat"] {
            let mut order = names.to_vec();
            rng.shuffle(&mut order);
            window(&cs, &order, qq, rng, t)?;
        }
        // descending order over all corpora is the reverse of ascending order
        for qq in ["tok", "tok . tok", "tok .2 tok"] {
            let mut order = names.to_vec();
            rng.shuffle(&mut order);
            let n = ok(cs.find(q(&order, qq), 0, None, ResultOrder::Normal), "find")?;
            let mut i = ok(cs.find(q(&order, qq), 0, None, ResultOrder::Inverted), "find")?;
            i.reverse();
            eq(i, n, &format!("{qq} on {order:?}: reversed descending results"))?;
        }
        Ok(())
    });
    c.run("text_order", 8, |rng, _, t| {
        let dir = tempfile::tempdir().unwrap();
        let cs = storage(dir.path(), rng.chance(1, 2))?;
        let docs = rng.range(1, 3);
        let corp = random(rng, "c1", &Opts { docs, max_tok: 12, ..Default::default() });
        ok(cs.apply_update("c1", &mut corp.update()), "apply_update")?;
        t.note("documents", &corp.docs);
        let all: Vec<String> = (0..docs).flat_map(|d| corp.toks(d)).map(|i| corp.nodes[i].name.clone()).collect();
        let got = ok(cs.find(q(&["c1"], "tok"), 0, None, ResultOrder::Normal), "find")?;
        eq(got, all.clone(), "tokens in text order")?;
        let inv = ok(cs.find(q(&["c1"], "tok"), 0, None, ResultOrder::Inverted), "find")?;
        eq(inv, all.iter().rev().cloned().collect(), "tokens in inverted text order")?;
        // pairs: first by the first node, then by the second
        let pos: std::collections::HashMap<&String, usize> = all.iter().enumerate().map(|(i, n)| (n, i)).collect();
        for qq in ["tok .1,4 tok", "tok ^1,3 tok", "pos & tok & #1 .* #2"] {
            let got = ok(cs.find(q(&["c1"], qq), 0, None, ResultOrder::Normal), "find")?;
            let p: Vec<Vec<usize>> = got.iter().map(|m| m.split(' ').map(|x| pos.get(&x.trim_start_matches("test::pos::").to_string()).copied().unwrap_or_else(|| panic!("{x} in {got:?} is no token"))).collect()).collect();
            for w in p.windows(2) {
                ensure!(w[0] <= w[1], "{qq}: {:?} before {:?} although it is later in the text", w[0], w[1]);
            }
        }
        Ok(())
    });
    // all nodes with a position in the text: document, first covered token, then the next node of the match
    c.run("node_order", 8, |rng, _, t| {
        let dir = tempfile::tempdir().unwrap();
        let cs = storage(dir.path(), rng.chance(1, 2))?;
        let docs = rng.range(1, 3);
        let corp = random(rng, "c1", &Opts { docs, max_tok: 10, ..Default::default() });
        ok(cs.apply_update("c1", &mut corp.update()), "apply_update")?;
        let by_name: std::collections::HashMap<&str, usize> = corp.nodes.iter().enumerate().map(|(i, n)| (n.name.as_str(), i)).collect();
        let mut doc_order: Vec<usize> = (0..docs).collect();
        doc_order.sort_by_key(|d| corp.docs[*d].split('/').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect::<Vec<_>>());
        let rank: std::collections::HashMap<usize, usize> = doc_order.iter().enumerate().map(|(i, d)| (*d, i)).collect();
        for qq in ["span", "cat", "pos", "tok _=_ pos", "span _i_ tok", "cat _o_ span", "cat >* node", "span . tok", "node _o_ node"] {
            for (ord, lim) in [(ResultOrder::Normal, None), (ResultOrder::Normal, Some(rng.below(40))), (ResultOrder::Inverted, None), (ResultOrder::Inverted, Some(rng.below(40)))] {
                t.note("query", &(qq, ord, lim));
                let mut got = ok(cs.find(q(&["c1"], qq), 0, lim, ord), "find")?;
                if ord == ResultOrder::Inverted {
                    got.reverse();
                }
                let keys: Option<Vec<Vec<(usize, usize)>>> = got
                    .iter()
                    .map(|m| m.split(' ').map(|x| by_name.get(x.rsplit("::").next().unwrap()).and_then(|i| corp.left(*i).map(|l| (rank[&corp.nodes[*i].doc], l)))).collect())
                    .collect();
                let Some(keys) = keys else { continue };
                for (i, w) in keys.windows(2).enumerate() {
                    // nodes at the same position are listed by their name, so only different positions decide
                    let d = w[0].iter().zip(w[1].iter()).zip(got[i].split(' ').zip(got[i + 1].split(' '))).find(|(_, (a, b))| a != b);
                    if let Some(((a, b), _)) = d {
                        ensure!(a <= b, "{qq} {ord:?}: {:?} (document, token) {:?} is listed before {:?} {:?}", got[i], w[0], got[i + 1], w[1]);
                    }
                }
            }
        }
        Ok(())
    });
    // nodes without a token are placed by their name, tokens by their position: both must be one order
    c.run_exact("mixed_order", 1, |_, _, t| {
        let dir = tempfile::tempdir().unwrap();
        let cs = storage(dir.path(), false)?;
        let mut ev = vec![add_node("c1", "corpus"), add_node("c1/d", "corpus"), add_edge("c1/d", "c1", "annis", "PartOf", "")];
        for n in ["m3", "m1", "m2"] {
            let name = format!("c1/d#{n}");
            ev.push(add_node(&name, "node"));
            ev.push(add_edge(&name, "c1/d", "annis", "PartOf", ""));
            if n != "m2" {
                ev.push(add_label(&name, "annis", "tok", n));
            }
        }
        ev.push(add_edge("c1/d#m3", "c1/d#m1", "annis", "Ordering", ""));
        for (l, a, b) in [("ab", "m3", "m1"), ("bn", "m1", "m2"), ("na", "m2", "m3")] {
            ev.push(add_label(&format!("c1/d#{a}"), "test", l, "1"));
            ev.push(add_label(&format!("c1/d#{b}"), "test", l, "1"));
        }
        let mut u = graphannis::update::GraphUpdate::new();
        for e in ev {
            u.add_event(e).unwrap();
        }
        ok(cs.apply_update("c1", &mut u), "apply_update")?;
        let list = |qq: &str| -> Result<Vec<String>, String> { Ok(ok(cs.find(q(&["c1"], qq), 0, None, ResultOrder::Normal), "find")?.iter().map(|x| x.rsplit("::").next().unwrap().to_string()).collect()) };
        let all = list("annis:node_type=\"node\"")?;
        t.note("all", &all);
        for l in ["ab", "bn", "na"] {
            let pair = list(&format!("test:{l}"))?;
            let filtered: Vec<String> = all.iter().filter(|x| pair.contains(x)).cloned().collect();
            ensure!(filtered == pair, "no common order of tokens and other nodes: {all:?} but {pair:?}");
        }
        Ok(())
    });
    c.run_exact("huge_window", 1, |rng, _, t| {
        let dir = tempfile::tempdir().unwrap();
        let cs = storage(dir.path(), false)?;
        let corp = random(rng, "c1", &Opts { docs: 2, max_tok: 6, ..Default::default() });
        ok(cs.apply_update("c1", &mut corp.update()), "apply_update")?;
        for qq in ["tok", "node", "tok . tok"] {
            let full = ok(cs.find(q(&["c1"], qq), 0, None, ResultOrder::Normal), "find")?;
            for (o, l) in [(0, usize::MAX), (1, usize::MAX), (usize::MAX, 1), (usize::MAX, usize::MAX)] {
                for ord in [ResultOrder::Normal, ResultOrder::Inverted, ResultOrder::NotSorted] {
                    t.note("window", &(qq, o, l, ord));
                    let w = ok(cs.find(q(&["c1"], qq), o, Some(l), ord), "find")?;
                    eq(w.len(), full.len().saturating_sub(o), "size of the window")?;
                }
            }
        }
        Ok(())
    });
    if std::env::var("DBG").is_ok() {}
    c.finish();
}

fn q<'a>(corpora: &'a [&'a str], query: &'a str) -> SearchQuery<'a, &'a str> {
    SearchQuery { corpus_names: corpora, query, query_language: QueryLanguage::AQL, timeout: None }
}

fn window(cs: &graphannis::CorpusStorage, corpora: &[&str], query: &str, rng: &mut Rng, t: &mut Trace) -> Result<(), String> {
    for ord in [ResultOrder::Normal, ResultOrder::Inverted, ResultOrder::NotSorted] {
        let full = ok(cs.find(q(corpora, query), 0, None, ord), "find")?;
        let n = ok(cs.count(q(corpora, query)), "count")? as usize;
        eq(full.len(), n, &format!("{query}: number of results of find and count"))?;
        for _ in 0..6 {
            let o = if rng.chance(1, 4) { 0 } else { rng.below(full.len() + 3) };
            let l = if rng.chance(1, 5) { None } else { Some(rng.below(full.len() + 3)) };
            t.note("window", &(query, corpora, o, l, ord));
            let got = ok(cs.find(q(corpora, query), o, l, ord), "find")?;
            let exp: Vec<String> = full.iter().skip(o).take(l.unwrap_or(usize::MAX)).cloned().collect();
            if got != exp {
                return Err(format!("{query} {ord:?} on {corpora:?}: offset {o} limit {l:?} gives {got:?}, the full list is {full:?}"));
            }
        }
        let rand = ok(cs.find(q(corpora, query), 0, None, ResultOrder::Randomized), "find")?;
        let mut a = rand.clone();
        let mut b = full.clone();
        a.sort();
        b.sort();
        eq(a, b, &format!("{query}: results in random order"))?;
    }
    Ok(())
}
