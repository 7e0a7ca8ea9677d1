//! P15: names in results, of components and of corpora are kept apart and found again.
use graphannis::AnnotationGraph;
use graphannis::corpusstorage::{QueryLanguage, ResultOrder, SearchQuery};
use graphannis::util::node_names_from_match;
use graphannis_core::util::{join_qname, split_qname};
use replay::corpus::*;
use replay::upd::{World, compare};
use replay::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::{Path, PathBuf};

fn decode(s: &str) -> Result<String, String> {
    let b = s.as_bytes();
    let mut r = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            let h = s.get(i + 1..i + 3).and_then(|x| u8::from_str_radix(x, 16).ok());
            r.push(h.ok_or(format!("no two digits after a percent sign in {s:?}"))?);
            i += 3;
        } else {
            r.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8(r).map_err(|e| format!("{s:?}: {e}"))
}
const PARTS: [&str; 34] = [
    "", "a", "b", ":", "::", "%", "%3A", "%3a", "%25", "%2F", "%20", " ", "/", "\\", ".", "..", "\u{0}", "\t", "\n", "\u{7f}", "ä", "\u{a0}", "\u{3000}", "\u{10FFFF}", "+", "#", "\"", "?", "*", "<", "|", "=", "%%", "A",
];
fn name(rng: &mut Rng) -> String {
    (0..rng.below(5)).map(|_| *rng.pick(&PARTS[..])).collect()
}
fn names(rng: &mut Rng, n: usize, fixed: &[&str]) -> Vec<String> {
    let mut r: Vec<String> = fixed.iter().map(|x| x.to_string()).collect();
    rng.shuffle(&mut r);
    r.truncate(n * 2 / 3);
    while r.len() < n {
        r.push(name(rng));
    }
    r.sort();
    r.dedup();
    rng.shuffle(&mut r);
    r
}
/// not empty, no white space and no "::", as documented for node names
fn node_name(rng: &mut Rng) -> String {
    loop {
        let s: String = (0..rng.range(1, 4)).map(|_| *rng.pick(&["a", "b", ":", "%", "%3A", "%20", "/", "ä", "\u{a0}", "\u{2003}", "\u{3000}", "\u{85}", "#", ".", "\u{10FFFF}", "+", "t1"][..])).collect();
        if !s.contains("::") && !s.is_empty() {
            return s;
        }
    }
}
/// all files below a folder with their content
fn files(p: &Path) -> BTreeMap<PathBuf, Vec<u8>> {
    let mut r = BTreeMap::new();
    let mut todo = vec![p.to_path_buf()];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
            if e.path().is_dir() {
                todo.push(e.path());
            } else {
                r.insert(e.path(), std::fs::read(e.path()).unwrap_or_default());
            }
        }
    }
    r
}
/// a folder deep below a scratch folder, with files beside each of its parents
fn nested(root: &Path) -> Result<(PathBuf, BTreeMap<PathBuf, Vec<u8>>), String> {
    let mut p = root.to_path_buf();
    for i in 0..6 {
        p.push(format!("l{i}"));
        ok(std::fs::create_dir(&p), "create_dir")?;
        ok(std::fs::write(p.join("sentinel"), format!("{i}")), "write")?;
    }
    ok(std::fs::create_dir(root.join("outside")), "create_dir")?;
    let f = files(root);
    p.push("db");
    ok(std::fs::create_dir(&p), "create_dir")?;
    Ok((p, f))
}
fn untouched(root: &Path, db: &Path, before: &BTreeMap<PathBuf, Vec<u8>>) -> Result<(), String> {
    let now: BTreeMap<_, _> = files(root).into_iter().filter(|(p, _)| !p.starts_with(db)).collect();
    eq(now.keys().collect::<Vec<_>>(), before.keys().collect(), "files outside of the folder")?;
    ensure!(&now == before, "the content of files outside of the folder has changed");
    Ok(())
}

/// leave out names which address another folder than those below the scratch folder, even when they are decoded
fn inside(name: &str, root: &Path) -> bool {
    let mut n = name.to_string();
    for _ in 0..4 {
        if n.starts_with(['/', '\\']) && !Path::new(&n).starts_with(root) {
            return false;
        }
        n = n.replace("%2F", "/").replace("%2f", "/").replace("%25", "%");
    }
    name.matches("..").count() <= 2
}

fn main() {
    // the code under test must not be trusted with names that address other folders
    let confined = replay::confine::confine();
    let mut c = Ctx::from_args();
    c.rule("names built from separators, percent signs, escapes, control and non-ASCII characters: qualified names are split and decoded again and no two of them are equal");
    c.run("qname", 400, |rng, _, tr| {
        let n = names(rng, 14, &["", ":", "::", "a", "%3A", "a:", ":a", "%", "a%", " "]);
        tr.note("names", &n);
        let mut seen: HashMap<String, (String, String)> = HashMap::new();
        for ns in &n {
            for x in &n {
                let q = join_qname(ns, x);
                let (a, b) = split_qname(&q);
                let a = a.map(decode).transpose()?;
                ensure!(a.as_deref() != Some(""), "empty namespace in {q:?}");
                eq((a.unwrap_or_default(), decode(b)?), (ns.clone(), x.clone()), &format!("parts of {q:?}"))?;
                if let Some(o) = seen.insert(q.clone(), (ns.clone(), x.clone())) {
                    return Err(format!("{o:?} and {:?} are both called {q:?}", (ns, x)));
                }
            }
        }
        Ok(())
    });
    c.rule("corpora with odd node names and annotation namespaces: the texts of all matches of queries with one to three nodes, with windows, are split again into the nodes and annotation keys");
    c.run("match", 60, |rng, i, tr| {
        let dir = ok(tempfile::tempdir(), "tempdir")?;
        let cs = storage(dir.path(), rng.chance(1, 2))?;
        let mut nodes: Vec<String> = (0..rng.range(2, 7)).map(|_| node_name(rng)).collect();
        nodes.sort();
        nodes.dedup();
        rng.shuffle(&mut nodes);
        let spaces: Vec<String> = names(rng, 5, &["", ":", "::", "a b", "%3A", "a::b", "é", "annis"]);
        let annos = ["pos", "a%3A", "%", "x-1"];
        let mut ev = vec![];
        // annotations of each token
        let mut has: Vec<BTreeSet<(String, String)>> = vec![];
        for (k, n) in nodes.iter().enumerate() {
            ev.push(add_node(n, "node"));
            ev.push(add_label(n, "annis", "tok", "x"));
            let mut h = BTreeSet::new();
            for _ in 0..rng.below(5) {
                let (a, b) = (rng.pick(&spaces).clone(), rng.pick(&annos).to_string());
                ev.push(add_label(n, &a, &b, "v"));
                h.insert((a, b));
            }
            has.push(h);
            if k > 0 {
                ev.push(add_edge(&nodes[k - 1], n, "annis", "Ordering", ""));
            }
        }
        tr.note("events", &ev);
        let mut u = graphannis::update::GraphUpdate::new();
        for e in &ev {
            ok(u.add_event(e.clone()), "add_event")?;
        }
        ok(cs.create_empty_corpus("c", i % 5 == 4), "create_empty_corpus")?;
        ok(cs.apply_update("c", &mut u), "apply_update")?;
        let mut found = 0;
        for _ in 0..8 {
            // neighbouring tokens, each with an annotation or without
            let k = rng.range(1, 3);
            let parts: Vec<Option<&str>> = (0..k).map(|_| if rng.chance(1, 4) { None } else { Some(*rng.pick(&annos)) }).collect();
            let query = parts.iter().map(|p| p.unwrap_or("tok")).collect::<Vec<_>>().join(" . ");
            tr.note("query", &query);
            // nodes and annotation keys of all matches
            let mut want: Vec<Vec<(String, (String, String))>> = vec![];
            for s in 0..(nodes.len() + 1).saturating_sub(k) {
                let mut rows = vec![vec![]];
                for (j, p) in parts.iter().enumerate() {
                    let keys: Vec<(String, String)> = match p {
                        Some(p) => has[s + j].iter().filter(|x| x.1 == *p).cloned().collect(),
                        // the token search gives the type of the node as annotation
                        None => vec![(String::new(), String::new())],
                    };
                    rows = rows.into_iter().flat_map(|r: Vec<_>| keys.iter().map(|x| { let mut r = r.clone(); r.push((nodes[s + j].clone(), x.clone())); r }).collect::<Vec<_>>()).collect();
                }
                want.append(&mut rows);
            }
            let q = || SearchQuery { corpus_names: &["c"], query: query.as_str(), query_language: QueryLanguage::AQL, timeout: None };
            let all = ok(cs.find(q(), 0, None, ResultOrder::Normal), "find")?;
            tr.note("result", &all);
            let mut got = vec![];
            for l in &all {
                let items: Vec<&str> = l.split(' ').collect();
                eq(items.len(), k, &format!("number of nodes in {l:?}"))?;
                let split = node_names_from_match(l);
                let mut row = vec![];
                for (j, it) in items.iter().enumerate() {
                    let f: Vec<&str> = it.split("::").collect();
                    let (key, n) = match f.as_slice() {
                        [n] => ((String::new(), String::new()), n),
                        [a, n] => ((String::new(), decode(a)?), n),
                        [s, a, n] => {
                            ensure!(!s.is_empty(), "empty namespace in {l:?}");
                            ((decode(s)?, decode(a)?), n)
                        }
                        _ => return Err(format!("{it:?} of {l:?} has {} parts", f.len())),
                    };
                    // the token annotation itself
                    let key = if parts[j].is_none() && key == ("annis".to_string(), "tok".to_string()) { (String::new(), String::new()) } else { key };
                    eq(split.get(j).map(|x| x.as_str()), Some(*n), &format!("node {j} of node_names_from_match({l:?})"))?;
                    row.push((n.to_string(), key));
                }
                eq(split.len(), k, &format!("number of node names of {l:?}"))?;
                got.push(row);
            }
            want.sort();
            got.sort();
            found += got.len();
            eq(got, want, &format!("matches of {query}"))?;
            eq(all.iter().collect::<BTreeSet<_>>().len(), all.len(), "number of different matches")?;
            for _ in 0..2 {
                let o = rng.below(all.len() + 2);
                let l = if rng.chance(1, 3) { None } else { Some(rng.below(all.len() + 2)) };
                let w: Vec<&String> = all.iter().skip(o).take(l.unwrap_or(usize::MAX)).collect();
                eq(ok(cs.find(q(), o, l, ResultOrder::Normal), "find")?.iter().collect(), w, &format!("window {o} {l:?}"))?;
            }
        }
        tr.trivial_if(found == 0);
        Ok(())
    });
    if !confined {
        return c.finish();
    }
    c.rule("graphs with components whose layers and names are reserved, contain path separators, escapes or dots, saved and loaded again: components, edges and files outside of the folder");
    c.run("component", 60, |rng, i, tr| {
        let root = ok(tempfile::tempdir(), "tempdir")?;
        let (db, before) = nested(root.path())?;
        let abs = root.path().join("outside").join("x").to_string_lossy().to_string();
        let fixed = ["", ".", "..", "../x", "../../x", "a/b", "a%2Fb", "a", "b", "%", "%2E", "%25", "impl.cfg", "impl.cf%67", "x.bin", "x.bi%6E", ".bin", "default_layer", "default_laye%72", "nodes_diskmap_v1", "stats.toml", "stats.tom%6C", "component.bin", "edge_stats.bin", "./", "a/", "\u{0}", "é", &abs, "a\\b"];
        let mut ok_names = || { let mut x = names(rng, 6, &fixed); x.retain(|n| inside(n, root.path())); x };
        let (ls, ns) = (ok_names(), ok_names());
        let disk = i % 4 == 3;
        let mut ev = vec![];
        let nodes: Vec<String> = (0..8).map(|k| format!("n{k}")).collect();
        for n in &nodes {
            ev.push(add_node(n, "node"));
        }
        for l in &ls {
            for n in &ns {
                if rng.chance(2, 3) {
                    let t = *rng.pick(&["Pointing", "Pointing", "Ordering"]);
                    for _ in 0..rng.range(1, 3) {
                        let (a, b) = (rng.pick(&nodes).clone(), rng.pick(&nodes).clone());
                        if a != b {
                            ev.push(add_edge(&a, &b, l, t, n));
                            if rng.chance(1, 3) {
                                ev.push(add_edge_label(&a, &b, l, t, n, "x", &name(rng)));
                            }
                        }
                    }
                }
            }
        }
        tr.note("events", &ev);
        let mut w = World::default();
        let mut u = graphannis::update::GraphUpdate::new();
        for e in &ev {
            w.apply(e);
            ok(u.add_event(e.clone()), "add_event")?;
        }
        let mut g = ok(AnnotationGraph::with_default_graphstorages(disk), "new graph")?;
        if i % 2 == 0 {
            ok(g.apply_update(&mut u, |_| {}), "apply_update")?;
            ok(g.save_to(&db), "save_to")?;
        } else {
            ok(g.persist_to(&db), "persist_to")?;
            ok(g.apply_update(&mut u, |_| {}), "apply_update")?;
            if i % 3 == 0 {
                ok(g.background_sync_wal_updates(), "background_sync_wal_updates")?;
            }
        }
        compare("in memory", &mut g, &w)?;
        let want: BTreeSet<_> = g.get_all_components(None, None).into_iter().collect();
        drop(g);
        untouched(root.path(), &db, &before)?;
        for round in 0..2 {
            let mut g = ok(AnnotationGraph::new(disk), "new graph")?;
            ok(g.load_from(&db, round == 1), "load_from")?;
            let got: BTreeSet<_> = g.get_all_components(None, None).into_iter().collect();
            eq(got, want.clone(), "components after loading")?;
            compare("loaded", &mut g, &w)?;
            if rng.chance(1, 2) {
                ok(g.save_to(&db), "save_to")?;
            }
        }
        untouched(root.path(), &db, &before)
    });
    c.rule("corpora with empty, reserved and escaped names and names with path separators: listed, read, reopened and deleted one by one, with the other corpora and the files outside of the folder unchanged");
    c.run("corpus", 24, |rng, i, tr| {
        let root = ok(tempfile::tempdir(), "tempdir")?;
        let (db, before) = nested(root.path())?;
        let abs = root.path().join("outside").join("x").to_string_lossy().to_string();
        let fixed = ["", ".", "..", "../x", "../../x", "a/b", "a%2Fb", "a", "a/", "b", "%", "%%", "%25", "%2E", "%2e", "%2E%2E", "%252E", "...", "x.lock", "./a", "a/../b", "\u{0}", "é", &abs, "a\\b", "current", " ", "a:b"];
        let ns: Vec<String> = names(rng, 6, &fixed).into_iter().filter(|x| inside(x, root.path())).collect();
        tr.note("corpora", &ns);
        let mut models: BTreeMap<String, Vec<String>> = BTreeMap::new();
        let q = |cs: &graphannis::CorpusStorage, n: &str| ok(cs.find(SearchQuery { corpus_names: &[n], query: "node", query_language: QueryLanguage::AQL, timeout: None }, 0, None, ResultOrder::Normal), "find");
        let check = |cs: &graphannis::CorpusStorage, m: &BTreeMap<String, Vec<String>>| -> Result<(), String> {
            let mut l: Vec<String> = ok(cs.list(), "list")?.into_iter().map(|x| x.name).collect();
            l.sort();
            eq(l, m.keys().cloned().collect(), "list of corpora")?;
            for (n, v) in m {
                eq(q(cs, n)?, v.clone(), &format!("nodes of the corpus {n:?}"))?;
            }
            untouched(root.path(), &db, &before)
        };
        {
            let cs = storage(&db, false)?;
            for (k, n) in ns.iter().enumerate() {
                ensure!(ok(cs.create_empty_corpus(n, i % 4 == 3), "create_empty_corpus")?, "the corpus {n:?} exists before it was created");
                let mut u = graphannis::update::GraphUpdate::new();
                let mut v = vec![];
                for j in 0..rng.range(1, 3) {
                    v.push(format!("n{k}.{j}"));
                    ok(u.add_event(add_node(&v[j], "node")), "add_event")?;
                }
                ok(cs.apply_update(n, &mut u), "apply_update")?;
                models.insert(n.clone(), v);
            }
            for n in &ns {
                ok(cs.unload(n), "unload")?;
            }
            check(&cs, &models)?;
        }
        let cs = storage(&db, false)?;
        check(&cs, &models)?;
        let mut order = ns.clone();
        rng.shuffle(&mut order);
        for n in order {
            ensure!(!ok(cs.create_empty_corpus(&n, false), "create_empty_corpus")?, "the corpus {n:?} does not exist");
            ensure!(ok(cs.delete(&n), "delete")?, "the corpus {n:?} was not deleted");
            models.remove(&n);
            check(&cs, &models)?;
        }
        ensure!(db.is_dir(), "the folder of the corpora is gone");
        Ok(())
    });
    c.finish()
}
