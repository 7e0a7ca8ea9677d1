//! Plain model of an annotation storage and the comparison of real storages with it.
use crate::{Rng, Trace, ensure, ok};
use graphannis_core::annostorage::{AnnotationStorage, Match, NodeAnnotationStorage, ValueSearch};
use graphannis_core::types::{AnnoKey, Annotation, Edge, NodeID};
use std::collections::{BTreeMap, BTreeSet};

/// items are pairs of numbers; node storages use only the first
pub type It = (u64, u64);
pub type Key = (String, String); // (ns, name)

pub trait Item: Clone + Send + Sync + PartialEq + std::fmt::Debug + 'static {
    const EDGE: bool;
    fn of(i: It) -> Self;
    fn back(&self) -> It;
}
impl Item for NodeID {
    const EDGE: bool = false;
    fn of(i: It) -> Self {
        i.0
    }
    fn back(&self) -> It {
        (*self, 0)
    }
}
impl Item for Edge {
    const EDGE: bool = true;
    fn of(i: It) -> Self {
        Edge { source: i.0, target: i.1 }
    }
    fn back(&self) -> It {
        (self.source, self.target)
    }
}

#[derive(Clone, Debug, Default)]
pub struct AModel {
    pub m: BTreeMap<It, BTreeMap<Key, String>>,
    /// largest item that ever got an annotation since the last clearing
    pub largest: Option<It>,
}
impl AModel {
    pub fn all(&self) -> impl Iterator<Item = (It, &Key, &String)> {
        self.m.iter().flat_map(|(i, a)| a.iter().map(move |(k, v)| (*i, k, v)))
    }
    pub fn insert(&mut self, i: It, k: Key, v: String) {
        self.m.entry(i).or_default().insert(k, v);
        if self.largest.is_none_or(|l| l < i) {
            self.largest = Some(i);
        }
    }
    pub fn remove(&mut self, i: It, k: &Key) -> Option<String> {
        let a = self.m.get_mut(&i)?;
        let r = a.remove(k);
        if a.is_empty() {
            self.m.remove(&i);
        }
        r
    }
    pub fn search(&self, ns: Option<&str>, name: &str, p: impl Fn(&str) -> bool) -> Vec<(u64, Key)> {
        let mut r: Vec<_> = self
            .all()
            .filter(|(_, k, v)| k.1 == name && ns.is_none_or(|n| n == k.0) && p(v))
            .map(|(i, k, _)| (i.0, k.clone()))
            .collect();
        r.sort();
        r
    }
    pub fn keys(&self) -> BTreeSet<Key> {
        self.all().map(|x| x.1.clone()).collect()
    }
    pub fn keys_for(&self, i: It, ns: Option<&str>, name: Option<&str>) -> BTreeSet<Key> {
        self.m
            .get(&i)
            .into_iter()
            .flat_map(|a| a.keys())
            .filter(|k| match name {
                None => true,
                Some(n) => k.1 == n && ns.is_none_or(|x| x == k.0),
            })
            .cloned()
            .collect()
    }
}

pub struct Pools {
    pub keys: Vec<Key>,
    pub vals: Vec<String>,
    pub items: Vec<It>,
    pub patterns: Vec<(String, Option<regex::Regex>)>,
    pub names: Vec<Option<String>>,
    pub nss: Vec<Option<String>>,
}

const NSS: &[&str] = &["", "a", "annis", "ns", "\u{10FFFF}", "\u{10FFFF}x", "b:c", "A"];
const NAMES: &[&str] = &["pos", "po", "poss", "node_name", "", "lemma", "\u{10FFFF}", "node_type", "tok"];
const VALS: &[&str] = &[
    "", "a", "ab", "abc", "b", "NN", "nn", "ä", "ö", "äb", "a b", "a.c", "\u{10FFFF}", "\u{10FFFF}\u{10FFFF}", "\u{10FFFF}a", "z", "1", "10", "9",
    "日本", "日曜", "a\nb", "a\u{1}", "ue", "Über", "a value that is longer than thirty-two bytes and goes on for quite a while",
];
const PATTERNS: &[&str] = &[
    "", "a", "a.*", ".*", ".+", ".", "a|b", "ab?c?", "[a-c]+", "ä|ö", "日.", "日本|日曜", "(?i)nn", "N+", "a|", "b.*|ab", "(a|ab)(c|b)?", "x*", "[äö].*", "\\.",
    "a\\.c", "a.c", "(", "[", "*", "a{2,1}", "^a", "a$", "^a.*$", "(?s)a.b", "a\\sb", "\u{10FFFF}.*", "\u{10FFFF}", "[^a]*", "(ab|abc)", "ab|abc|b", "Ü.*|Ö.*", "1.*", "[0-9]+",
];

pub fn pools(rng: &mut Rng, edge: bool) -> Pools {
    let mut keys: BTreeSet<Key> = BTreeSet::new();
    let nk = rng.range(1, 6);
    for _ in 0..nk {
        // small sets of names so that several namespaces share a name
        let w = rng.chance(1, 3);
        let ns = if w { *rng.pick(NSS) } else { *rng.pick(&NSS[..4]) };
        let name = if w { *rng.pick(NAMES) } else { *rng.pick(&NAMES[..4]) };
        keys.insert((ns.to_string(), name.to_string()));
    }
    if rng.chance(1, 2) {
        keys.insert(("annis".into(), "node_name".into()));
    }
    let nv = rng.range(2, 10);
    let mut vals: Vec<String> = (0..nv).map(|_| rng.pick(VALS).to_string()).collect();
    if rng.chance(1, 4) {
        vals.push("\0".into());
        vals.push("a\0".into());
        vals.push("a\0\0\0\0\0\0\0\0\0".into());
        vals.push("a\0b".into());
    }
    if rng.chance(1, 8) {
        vals.push("long ".repeat(400));
    }
    let ni = rng.range(1, 7);
    let mut items: BTreeSet<It> = BTreeSet::new();
    for _ in 0..ni {
        let mut one = |rng: &mut Rng| match rng.below(8) {
            0 => u64::MAX - rng.below(2) as u64,
            1 => 255 + rng.below(3) as u64,
            2 => rng.next(),
            _ => rng.below(5) as u64,
        };
        let a = one(rng);
        let b = if edge { one(rng) } else { 0 };
        items.insert((a, b));
    }
    let mut names: Vec<Option<String>> = keys.iter().map(|k| Some(k.1.clone())).collect();
    names.push(Some("missing".into()));
    names.push(Some(rng.pick(NAMES).to_string()));
    names.push(None);
    let mut nss: Vec<Option<String>> = keys.iter().map(|k| Some(k.0.clone())).collect();
    nss.push(Some(rng.pick(NSS).to_string()));
    nss.push(None);
    nss.push(None);
    nss.sort();
    nss.dedup();
    names.sort();
    names.dedup();
    let patterns = (0..4)
        .map(|_| {
            let pat = rng.pick(PATTERNS).to_string();
            let re = regex::Regex::new(&format!("^(?:{pat})$")).ok().filter(|_| regex::Regex::new(&pat).is_ok());
            (pat, re)
        })
        .collect();
    while nss.len() > 4 {
        let i = rng.below(nss.len());
        if nss[i].is_some() {
            nss.remove(i);
        }
    }
    Pools { keys: keys.into_iter().collect(), vals, items: items.into_iter().collect(), patterns, names, nss }
}

pub fn key(k: &Key) -> AnnoKey {
    AnnoKey { ns: k.0.as_str().into(), name: k.1.as_str().into() }
}
pub fn unkey(k: &AnnoKey) -> Key {
    (k.ns.to_string(), k.name.to_string())
}

fn matches(it: Box<dyn Iterator<Item = graphannis_core::errors::Result<Match>> + '_>, what: &str) -> Result<Vec<(u64, Key)>, String> {
    let mut v = vec![];
    for m in it {
        let m = ok(m, what)?;
        v.push((m.node, unkey(&m.anno_key)));
    }
    v.sort();
    Ok(v)
}

/// compare every answer of `s` with the model; `full` also tries all combinations of namespaces, names and values
pub fn check<T: Item, A: AnnotationStorage<T> + ?Sized>(s: &A, m: &AModel, p: &Pools, full: bool) -> Result<(), String> {
    let n: usize = m.m.values().map(|a| a.len()).sum();
    crate::eq(ok(s.number_of_annotations(), "number_of_annotations")?, n, "number_of_annotations")?;
    crate::eq(ok(s.is_empty(), "is_empty")?, n == 0, "is_empty")?;
    let keys: BTreeSet<Key> = m.keys();
    let mut got: Vec<Key> = ok(s.annotation_keys(), "annotation_keys")?.iter().map(unkey).collect();
    got.sort();
    crate::eq(got, keys.iter().cloned().collect::<Vec<_>>(), "annotation_keys")?;
    for i in &p.items {
        let it = T::of(*i);
        let empty = BTreeMap::new();
        let annos = m.m.get(i).unwrap_or(&empty);
        let mut got: Vec<(Key, String)> =
            ok(s.get_annotations_for_item(&it), "get_annotations_for_item")?.into_iter().map(|a| (unkey(&a.key), a.val.to_string())).collect();
        got.sort();
        let want: Vec<(Key, String)> = annos.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
        ensure!(got == want, "get_annotations_for_item({it:?}): got {got:?}, expected {want:?}");
        for k in &p.keys {
            let v = ok(s.get_value_for_item(&it, &key(k)), "get_value_for_item")?.map(|x| x.to_string());
            ensure!(v.as_ref() == annos.get(k), "get_value_for_item({it:?}, {k:?}): got {v:?}, expected {:?}", annos.get(k));
            let h = ok(s.has_value_for_item(&it, &key(k)), "has_value_for_item")?;
            ensure!(h == annos.contains_key(k), "has_value_for_item({it:?}, {k:?}): got {h}");
        }
    }
    if let Some(l) = m.m.keys().next_back() {
        let g = ok(s.get_largest_item(), "get_largest_item")?.map(|x| x.back());
        // may also be an item whose annotations were removed since
        ensure!(g.is_some_and(|g| g >= *l) && g <= m.largest, "get_largest_item: got {g:?}, largest item with annotations is {l:?}, largest ever {:?}", m.largest);
    }
    let nss: Vec<Option<&str>> = if full { p.nss.iter().map(|x| x.as_deref()).collect() } else { vec![None] };
    for name in p.names.iter().map(|x| x.as_deref()) {
        if let Some(name) = name {
            let mut q: Vec<Key> = ok(s.get_qnames(name), "get_qnames")?.iter().map(unkey).collect();
            q.sort();
            let want: Vec<Key> = keys.iter().filter(|k| k.1 == name).cloned().collect();
            ensure!(q == want, "get_qnames({name:?}): got {q:?}, expected {want:?}");
        }
        for ns in &nss {
            let ns = *ns;
            for i in &p.items {
                let mut g: Vec<Key> = ok(s.get_all_keys_for_item(&T::of(*i), ns, name), "get_all_keys_for_item")?.iter().map(|k| unkey(k)).collect();
                g.sort();
                let want: Vec<Key> = m.keys_for(*i, ns, name).into_iter().collect();
                ensure!(g == want, "get_all_keys_for_item({i:?}, {ns:?}, {name:?}): got {g:?}, expected {want:?}");
            }
            let it = p.items.iter().map(|i| Ok(T::of(*i)));
            let mut g: Vec<(u64, Key)> =
                ok(s.get_keys_for_iterator(ns, name, Box::new(it)), "get_keys_for_iterator")?.into_iter().map(|x| (x.node, unkey(&x.anno_key))).collect();
            g.sort();
            let mut want: Vec<(u64, Key)> = p.items.iter().flat_map(|i| m.keys_for(*i, ns, name).into_iter().map(move |k| (i.0, k))).collect();
            want.sort();
            ensure!(g == want, "get_keys_for_iterator({ns:?}, {name:?}): got {g:?}, expected {want:?}");
            let Some(name) = name else { continue };
            let g = ok(s.number_of_annotations_by_name(ns, name), "number_of_annotations_by_name")?;
            let want = m.search(ns, name, |_| true).len();
            ensure!(g == want, "number_of_annotations_by_name({ns:?}, {name:?}): got {g}, expected {want}");
            let g = matches(s.exact_anno_search(ns, name, ValueSearch::Any), "exact_anno_search")?;
            let want = m.search(ns, name, |_| true);
            ensure!(g == want, "exact_anno_search({ns:?}, {name:?}, any): got {g:?}, expected {want:?}");
            for v in &p.vals {
                let g = matches(s.exact_anno_search(ns, name, ValueSearch::Some(v)), "exact_anno_search")?;
                let want = m.search(ns, name, |x| x == v);
                ensure!(g == want, "exact_anno_search({ns:?}, {name:?}, == {v:?}): got {g:?}, expected {want:?}");
                if full {
                    let g = matches(s.exact_anno_search(ns, name, ValueSearch::NotSome(v)), "exact_anno_search")?;
                    let want = m.search(ns, name, |x| x != v);
                    ensure!(g == want, "exact_anno_search({ns:?}, {name:?}, != {v:?}): got {g:?}, expected {want:?}");
                }
                ok(s.guess_max_count(ns, name, v, v), "guess_max_count")?;
            }
            ok(s.guess_most_frequent_value(ns, name), "guess_most_frequent_value")?;
            if full {
                for (pat, re) in &p.patterns {
                    let whole = |x: &str| re.as_ref().is_some_and(|r| r.find(x).is_some_and(|m| m.start() == 0 && m.end() == x.len()));
                    let g = matches(s.regex_anno_search(ns, name, pat, false), "regex_anno_search")?;
                    let want = m.search(ns, name, whole);
                    ensure!(g == want, "regex_anno_search({ns:?}, {name:?}, {pat:?}): got {g:?}, expected {want:?}");
                    let g = matches(s.regex_anno_search(ns, name, pat, true), "regex_anno_search negated")?;
                    let want = m.search(ns, name, |x| !whole(x));
                    ensure!(g == want, "regex_anno_search({ns:?}, {name:?}, {pat:?}, negated): got {g:?}, expected {want:?}");
                    ok(s.guess_max_count_regex(ns, name, pat), "guess_max_count_regex")?;
                }
            }
        }
    }
    for k in &p.keys {
        let mut counts: BTreeMap<&String, usize> = BTreeMap::new();
        for (_, kk, v) in m.all() {
            if kk == k {
                *counts.entry(v).or_default() += 1;
            }
        }
        let mut g: Vec<String> = ok(s.get_all_values(&key(k), false), "get_all_values")?.iter().map(|x| x.to_string()).collect();
        g.sort();
        let want: Vec<String> = counts.keys().map(|x| x.to_string()).collect();
        ensure!(g == want, "get_all_values({k:?}): got {g:?}, expected {want:?}");
        let g: Vec<String> = ok(s.get_all_values(&key(k), true), "get_all_values")?.iter().map(|x| x.to_string()).collect();
        let mut gs = g.clone();
        gs.sort();
        ensure!(gs == want, "get_all_values({k:?}, most frequent first): got {g:?}, expected {want:?}");
        let c: Vec<usize> = g.iter().map(|x| counts[x]).collect();
        ensure!(c.windows(2).all(|w| w[0] >= w[1]), "get_all_values({k:?}, most frequent first): {g:?} have frequencies {c:?}");
    }
    Ok(())
}

pub fn check_names<A: NodeAnnotationStorage + ?Sized>(s: &A, m: &AModel, p: &Pools) -> Result<(), String> {
    let k = ("annis".to_string(), "node_name".to_string());
    for v in &p.vals {
        let want: BTreeSet<u64> = m.all().filter(|(_, kk, x)| **kk == k && *x == v).map(|x| x.0.0).collect();
        let g = ok(s.get_node_id_from_name(v), "get_node_id_from_name")?;
        ensure!(g.map_or(want.is_empty(), |g| want.contains(&g)), "get_node_id_from_name({v:?}): got {g:?}, expected one of {want:?}");
        let h = ok(s.has_node_name(v), "has_node_name")?;
        ensure!(h == !want.is_empty(), "has_node_name({v:?}): got {h}, nodes {want:?}");
    }
    Ok(())
}

/// A random history against one storage. `fresh` gives an empty storage of the same kind, `names` compares name lookups.
pub fn history<T: Item, A: AnnotationStorage<T>>(
    rng: &mut Rng,
    tr: &mut Trace,
    mut s: A,
    fresh: impl Fn() -> A,
    names: impl Fn(&A, &AModel, &Pools) -> Result<(), String>,
    ops: usize,
) -> Result<(), String> {
    let dirs: Vec<tempfile::TempDir> = (0..3).map(|_| tempfile::tempdir().unwrap()).collect();
    let mut used = 0;
    let p = pools(rng, T::EDGE);
    tr.note("patterns", &p.patterns.iter().map(|x| &x.0).collect::<Vec<_>>());
    let mut m = AModel::default();
    let ops = rng.range(1, ops);
    let removals = rng.chance(1, 2);
    for op in 0..ops {
        let i = *rng.pick(&p.items);
        let k = if rng.chance(1, 3) && m.m.contains_key(&i) { m.m[&i].keys().next().unwrap().clone() } else { rng.pick(&p.keys).clone() };
        match rng.below(24) {
            0..=13 => {
                let v = rng.pick(&p.vals).clone();
                tr.note("insert", &(i, &k, &v));
                ok(s.insert(T::of(i), Annotation { key: key(&k), val: v.as_str().into() }), "insert")?;
                m.insert(i, k, v);
            }
            14..=17 => {
                if !removals {
                    continue;
                }
                tr.note("remove_annotation_for_item", &(i, &k));
                let g = ok(s.remove_annotation_for_item(&T::of(i), &key(&k)), "remove_annotation_for_item")?.map(|x| x.to_string());
                let w = m.remove(i, &k);
                ensure!(g == w, "remove_annotation_for_item({i:?}, {k:?}) returned {g:?}, expected {w:?}");
            }
            18..=19 => {
                if !removals {
                    continue;
                }
                tr.note("remove_item", &i);
                let g = ok(s.remove_item(&T::of(i)), "remove_item")?;
                let w = m.m.remove(&i).is_some();
                ensure!(g == w, "remove_item({i:?}) returned {g}, expected {w}");
            }
            20 => {
                tr.note("calculate_statistics", &());
                ok(s.calculate_statistics(), "calculate_statistics")?;
            }
            21 => {
                if used < dirs.len() {
                    tr.note("save and load", &());
                    ok(s.save_annotations_to(dirs[used].path()), "save_annotations_to")?;
                    let mut t = fresh();
                    if rng.chance(1, 2) {
                        // loading replaces the previous content
                        ok(t.insert(T::of(i), Annotation { key: key(&k), val: "old".into() }), "insert")?;
                    }
                    ok(t.load_annotations_from(dirs[used].path()), "load_annotations_from")?;
                    if rng.chance(1, 2) {
                        check(&s, &m, &p, false).map_err(|e| format!("after saving: {e}"))?;
                    }
                    s = t;
                    used += 1;
                }
            }
            22 => {
                if rng.chance(1, 4) {
                    tr.note("clear", &());
                    ok(s.clear(), "clear")?;
                    m = AModel::default();
                    ensure!(ok(s.get_largest_item(), "get_largest_item")?.is_none(), "largest item after clearing");
                    check(&s, &m, &p, true)?;
                }
            }
            _ => {
                check(&s, &m, &p, rng.chance(1, 3)).map_err(|e| format!("after operation {op}: {e}"))?;
            }
        }
    }
    check(&s, &m, &p, true)?;
    names(&s, &m, &p)?;
    tr.trivial_if(m.m.is_empty());
    Ok(())
}

/// More annotations than the storage keeps in memory, inserted with `insert`; afterwards a short history around them.
pub fn large<A: NodeAnnotationStorage>(rng: &mut Rng, tr: &mut Trace, mut s: A, fresh: impl Fn() -> A, n: u64) -> Result<(), String> {
    let dir = tempfile::tempdir().unwrap();
    let mut m = AModel::default();
    let k1 = ("annis".to_string(), "node_name".to_string());
    let k2 = ("x".to_string(), "pos".to_string());
    let load_first = rng.chance(1, 2);
    let step = *rng.pick(&[1u64, 7, 4999]);
    tr.note("annotations, load first, step", &(n, load_first, step));
    if load_first {
        ok(s.save_annotations_to(dir.path()), "save")?;
        let mut t = fresh();
        ok(t.load_annotations_from(dir.path()), "load")?;
        s = t;
    }
    for i in 0..n {
        let id = (i * step) % (n + 1) + 1;
        for (k, v) in [(&k1, format!("doc#node{id}, with a name that is long enough for nothing")), (&k2, format!("v{}", id % 5))] {
            ok(s.insert(id, Annotation { key: key(k), val: v.as_str().into() }), "insert")?;
            m.insert((id, 0), k.clone(), v);
        }
    }
    for _ in 0..30 {
        let id = rng.range(0, n as usize + 3) as u64;
        match rng.below(3) {
            0 => {
                let v = format!("v{}", rng.below(7));
                tr.note("insert", &(id, &v));
                ok(s.insert(id, Annotation { key: key(&k2), val: v.as_str().into() }), "insert")?;
                m.insert((id, 0), k2.clone(), v);
            }
            1 => {
                tr.note("remove_item", &id);
                let g = ok(s.remove_item(&id), "remove_item")?;
                ensure!(g == m.m.remove(&(id, 0)).is_some(), "remove_item({id}): {g}");
            }
            _ => {
                tr.note("remove", &id);
                let g = ok(s.remove_annotation_for_item(&id, &key(&k2)), "remove")?.map(|x| x.to_string());
                let w = m.remove((id, 0), &k2);
                ensure!(g == w, "remove_annotation_for_item({id}): got {g:?}, expected {w:?}");
            }
        }
    }
    let mut items: Vec<It> = (0..20).map(|_| (rng.range(0, n as usize + 3) as u64, 0)).collect();
    items.push((0, 0));
    items.push((n + 4, 0));
    let vals = vec!["v1".to_string(), "v6".to_string(), "v".to_string(), m.all().find(|x| *x.1 == k1).map(|x| x.2.clone()).unwrap()];
    let p = Pools { keys: vec![k1, k2], vals, items, patterns: vec![], names: vec![Some("pos".into()), Some("node_name".into()), None], nss: vec![None, Some("x".into())] };
    check(&s, &m, &p, true)?;
    check_names(&s, &m, &p)?;
    let dir2 = tempfile::tempdir().unwrap();
    ok(s.save_annotations_to(dir2.path()), "save")?;
    let mut t = fresh();
    ok(t.load_annotations_from(dir2.path()), "load")?;
    check(&t, &m, &p, true).map_err(|e| format!("after saving and loading: {e}"))?;
    check_names(&t, &m, &p)
}
