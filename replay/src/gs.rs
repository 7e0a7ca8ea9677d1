//! Plain model of one edge component and the comparison of graph storages with it.
use crate::{Rng, ok};
use graphannis_core::annostorage::{AnnotationStorage, inmemory::AnnoStorageImpl};
use graphannis_core::graph::storage::adjacencylist::AdjacencyListStorage;
use graphannis_core::graph::storage::{EdgeContainer, GraphStorage, WriteableGraphStorage};
use graphannis_core::types::{AnnoKey, Annotation, Edge, NodeID};
use std::collections::{BTreeMap, BTreeSet};
use std::ops::Bound;

#[derive(Clone, Debug, Default)]
pub struct Model {
    pub edges: BTreeSet<(u64, u64)>,
    pub annos: BTreeMap<(u64, u64), BTreeMap<(String, String), String>>,
    /// all nodes queries are asked for (including ones without edges)
    pub nodes: Vec<u64>,
}

impl Model {
    pub fn out(&self, n: u64) -> BTreeSet<u64> {
        self.edges.iter().filter(|e| e.0 == n).map(|e| e.1).collect()
    }
    pub fn ing(&self, n: u64) -> BTreeSet<u64> {
        self.edges.iter().filter(|e| e.1 == n).map(|e| e.0).collect()
    }
    pub fn sources(&self) -> BTreeSet<u64> {
        self.edges.iter().map(|e| e.0).collect()
    }
    pub fn roots(&self) -> BTreeSet<u64> {
        self.sources().into_iter().filter(|n| !self.edges.iter().any(|e| e.1 == *n)).collect()
    }
    pub fn edge_nodes(&self) -> BTreeSet<u64> {
        self.edges.iter().flat_map(|e| [e.0, e.1]).collect()
    }
    pub fn reversed(&self) -> BTreeSet<(u64, u64)> {
        self.edges.iter().map(|e| (e.1, e.0)).collect()
    }
    pub fn is_cyclic(&self) -> bool {
        // remove nodes without ingoing edges until nothing is left
        let mut e = self.edges.clone();
        loop {
            let targets: BTreeSet<u64> = e.iter().map(|x| x.1).collect();
            let n = e.len();
            e.retain(|x| targets.contains(&x.0));
            if e.len() == n {
                return n > 0;
            }
        }
    }
    pub fn max_fan_out(&self) -> usize {
        self.sources().iter().map(|n| self.out(*n).len()).max().unwrap_or(0)
    }
    pub fn max_fan_in(&self) -> usize {
        self.edge_nodes().iter().map(|n| self.ing(*n).len()).max().unwrap_or(0)
    }
    /// longest simple path
    pub fn depth(&self) -> usize {
        self.edge_nodes().iter().flat_map(|n| lens(&self.edges, *n).into_values().flatten().collect::<Vec<_>>()).max().unwrap_or(0)
    }
    pub fn add(&mut self, s: u64, t: u64) {
        if s != t {
            self.edges.insert((s, t));
        }
    }
}

/// node -> lengths of the paths without repeated nodes from `n`
pub fn lens(edges: &BTreeSet<(u64, u64)>, n: u64) -> BTreeMap<u64, BTreeSet<usize>> {
    let mut adj: BTreeMap<u64, Vec<u64>> = BTreeMap::new();
    for (s, t) in edges {
        adj.entry(*s).or_default().push(*t);
    }
    fn go(adj: &BTreeMap<u64, Vec<u64>>, path: &mut Vec<u64>, out: &mut BTreeMap<u64, BTreeSet<usize>>) {
        let n = *path.last().unwrap();
        out.entry(n).or_default().insert(path.len() - 1);
        for t in adj.get(&n).into_iter().flatten() {
            if !path.contains(t) {
                path.push(*t);
                go(adj, path, out);
                path.pop();
            }
        }
    }
    let mut out = BTreeMap::new();
    go(&adj, &mut vec![n], &mut out);
    out
}

pub fn in_range(d: usize, min: usize, max: &Bound<usize>) -> bool {
    d >= min
        && match max {
            Bound::Unbounded => true,
            Bound::Included(m) => d <= *m,
            Bound::Excluded(m) => d < *m,
        }
}

pub fn random_range(rng: &mut Rng, n: usize) -> (usize, Bound<usize>) {
    let min = if rng.chance(1, 20) { *rng.pick(&[usize::MAX, usize::MAX - 1, 255, 256, 1 << 32]) } else { rng.below(n + 1) };
    let near = min.saturating_add(rng.below(3));
    let max = match rng.below(8) {
        0 | 1 => Bound::Unbounded,
        2 => Bound::Included(rng.below(n + 2)),
        3 => Bound::Excluded(rng.below(n + 2)),
        4 => Bound::Included(near),
        5 => Bound::Excluded(near),
        6 => Bound::Included(*rng.pick(&[usize::MAX, usize::MAX - 1, 255, 256])),
        _ => Bound::Excluded(*rng.pick(&[0, 1, usize::MAX, usize::MAX - 1])),
    };
    (min, max)
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Shape {
    Any,
    Dag,
    Forest,
    Chains,
    FanOutOne,
    FanOutOneAcyclic,
}

/// a random component; node ids are small when `small_ids`
pub fn random_model(rng: &mut Rng, shape: Shape, max_nodes: usize, small_ids: bool) -> Model {
    let n = rng.range(1, max_nodes);
    let mut ids: Vec<u64> = if small_ids {
        let mut all: Vec<u64> = (0..(n as u64 + 6)).collect();
        rng.shuffle(&mut all);
        all.truncate(n);
        all
    } else {
        let mut s = BTreeSet::new();
        while s.len() < n {
            s.insert(match rng.below(6) {
                0 => rng.next(),
                1 => u64::MAX - rng.below(3) as u64,
                2 => 250 + rng.below(12) as u64,
                _ => rng.below(2 * n + 2) as u64,
            });
        }
        s.into_iter().collect()
    };
    rng.shuffle(&mut ids);
    let mut m = Model { nodes: ids.clone(), ..Default::default() };
    match shape {
        Shape::Any => {
            let e = rng.below(2 * n + 2);
            for _ in 0..e {
                let (a, b) = (*rng.pick(&ids), *rng.pick(&ids));
                m.add(a, b);
            }
        }
        Shape::Dag => {
            let e = rng.below(2 * n + 2);
            for _ in 0..e {
                let (a, b) = (rng.below(n), rng.below(n));
                if a < b {
                    m.add(ids[a], ids[b]);
                }
            }
        }
        Shape::Forest => {
            for i in 1..n {
                if !rng.chance(1, 6) {
                    m.add(ids[rng.below(i)], ids[i]);
                }
            }
        }
        Shape::Chains => {
            for i in 1..n {
                if !rng.chance(1, 5) {
                    m.add(ids[i - 1], ids[i]);
                }
            }
        }
        Shape::FanOutOne => {
            for i in 0..n {
                if !rng.chance(1, 5) {
                    let t = *rng.pick(&ids);
                    m.add(ids[i], t);
                }
            }
        }
        Shape::FanOutOneAcyclic => {
            for i in 1..n {
                if !rng.chance(1, 6) {
                    m.add(ids[i], ids[rng.below(i)]);
                }
            }
        }
    }
    for e in m.edges.clone() {
        if rng.chance(1, 2) {
            for _ in 0..rng.range(1, 2) {
                let (k, v) = random_anno(rng);
                m.annos.entry(e).or_default().insert(k, v);
            }
        }
    }
    m
}

pub fn random_anno(rng: &mut Rng) -> ((String, String), String) {
    (
        (rng.pick(&["", "ns", "default_ns"]).to_string(), rng.pick(&["func", "f", "deprel"]).to_string()),
        rng.pick(&["", "a", "b", "subj", "ä"]).to_string(),
    )
}

pub fn anno(k: &(String, String), v: &str) -> Annotation {
    Annotation { key: AnnoKey { ns: k.0.clone(), name: k.1.clone() }, val: v.into() }
}

pub fn node_annos(m: &Model) -> AnnoStorageImpl<NodeID> {
    let mut a = AnnoStorageImpl::<NodeID>::new();
    for n in m.nodes.iter().copied().chain(m.edge_nodes()) {
        a.insert(n, anno(&("annis".into(), "node_name".into()), &format!("n{n}"))).unwrap();
        a.insert(n, anno(&("annis".into(), "node_type".into()), "node")).unwrap();
    }
    a
}

pub fn fill(gs: &mut dyn WriteableGraphStorage, m: &Model) -> Result<(), String> {
    for e in &m.edges {
        ok(gs.add_edge(Edge { source: e.0, target: e.1 }), "add_edge")?;
    }
    for (e, l) in &m.annos {
        for (k, v) in l {
            ok(gs.add_edge_annotation(Edge { source: e.0, target: e.1 }, anno(k, v)), "add_edge_annotation")?;
        }
    }
    Ok(())
}

pub fn adjacency(m: &Model) -> Result<AdjacencyListStorage, String> {
    let mut a = AdjacencyListStorage::new();
    fill(&mut a, m)?;
    ok(a.calculate_statistics(), "calculate_statistics")?;
    Ok(a)
}

fn set(label: &str, it: Box<dyn Iterator<Item = graphannis_core::errors::Result<u64>> + '_>) -> Result<BTreeSet<u64>, String> {
    let mut s = BTreeSet::new();
    for x in it {
        let x = ok(x, label)?;
        if !s.insert(x) {
            return Err(format!("{label}: node {x} is listed twice"));
        }
    }
    Ok(s)
}

pub fn check_edges(what: &str, gs: &dyn EdgeContainer, m: &Model) -> Result<(), String> {
    for n in m.nodes.iter().copied().chain(m.edge_nodes()).collect::<BTreeSet<_>>() {
        let l = format!("{what}.get_outgoing_edges({n})");
        let o = set(&l, gs.get_outgoing_edges(n))?;
        ensure_eq(&l, &o, &m.out(n))?;
        let l = format!("{what}.get_ingoing_edges({n})");
        let i = set(&l, gs.get_ingoing_edges(n))?;
        ensure_eq(&l, &i, &m.ing(n))?;
        ensure_eq(&format!("{what}.has_outgoing_edges({n})"), &ok(gs.has_outgoing_edges(n), "has_outgoing_edges")?, &!m.out(n).is_empty())?;
        ensure_eq(&format!("{what}.has_ingoing_edges({n})"), &ok(gs.has_ingoing_edges(n), "has_ingoing_edges")?, &!m.ing(n).is_empty())?;
    }
    let l = format!("{what}.source_nodes()");
    ensure_eq(&l, &set(&l, gs.source_nodes())?, &m.sources())?;
    let l = format!("{what}.root_nodes()");
    ensure_eq(&l, &set(&l, gs.root_nodes())?, &m.roots())
}

pub fn ensure_eq<T: PartialEq + std::fmt::Debug>(what: &str, got: &T, want: &T) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{what}: got {got:?}, expected {want:?}")) }
}

pub fn check_annos(what: &str, gs: &dyn GraphStorage, m: &Model) -> Result<(), String> {
    let a = gs.get_anno_storage();
    let all: BTreeSet<u64> = m.nodes.iter().copied().chain(m.edge_nodes()).collect();
    let mut total = 0;
    for s in &all {
        for t in &all {
            let e = Edge { source: *s, target: *t };
            let mut got: Vec<((String, String), String)> = ok(a.get_annotations_for_item(&e), "get_annotations_for_item")?
                .into_iter()
                .map(|a| ((a.key.ns, a.key.name), a.val))
                .collect();
            got.sort();
            let want: Vec<((String, String), String)> = m.annos.get(&(*s, *t)).map(|x| x.iter().map(|(k, v)| (k.clone(), v.clone())).collect()).unwrap_or_default();
            total += want.len();
            ensure_eq(&format!("{what} annotations of edge ({s}, {t})"), &got, &want)?;
            for (k, v) in want {
                let got = ok(a.get_value_for_item(&e, &AnnoKey { ns: k.0.clone(), name: k.1.clone() }), "get_value_for_item")?;
                ensure_eq(&format!("{what} value of {k:?} of edge ({s}, {t})"), &got.map(|x| x.to_string()), &Some(v))?;
            }
        }
    }
    ensure_eq(&format!("{what} number of edge annotations"), &ok(a.number_of_annotations(), "number_of_annotations")?, &total)
}

/// reachability, connection tests and distances from every node with some ranges.
/// `reflexive`: also compare distance/connection of a node with itself
pub fn check_reach(what: &str, gs: &dyn GraphStorage, m: &Model, rng: &mut Rng, ranges: usize, reflexive: bool) -> Result<(), String> {
    let all: Vec<u64> = m.nodes.iter().copied().chain(m.edge_nodes()).collect::<BTreeSet<_>>().into_iter().collect();
    let rev = m.reversed();
    let fwd: BTreeMap<u64, _> = all.iter().map(|n| (*n, lens(&m.edges, *n))).collect();
    let bwd: BTreeMap<u64, _> = all.iter().map(|n| (*n, lens(&rev, *n))).collect();
    for n in &all {
        for _ in 0..ranges {
            let (min, max) = random_range(rng, m.nodes.len().min(8));
            let pick = |l: &BTreeMap<u64, BTreeSet<usize>>| -> BTreeSet<u64> {
                l.iter().filter(|(_, d)| d.iter().any(|d| in_range(*d, min, &max))).map(|x| *x.0).collect()
            };
            let l = format!("{what}.find_connected({n}, {min}, {max:?})");
            let want = pick(&fwd[n]);
            ensure_eq(&l, &set(&l, gs.find_connected(*n, min, max))?, &want)?;
            let l = format!("{what}.find_connected_inverse({n}, {min}, {max:?})");
            ensure_eq(&l, &set(&l, gs.find_connected_inverse(*n, min, max))?, &pick(&bwd[n]))?;
            for t in &all {
                if t == n && !reflexive {
                    continue;
                }
                let c = ok(gs.is_connected(*n, *t, min, max), "is_connected")?;
                ensure_eq(&format!("{what}.is_connected({n}, {t}, {min}, {max:?})"), &c, &want.contains(t))?;
            }
        }
        for t in &all {
            if t == n && !reflexive {
                continue;
            }
            let d = ok(gs.distance(*n, *t), "distance")?;
            ensure_eq(&format!("{what}.distance({n}, {t})"), &d, &fwd[n].get(t).and_then(|x| x.iter().min().copied()))?;
        }
    }
    Ok(())
}


/// An implementation that can be made empty and loaded.
pub trait Impl: GraphStorage + Sized + 'static {
    fn make() -> Result<Self, String>;
}
macro_rules! default_impl {
    ($($t:ty),*) => { $(impl Impl for $t { fn make() -> Result<Self, String> { Ok(<$t>::new()) } })* };
}
use graphannis_core::graph::storage::dense_adjacency::DenseAdjacencyListStorage;
use graphannis_core::graph::storage::disk_adjacency::DiskAdjacencyListStorage;
use graphannis_core::graph::storage::disk_path::DiskPathStorage;
use graphannis_core::graph::storage::linear::LinearGraphStorage;
use graphannis_core::graph::storage::prepost::PrePostOrderStorage;
default_impl!(AdjacencyListStorage, DenseAdjacencyListStorage, LinearGraphStorage<u8>, LinearGraphStorage<u16>, LinearGraphStorage<u32>, LinearGraphStorage<u64>);
default_impl!(PrePostOrderStorage<u64, u64>, PrePostOrderStorage<u64, u32>, PrePostOrderStorage<u64, u8>, PrePostOrderStorage<u32, u32>, PrePostOrderStorage<u32, u8>, PrePostOrderStorage<u16, u32>, PrePostOrderStorage<u16, u8>);
impl Impl for DiskAdjacencyListStorage {
    fn make() -> Result<Self, String> {
        ok(DiskAdjacencyListStorage::new(), "DiskAdjacencyListStorage::new")
    }
}
impl Impl for DiskPathStorage {
    fn make() -> Result<Self, String> {
        ok(DiskPathStorage::new(), "DiskPathStorage::new")
    }
}

/// Something done with every implementation suited for a component.
pub trait Visit {
    /// `reflexive`: distances of a node to itself are compared too
    fn visit<G: Impl>(&mut self, name: &str, reflexive: bool, rng: &mut Rng) -> Result<(), String>;
}

pub fn suited(m: &Model) -> Vec<&'static str> {
    let small = m.edge_nodes().iter().chain(m.nodes.iter()).all(|n| *n < 100_000);
    let cyclic = m.is_cyclic();
    let fan = m.max_fan_out();
    let mut r = vec!["AdjacencyList", "DiskAdjacencyList"];
    if small && fan <= 1 {
        r.push("DenseAdjacencyList");
    }
    if small && fan <= 1 && !cyclic && m.depth() <= 15 {
        r.push("DiskPath");
    }
    if !cyclic && fan <= 1 && m.max_fan_in() <= 1 {
        r.extend(["Linear8", "Linear16", "Linear32", "Linear64"]);
    }
    if !cyclic {
        r.extend(["PrePost64/64", "PrePost64/32", "PrePost64/8", "PrePost32/32", "PrePost32/8", "PrePost16/32", "PrePost16/8"]);
    }
    r
}

pub fn visit_one<V: Visit>(name: &str, rng: &mut Rng, v: &mut V) -> Result<(), String> {
    match name {
        "AdjacencyList" => v.visit::<AdjacencyListStorage>(name, true, rng),
        "DiskAdjacencyList" => v.visit::<DiskAdjacencyListStorage>(name, true, rng),
        "DenseAdjacencyList" => v.visit::<DenseAdjacencyListStorage>(name, true, rng),
        "DiskPath" => v.visit::<DiskPathStorage>(name, false, rng),
        "Linear8" => v.visit::<LinearGraphStorage<u8>>(name, true, rng),
        "Linear16" => v.visit::<LinearGraphStorage<u16>>(name, true, rng),
        "Linear32" => v.visit::<LinearGraphStorage<u32>>(name, true, rng),
        "Linear64" => v.visit::<LinearGraphStorage<u64>>(name, true, rng),
        "PrePost64/64" => v.visit::<PrePostOrderStorage<u64, u64>>(name, true, rng),
        "PrePost64/32" => v.visit::<PrePostOrderStorage<u64, u32>>(name, true, rng),
        "PrePost64/8" => v.visit::<PrePostOrderStorage<u64, u8>>(name, true, rng),
        "PrePost32/32" => v.visit::<PrePostOrderStorage<u32, u32>>(name, true, rng),
        "PrePost32/8" => v.visit::<PrePostOrderStorage<u32, u8>>(name, true, rng),
        "PrePost16/32" => v.visit::<PrePostOrderStorage<u16, u32>>(name, true, rng),
        "PrePost16/8" => v.visit::<PrePostOrderStorage<u16, u8>>(name, true, rng),
        _ => Err(format!("unknown implementation {name}")),
    }
}

pub fn visit_suited<V: Visit>(m: &Model, rng: &mut Rng, v: &mut V) -> Result<(), String> {
    for n in suited(m) {
        visit_one(n, rng, v)?;
    }
    Ok(())
}
